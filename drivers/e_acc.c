/* accessors: which fields which type of entry has; names of types */
#include "abs.h"
#include "dnstable-private.h"
#include <wdns.h>
#include <string.h>
#include <stdlib.h>
#define OK dnstable_res_success
#define NO dnstable_res_failure
static uint64_t tf, tl, tc;
dnstable_res triplet_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l, uint64_t *c) { *f = tf; *l = tl; *c = tc; return OK; }
dnstable_res pair_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l) { *f = tf; *l = tl; return OK; }
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz) {
	size_t o = 0;
	while (p + o < eop && p[o] != 0) o += p[o] + 1;
	*sz = o + 1;
	return wdns_res_success;
}
wdns_res wdns_reverse_name(const uint8_t *n, size_t len, uint8_t *r) { memcpy(r, n, len); return wdns_res_success; }
unsigned mtbl_varint_length_packed(const uint8_t *p, size_t n) { return 1; }
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) { *v = *p; return 1; }
size_t mtbl_varint_decode64(const uint8_t *p, uint64_t *v) { *v = *p; return 1; }
static const uint8_t K[7][16] = {
	{ 0, 1, 'a', 0, 1, 0, 2, 'x', 'y' }, { 1, 1, 'a', 0 }, { 2, 'x', 'y', 1, 1, 'a', 0, 2, 0 }, { 3, 1, 'a', 0 }, { 254 }, { 253, 's' }, { 255, 2 } };
static const uint8_t KN[7] = { 9, 4, 9, 4, 1, 2, 2 };
enum { RRSET, FWD, RDATA, REV, TIME, INFO, VERSION };
static const dnstable_entry_type T[7] = { DNSTABLE_ENTRY_TYPE_RRSET, DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, DNSTABLE_ENTRY_TYPE_RDATA,
	DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV, DNSTABLE_ENTRY_TYPE_TIME_RANGE, DNSTABLE_ENTRY_TYPE_SOURCE_INFO, DNSTABLE_ENTRY_TYPE_VERSION };
#define W(r, ok, what) abs_check((r) == ((ok) ? OK : NO), what " is reported exactly for the entries which have one")
#define KEPT(c, what) abs_check(c, what " of an entry without one is not written")
void drv_applicable(void) {
	int t = abs_pick("type", 7), data = t == RRSET || t == RDATA;
	static const uint8_t V[] = { 5 };
	uint8_t *k = malloc(KN[t]), *v = malloc(1);
	memcpy(k, K[t], KN[t]); v[0] = 5;
	tf = abs_u64("time_first"); tl = abs_u64("time_last"); tc = abs_u64("count");
	abs_assume(tl != 0); abs_assume(tc != 0);
	struct dnstable_entry *e = dnstable_entry_decode(k, KN[t], v, 1);
	abs_check(e != NULL, "a well-formed entry of every type decodes");
	memset(k, 0xee, KN[t]); v[0] = 0xee;
	free(k); free(v);	/* an entry does not depend on the bytes it was decoded from */
	if (abs_choice("zone")) dnstable_entry_set_iszone(e, true);
	const uint8_t *p; size_t n; uint16_t rr; uint64_t u; uint32_t w; const char *s; dnstable_entry_type vt;
	static const uint8_t X; 
	abs_check(dnstable_entry_get_type(e) == T[t], "the type is that of the key");
#define RESET (p = &X, n = 77)
	int has = t == RRSET || t == FWD || t == RDATA;
	RESET; W(dnstable_entry_get_rrname(e, &p, &n), has, "an owner name");
	if (has) abs_check(n == 3 && p[0] == 1 && p[1] == 'a' && p[2] == 0, "the owner name is that of the key"); else KEPT(p == &X && n == 77, "the owner name");
	RESET; W(dnstable_entry_get_bailiwick(e, &p, &n), t == RRSET, "a bailiwick");
	if (t == RRSET) abs_check(n == 1 && p[0] == 0, "the bailiwick is that of the key"); else KEPT(p == &X && n == 77, "the bailiwick");
	rr = 77; W(dnstable_entry_get_rrtype(e, &rr), data, "an rrtype");
	abs_check(rr == (data ? 1 : 77), "the rrtype is that of the key, if there is one");
	n = 77; W(dnstable_entry_get_num_rdata(e, &n), data, "a number of rdatas");
	abs_check(n == (data ? 1 : 77), "the number of rdatas is that of the key, if there are any");
	RESET; W(dnstable_entry_get_rdata(e, 0, &p, &n), data, "an rdata");
	if (data) abs_check(n == 2 && p[0] == 'x' && p[1] == 'y', "the rdata is that of the key"); else KEPT(p == &X && n == 77, "the rdata");
	RESET; W(dnstable_entry_get_rdata(e, 1 + abs_size("index"), &p, &n), 0, "an rdata past the last");
	KEPT(p == &X && n == 77, "the rdata past the last");
	RESET; W(dnstable_entry_get_rdata_name(e, &p, &n), t == REV, "an rdata name");
	if (t == REV) abs_check(n == 3 && p[1] == 'a', "the rdata name is that of the key"); else KEPT(p == &X && n == 77, "the rdata name");
	has = data || t == TIME;
	u = 77; W(dnstable_entry_get_time_first(e, &u), has, "a first time");
	abs_check(u == (has ? tf : 77), "the first time is that of the value, if there is one");
	u = 77; W(dnstable_entry_get_time_last(e, &u), has, "a last time");
	abs_check(u == (has ? tl : 77), "the last time is that of the value, if there is one");
	u = 77; W(dnstable_entry_get_count(e, &u), data, "a count");
	abs_check(u == (data ? tc : 77), "the count is that of the value, if there is one");
	s = (const char *)&X; W(dnstable_entry_get_source_info(e, &s), t == INFO, "a source info");
	if (t == INFO) abs_check(s[0] == 's' && s[1] == 0, "the source info is that of the key, as a string"); else KEPT((const uint8_t *)s == &X, "the source info");
	w = 77; W(dnstable_entry_get_version(e, &w), t == VERSION, "a version");
	abs_check(w == (t == VERSION ? 5 : 77), "the version is that of the value, if there is one");
	vt = 77; W(dnstable_entry_get_version_type(e, &vt), t == VERSION, "a version type");
	abs_check((int)vt == (t == VERSION ? 2 : 77), "the version type is that of the key, if there is one");
	dnstable_entry_destroy(&e);
	abs_check(e == NULL, "destroying an entry clears the handle");
	dnstable_entry_destroy(&e);
	abs_reach("accessors");
	(void)V;
}
void drv_names(void) {
	int t = abs_pick("type", 7), u = abs_pick("other type", 7);
	dnstable_entry_type got = 77;
	const char *s = dnstable_entry_type_to_string(T[t]), *o = dnstable_entry_type_to_string(T[u]);
	abs_check(s != NULL && o != NULL, "every entry type has a name");
	abs_check((strcmp(s, o) == 0) == (t == u), "the names of entry types are distinct");
	abs_check(dnstable_entry_type_from_string(&got, s) == OK && got == T[t], "the name of an entry type stands for that type");
	abs_check((uint8_t)T[t] == K[t][0], "entry types have the values of their type bytes");
	abs_reach("named");
}
void drv_noname(void) {
	unsigned v = abs_u32("value");
	for (int i = 0; i < 7; i++) abs_assume(v != (unsigned)T[i]);
	abs_check(dnstable_entry_type_to_string(v) == NULL, "what is no entry type has no name");
	dnstable_entry_type got = 77;
	static const char *const S[] = { "", "rrset ", "rrset_nam", "RRSET", "rdata_names", "x", "_name", "versio", "time range" };
	const char *b = S[abs_pick("string", 9)];
	abs_check(dnstable_entry_type_from_string(&got, b) == NO && (int)got == 77, "what is no name of an entry type is refused");
	abs_reach("unnamed");
}

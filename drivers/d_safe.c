/* searching a source with arbitrary entries: memory safety and ownership of the whole pipeline */
#include "q.h"
static uint8_t w_name[64]; static size_t w_len;
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n) {
	n->len = w_len;
	n->data = malloc(w_len);
	memcpy(n->data, w_name, w_len);
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *n) { }
dnstable_res triplet_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l, uint64_t *c) {
	if (abs_nondet("no triplet")) return dnstable_res_failure;
	*f = abs_fresh("time_first", 0, UINT64_MAX); *l = abs_fresh("time_last", 0, UINT64_MAX); *c = 1;
	return dnstable_res_success;
}
static int left = 1;
static mtbl_res nxt(struct mdl_raw *r, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	if (left == 0 || abs_nondet("source exhausted")) return mtbl_res_failure;
	left--;
	r->len_key = abs_fresh("len_key", 1, 1UL << 32);
	r->len_val = abs_fresh("len_val", 0, 1UL << 32);
	r->key = abs_vol("key", r->len_key);
	r->val = abs_vol("val", r->len_val);
	/* whatever search it was, keys are of the type of the search key */
	abs_assume(r->key[0] == (r->exhausted & 255));
	*k = r->key; *nk = r->len_key; *v = r->val; *nv = r->len_val;
	return mtbl_res_success;
}
static struct mtbl_iter *opn(const struct mtbl_source *s, int op, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) {
	if (abs_nondet("source returns no iterator")) return NULL;
	struct mtbl_iter *it = mdl_raw_iter();
	mdl_last_raw->exhausted = k0[0];
	return it;
}
struct dnstable_entry { int which; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t m) {
	if (abs_nondet("undecodable")) return NULL;
	return malloc(sizeof(struct dnstable_entry));
}
bool rrtype_test(dnstable_entry_type t, uint16_t rr, const uint8_t *m, size_t n) { return abs_nondet("in union"); }
uint16_t wdns_str_to_rrtype(const char *s) { return 15; }
static void safe(struct dnstable_query *q) {
	struct mtbl_source *src = mdl_source();
	mdl_next_hook = nxt;
	mdl_open_hook = opn;
	struct dnstable_iter *it = dnstable_query_iter(q, src);
	struct dnstable_entry *e = NULL;
	if (it) {
		if (dnstable_iter_next(it, &e) == dnstable_res_success) { free(e); abs_reach("result"); }
		else abs_reach("no result");
	}
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
}
static struct dnstable_query *named(dnstable_query_type t, const uint8_t *p, size_t n) {
	struct dnstable_query *q = q_new(t);
	memcpy(w_name, p, n); w_len = n;
	dnstable_query_set_data(q, "name");
	return q;
}
static void opts(struct dnstable_query *q, int rr, int bw, int tm) {
	static const uint8_t B[] = { 1, 'z', 0 };
	uint64_t t = abs_u64("time");
	if (rr) dnstable_query_set_rrtype(q, "MX");
	if (bw) { memcpy(w_name, B, 3); w_len = 3; dnstable_query_set_bailiwick(q, "z"); }
	if (tm) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &t, 8);
}
static const uint8_t LW[] = { 1, '+', 1, 'a', 0 }, RW[] = { 1, 'a', 1, '+', 0 }, NM[] = { 1, 'a', 0 };
#define RRSET DNSTABLE_QUERY_TYPE_RRSET
#define NAME DNSTABLE_QUERY_TYPE_RDATA_NAME
static void go(dnstable_query_type t, const uint8_t *p, size_t n, int rr, int bw, int tm, int entries) {
	struct dnstable_query *q = named(t, p, n);
	opts(q, rr, bw, tm);
	left = entries;
	safe(q);
}
void drv_rrset(void) { go(RRSET, NM, 3, 0, 1, 1, 2); }
void drv_left(void) { go(RRSET, LW, 5, 0, 0, 0, 2); }
void drv_left_rrtype(void) { go(RRSET, LW, 5, 1, 0, 0, 2); }
void drv_left_bailiwick(void) { go(RRSET, LW, 5, 0, 1, 0, 2); }
void drv_left_all(void) { go(RRSET, LW, 5, 1, 1, 1, 1); }
void drv_right(void) { go(RRSET, RW, 5, 0, 0, 0, 2); }
void drv_right_all(void) { go(RRSET, RW, 5, 1, 1, 1, 2); }
void drv_rdata(void) { go(NAME, NM, 3, 0, 0, 1, 2); }
void drv_rdata_right(void) { go(NAME, RW, 5, 0, 0, 0, 1); }
void drv_rdata_right_rrtype(void) { go(NAME, RW, 5, 1, 0, 0, 2); }
void drv_rdata_left(void) { go(NAME, LW, 5, 0, 0, 0, 2); }
void drv_rdata_left_rrtype(void) { go(NAME, LW, 5, 1, 0, 0, 2); }
void drv_raw(void) {
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	dnstable_query_set_data(q, "0102");
	opts(q, 1, 0, 1);
	left = 2;
	safe(q);
}
#include <errno.h>
/* libc, as far as the driver's strings need it */
char *strtok_r(char *s, const char *delim, char **save) {
	char *p = s ? s : *save, *r;
	while (*p && *p == delim[0]) p++;
	if (*p == 0) { *save = p; return NULL; }
	r = p;
	while (*p && *p != delim[0]) p++;
	if (*p) *p++ = 0;
	*save = p;
	return r;
}
static int fam;
int inet_pton(int af, const char *s, void *out) {
	uint8_t *o = out;
	if (af != (fam == 4 ? 2 : 10)) return 0;
	for (int i = 0; i < fam; i++) o[i] = i == fam - 1 ? s[0] : i + 1;
	return 1;
}
static long plen;
long strtol(const char *s, char **end, int base) { *end = (char *)s + strlen(s); return plen; }
static void ip(const char *s, int family, long p, int entries) {
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	fam = family; plen = p;
	abs_check(dnstable_query_set_data(q, s) == dnstable_res_success, "an address is accepted");
	left = entries;
	safe(q);
}
void drv_ip4_prefix(void) { ip("a/8", 4, 8, 1); }
void drv_ip4_range(void) { ip("a-c", 4, 0, 1); }
void drv_ip6_prefix(void) { ip("a/33", 16, 33, 1); }
void drv_ip6_range(void) { ip("a-c", 16, 0, 1); }
void drv_ip4(void) { ip("a", 4, 0, 1); }

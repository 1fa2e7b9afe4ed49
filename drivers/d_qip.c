/* IP address queries: addresses, ranges, prefixes */
#include "q.h"
#include <errno.h>
/* libc, as far as the driver's strings need it */
char *strtok_r(char *s, const char *delim, char **save) {
	char *p = s ? s : *save, *r;
	while (*p && *p == delim[0]) p++;
	if (*p == 0) { *save = p; return NULL; }
	r = p;
	while (*p && *p != delim[0]) p++;
	if (*p) *p++ = 0;
	*save = p;
	return r;
}
static uint8_t addr[2][16]; static int fam[2];
int inet_pton(int af, const char *s, void *out) {
	int i = s[0] - 'a';
	if (i < 0 || i > 1 || s[1] != 0) return 0;
	if (af == 2 && fam[i] == 4) { memcpy(out, addr[i], 4); return 1; }
	if (af == 10 && fam[i] == 16) { memcpy(out, addr[i], 16); return 1; }
	return 0;
}
static long plen; static int plen_errno, plen_rest;
long strtol(const char *s, char **end, int base) {
	abs_check(base == 10, "prefix lengths are decimal");
	if (plen_errno) errno = plen_errno;
	*end = (char *)s + (plen_rest ? 0 : strlen(s));
	return plen;
}
static struct dnstable_query *q;
static struct mtbl_source *src;
static struct dnstable_iter *it;
static void addrs(void) {
	for (int j = 0; j < 2; j++) {
		fam[j] = abs_pick("family", 3);
		fam[j] = fam[j] == 0 ? 0 : fam[j] == 1 ? 4 : 16;
		for (int i = 0; i < 16; i++) addr[j][i] = abs_fresh("address byte", 0, 255);
	}
}
static void rrtype(void) {
	/* an rrtype may be given, before or after the address */
	if (abs_choice("rrtype cleared")) abs_check(dnstable_query_set_rrtype(q, NULL) == dnstable_res_success, "clearing an rrtype succeeds");
}
static void search(void) {
	src = mdl_source();
	mdl_ncalls = 0;
	it = dnstable_query_iter(q, src);
	abs_check(it != NULL && mdl_ncalls == 1, "one search of the source per query");
}
static void key_is(const uint8_t *k, size_t n, const uint8_t *a, int f, unsigned rr, const char *what) {
	abs_check(n == f + 2, "the search key is the type byte, the address and the rrtype");
	abs_check(k[0] == 2 && k[f + 1] == rr, "the search key has the rdata type byte and the rrtype of the address");
	for (int i = 0; i < f; i++) abs_check(k[1 + i] == a[i], what);
}
static void done(void) {
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
	abs_noleak();
}
#define RR(f) ((f) == 4 ? 1 : 28)
void drv_address(void) {
	addrs();
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_res r = dnstable_query_set_data(q, "a");
	abs_check(r == (fam[0] ? dnstable_res_success : dnstable_res_failure), "an address is accepted if it parses");
	if (!fam[0]) { dnstable_query_destroy(&q); abs_noleak(); return; }
	rrtype();
	search();
	abs_check(mdl_calls[0].op == MDL_PREFIX, "an address is searched as a prefix");
	key_is(mdl_calls[0].k0, mdl_calls[0].n0, addr[0], fam[0], RR(fam[0]), "the address is searched");
	abs_reach("address searched");
	done();
}
void drv_range(void) {
	static const char *const form[] = { "a-b", "a-", "-b", "-", "a-b-c", "a-c", "c-b" };
	int f = abs_pick("form", 7);
	addrs();
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_res r = dnstable_query_set_data(q, form[f]);
	int ok = f == 0 && fam[0] && fam[0] == fam[1];
	abs_check(r == (ok ? dnstable_res_success : dnstable_res_failure), "a range is accepted if it is two addresses of one family");
	if (!ok) {
		r = dnstable_query_set_data(q, "a");	/* nothing of the range remains */
		if (r != dnstable_res_success) { dnstable_query_destroy(&q); abs_noleak(); return; }
		search();
		abs_check(mdl_calls[0].op == MDL_PREFIX, "a rejected range leaves nothing in the query");
		abs_reach("bad range");
		done();
		return;
	}
	rrtype();
	search();
	abs_check(mdl_calls[0].op == MDL_RANGE, "a range is searched as a range");
	key_is(mdl_calls[0].k0, mdl_calls[0].n0, addr[0], fam[0], RR(fam[0]), "the range starts with its first address");
	key_is(mdl_calls[0].k1, mdl_calls[0].n1, addr[1], fam[1], RR(fam[0]) + 1, "the range ends after every entry of its last address");
	abs_reach("range searched");
	done();
}
void drv_prefix(void) {
	static const char *const form[] = { "a/1", "a/", "/1", "/", "a/1/2", "c/1" };
	uint8_t lo[16], hi[16];
	int f = abs_pick("form", 6);
	addrs();
	plen_rest = plen_errno = 0;
	plen = (long)abs_pick("prefix length", 135) - 3;
	if (plen == 130) plen = (1L << 32) + 8;
	if (plen == 131) plen = -(1L << 32) + 8;
	if (plen == 17) { plen_rest = abs_choice("trailing garbage"); plen_errno = abs_choice("out of range") ? 34 : 0; }
	if (f != 0 && plen != 8) abs_stop();
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	dnstable_res r = dnstable_query_set_data(q, form[f]);
	int ok = f == 0 && fam[0] && plen >= 0 && plen <= fam[0] * 8 && !plen_rest && !plen_errno;
	abs_check(r == (ok ? dnstable_res_success : dnstable_res_failure), "a prefix is accepted if it is an address and a length within its family");
	if (!ok) { abs_reach("bad prefix"); dnstable_query_destroy(&q); abs_noleak(); return; }
	for (int i = 0; i < fam[0]; i++) {
		int bits = plen - 8 * i;	/* bits of this byte inside the prefix */
		uint8_t host = bits >= 8 ? 0 : bits <= 0 ? 255 : 255 >> bits;
		lo[i] = addr[0][i] & ~host;
		hi[i] = addr[0][i] | host;
	}
	search();
	abs_check(mdl_calls[0].op == MDL_RANGE, "a prefix is searched as a range");
	key_is(mdl_calls[0].k0, mdl_calls[0].n0, lo, fam[0], RR(fam[0]), "the prefix starts with its lowest address");
	key_is(mdl_calls[0].k1, mdl_calls[0].n1, hi, fam[0], RR(fam[0]) + 1, "the prefix ends after every entry of its highest address");
	abs_reach("prefix searched");
	done();
}
/* the rrtype of an address query is that of its address, whatever is asked for */
void drv_rrtype(void) {
	addrs();
	const char *s = abs_str("rrtype");
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	int before = abs_choice("rrtype first");
	if (before) {
		/* with no address to go by, one type after another will do, and so will clearing it */
		if (abs_choice("another rrtype first")) {
			const char *t = abs_choice("cleared") ? NULL : "TXT";
			abs_check(dnstable_query_set_rrtype(q, t) == (!t || wdns_str_to_rrtype(t) != 0 ? dnstable_res_success : dnstable_res_failure), "an rrtype is accepted while there is no address");
		}
		if (abs_choice("address cleared first")) dnstable_query_set_data(q, NULL);
		abs_check(dnstable_query_set_rrtype(q, s) == (q_isnorr(s) || wdns_str_to_rrtype(s) != 0 ? dnstable_res_success : dnstable_res_failure), "any known rrtype is accepted while there is no address");
	}
	if (dnstable_query_set_data(q, "a") != dnstable_res_success) { dnstable_query_destroy(&q); abs_noleak(); return; }
	if (!before) {
		dnstable_res r = dnstable_query_set_rrtype(q, s);
		int want = q_isnorr(s) || wdns_str_to_rrtype(s) == RR(fam[0]);
		abs_check(r == (want ? dnstable_res_success : dnstable_res_failure), "an rrtype is accepted if it is the one of the address");
	}
	search();
	key_is(mdl_calls[0].k0, mdl_calls[0].n0, addr[0], fam[0], RR(fam[0]), "the address is searched with its own rrtype");
	abs_reach("rrtype of address");
	done();
}

/* whatever was set before, the last accepted data count */
static void again(int last) {
	static const char *const before[] = { "b", "b-b", "a-b", "b/8", "b/8/1", "c", "b-c", NULL, "b-" }, *const now[] = { "a", "a-b", "a/8" };
	addrs();
	plen = 8; plen_rest = plen_errno = 0;
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	for (int n = abs_pick("earlier settings", 2) + 1; n > 0; n--) {
		const char *b = before[abs_pick("earlier", 9)];
		dnstable_res r = dnstable_query_set_data(q, b);
		if (b && (b[0] == 'c' || b[1] && b[2] == 'c')) abs_check(r == dnstable_res_failure, "what is not an address is refused");
	}
	dnstable_res r = dnstable_query_set_data(q, now[last]);
	int ok = fam[0] && (last != 1 || fam[0] == fam[1]);
	abs_check(r == (ok ? dnstable_res_success : dnstable_res_failure), "an address, range or prefix is accepted whatever was set before");
	if (!ok) {
		abs_check(dnstable_query_get_error(q) != NULL, "a refused setting leaves an error message");
		dnstable_query_destroy(&q); abs_noleak(); return;
	}
	search();
	abs_check(mdl_calls[0].op == (last ? MDL_RANGE : MDL_PREFIX), "the last kind of address search counts");
	if (last < 2) key_is(mdl_calls[0].k0, mdl_calls[0].n0, addr[0], fam[0], RR(fam[0]), "the last address set is searched");
	if (last == 1) key_is(mdl_calls[0].k1, mdl_calls[0].n1, addr[1], fam[1], RR(fam[1]) + 1, "the last upper address set is searched");
	if (last == 2) {
		abs_check(mdl_calls[0].n0 == fam[0] + 2 && mdl_calls[0].k0[1] == addr[0][0] && mdl_calls[0].k0[fam[0]] == 0, "the last prefix set is searched");
		abs_check(mdl_calls[0].n1 == fam[0] + 2 && mdl_calls[0].k1[1] == addr[0][0] && mdl_calls[0].k1[fam[0]] == 255 && mdl_calls[0].k1[fam[0] + 1] == RR(fam[0]) + 1, "the last prefix set is searched");
	}
	abs_reach("last address searched");
	done();
}
void again_address(void) { again(0); }
void again_range(void) { again(1); }
void again_prefix(void) { again(2); }

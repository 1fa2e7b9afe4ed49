/* a source which yields one well-formed entry of known shape and unknown bytes */
#ifndef ONE_H
#define ONE_H
#include "q_names.h"
int memcmp(const void *a, const void *b, size_t n) {
	const uint8_t *p = a, *q = b;
	for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
	return 0;
}
unsigned mtbl_varint_length_packed(const uint8_t *p, size_t n) {
	for (size_t i = 0; i < n; i++) if (p[i] < 128) return i + 1;
	return 0;
}
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) {
	uint32_t r = 0; unsigned i;
	for (i = 0; i < 5; i++) { r |= (uint32_t)(p[i] & 127) << (7 * i); if (p[i] < 128) { *v = r; return i + 1; } }
	return 0;
}
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *end, size_t *len) {
	const uint8_t *q = p;
	if (p >= end) return wdns_res_out_of_bounds;
	while (q < end && *q != 0) {
		if (*q > 63) return wdns_res_invalid_length_octet;
		q += *q + 1;
	}
	if (q >= end) return wdns_res_name_overflow;
	*len = q + 1 - p;
	return wdns_res_success;
}
#ifndef K_MAX
#define K_MAX 100
#endif
static uint8_t K[K_MAX]; static size_t nk; static uint8_t *V; static size_t nv;
static int K_left = 1;
static uint8_t *held;
static void drop(void) { free(held); held = NULL; }
static mtbl_res nxt(void *c, const uint8_t **k, size_t *n, const uint8_t **v, size_t *m) {
	drop();
	if (K_left == 0) return mtbl_res_failure;
	K_left--;
	held = malloc(nk);
	memcpy(held, K, nk);
	*k = held; *n = nk;
	*v = V; *m = nv;
	return mtbl_res_success;
}
static mtbl_res sk(void *c, const uint8_t *k, size_t n) { return mtbl_res_success; }
static void fr(void *c) { drop(); }
static struct mtbl_iter *op(const struct mtbl_source *s, int o, const uint8_t *k0, size_t m0, const uint8_t *k1, size_t m1) {
	return mtbl_iter_init(sk, nxt, fr, NULL);
}
static void k_name(const char *what, unsigned nl, unsigned ml) {
	size_t n;
	uint8_t t[64];
	w_build(what, t, &n, nl, ml);
	memcpy(K + nk, t, n);
	nk += n;
}
static uint32_t k_rr;
static void k_rrtype(void) {
	if (abs_pick("long rrtype", 2)) {
		uint8_t a = abs_fresh("rrtype low", 0, 127), b = abs_fresh("rrtype high", 1, 127);
		K[nk++] = 128 | a; K[nk++] = b;
		k_rr = a | (uint32_t)b << 7;
	} else { k_rr = abs_fresh("rrtype", 0, 127); K[nk++] = k_rr; }
}
struct dnstable_entry { int which; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t m) {
	return malloc(sizeof(struct dnstable_entry));
}
static uint32_t q_rr;	/* what rrtype strings mean */
uint16_t wdns_str_to_rrtype(const char *s) { return q_rr; }
#endif

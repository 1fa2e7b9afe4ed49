/* Skipping filters: whatever entry is met, the filter only skips forward, and never past an
 * entry which belongs to the result. */
#define NAMES_ONLY
#include "q_names.h"
int memcmp(const void *a, const void *b, size_t n) {
	const uint8_t *p = a, *q = b;
	for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
	return 0;
}
unsigned mtbl_varint_length_packed(const uint8_t *p, size_t n) {
	for (size_t i = 0; i < n; i++) if (p[i] < 128) return i + 1;
	return 0;
}
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) {
	uint32_t r = 0; unsigned i;
	for (i = 0; i < 5; i++) { r |= (uint32_t)(p[i] & 127) << (7 * i); if (p[i] < 128) { *v = r; return i + 1; } }
	return 0;
}
static uint8_t K1[100], K2[100]; static size_t n1, n2;
static int state;	/* 0: at K1, 1: sought, 2: K2 delivered */
static int less(const uint8_t *a, size_t na, const uint8_t *b, size_t nb) {
	for (size_t i = 0; i < na && i < nb; i++) if (a[i] != b[i]) return a[i] < b[i];
	return na < nb;
}
static int got;	/* which key reached the client */
static uint8_t *held;
static void drop(void) { free(held); held = NULL; }
static mtbl_res nxt(void *c, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	drop();
	if (state > 1) return mtbl_res_failure;
	state = state == 0 ? 1 : 2;
	*nk = state == 1 ? n1 : n2;
	held = malloc(*nk);
	memcpy(held, state == 1 ? K1 : K2, *nk);
	*k = held;
	*v = NULL; *nv = 0;
	return mtbl_res_success;
}
static mtbl_res sk(void *c, const uint8_t *k, size_t n) {
	abs_check(state == 1, "a skip happens at the entry which was rejected");
	abs_check(!less(K2, n2, k, n), "a skip never passes an entry of the result");
	abs_check(less(K1, n1, k, n), "a skip goes forward");
	abs_reach("skipped");
	drop();
	return mtbl_res_success;
}
static void fr(void *c) { drop(); }
static struct mtbl_iter *op(const struct mtbl_source *s, int o, const uint8_t *k0, size_t m0, const uint8_t *k1, size_t m1) {
	return mtbl_iter_init(sk, nxt, fr, NULL);
}
struct dnstable_entry { int which; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t nv) {
	struct dnstable_entry *e = malloc(sizeof(*e));
	e->which = state;
	return e;
}
static struct dnstable_query *q;
static struct dnstable_iter *it;
static struct mtbl_source *src;
static void start(void) {
	mdl_open_hook = op;
	src = mdl_source();
	it = dnstable_query_iter(q, src);
	abs_check(it != NULL, "an iterator");
}
static int next(void) {
	struct dnstable_entry *e = NULL;
	if (dnstable_iter_next(it, &e) != dnstable_res_success) return 0;
	int w = e->which;
	free(e);
	return w;
}
static void done(void) {
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
	abs_noleak();
}
static void anykey(uint8_t *k, size_t n) { for (size_t i = 0; i < n; i++) k[i] = abs_fresh("key byte", 0, 255); }

/* ---- address queries */
static int fam; static uint8_t ip[16];
int inet_pton(int af, const char *s, void *out) {
	if (af == (fam == 4 ? 2 : 10)) { memcpy(out, ip, fam); return 1; }
	return 0;
}
static int long_label;
/* an entry of the result: some address, the rrtype, a name of up to nl labels, the rdata length */
static void result_key(uint8_t *k, size_t *n, unsigned nl) {
	size_t o = 0, ln; uint8_t nm[16];
	k[o++] = 2;
	for (int i = 0; i < fam; i++) k[o++] = abs_fresh("result address", 0, 255);
	k[o++] = fam == 4 ? 1 : 28;
	if (long_label) {
		k[o++] = 63;
		for (int i = 0; i < 63; i++) k[o++] = abs_fresh("letter", 0, 255);
		k[o++] = 0;
	} else {
		w_build("result labels", nm, &ln, nl, 1);
		memcpy(k + o, nm, ln); o += ln;
	}
	k[o++] = fam; k[o++] = 0;
	*n = o;
}
static int shared;	/* leading address bytes all three addresses share */
static void address(int f, size_t lo, size_t hi, unsigned nl) {
	fam = f;
	for (int i = 0; i < fam; i++) ip[i] = abs_fresh("address", 0, 255);
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	abs_check(dnstable_query_set_data(q, "address") == dnstable_res_success, "an address is accepted");
	n1 = lo + abs_pick("length of the entry met", hi - lo + 1);
	anykey(K1, n1);
	K1[0] = 2;
	/* make the lengths in the key known where they matter */
	if (n1 <= fam + 4) {
		if (K1[n1 - 1] == 0 && K1[n1 - 2] < n1) K1[n1 - 2] = abs_split(K1[n1 - 2], 0, n1);
	} else {	/* the rdata length of an entry of either family, or one beyond the entry */
		int l = abs_pick("rdata length", 3);
		if (l == 0) { K1[n1 - 2] = 4; K1[n1 - 1] = 0; }
		else if (l == 1) { K1[n1 - 2] = 16; K1[n1 - 1] = 0; }
		else abs_assume(K1[n1 - 1] > 0);
	}
	for (size_t o = fam + 2; o < n1 && K1[o] < n1 - o; o += K1[o] + 1) K1[o] = abs_split(K1[o], 0, n1 - o);
	result_key(K2, &n2, nl);
	for (int i = 1; i <= shared && i < n1; i++) K1[i] = K2[i] = 0x20;
	if (!less(K1, n1, K2, n2)) abs_stop();
	int match = 0, m;
	if (n1 >= 2) {
		size_t rdlen = K1[n1 - 2] | (size_t)K1[n1 - 1] << 8;
		if (rdlen + 2 < n1) {
			uint32_t t;
			if (varint_decode32_bounded(&K1[rdlen + 1], &K1[n1], &t) && t == (fam == 4 ? 1 : 28)) match = 1;
		}
	}
	start();
	m = next();
	abs_check(m == (match ? 1 : 2), "an entry met is a result exactly if it has the rrtype of the address");
	if (match) abs_check(next() == 2, "the next entry of the result follows");
	abs_check(next() == 0, "no further results");
	abs_reach(match ? "matching entry met" : "other entry met");
	done();
}
void drv_ip4_short(void) { address(4, 2, 6, 1); }
void drv_ip4_7(void) { address(4, 7, 7, 2); }
void drv_ip4_8(void) { address(4, 8, 8, 2); }
void drv_ip4_9(void) { address(4, 9, 9, 1); }
void drv_ip4_10(void) { address(4, 10, 10, 1); }
void drv_ip4_11(void) { address(4, 11, 11, 1); }
void drv_ip4_long_label(void) { long_label = 1; address(4, 7, 9, 0); }
void drv_ip6_short(void) { shared = 13; address(16, 15, 18, 0); }
void drv_ip6_19(void) { shared = 13; address(16, 19, 19, 1); }
void drv_ip6_20(void) { shared = 13; address(16, 20, 20, 1); }
void drv_ip6_21(void) { shared = 14; address(16, 21, 21, 1); }
void drv_ip6_22(void) { shared = 14; address(16, 22, 22, 1); }

/* ---- one more label than asked for */
static void one_label(int rrset, size_t lo, size_t hi) {
	size_t p = 0, o;
	/* +.m or m.+ */
	if (rrset) { w_name[0] = 1; w_name[1] = '+'; w_name[2] = 1; w_name[3] = 'm'; w_name[4] = 0; }
	else { w_name[0] = 1; w_name[1] = 'm'; w_name[2] = 1; w_name[3] = '+'; w_name[4] = 0; }
	w_len = 5;
	q = q_new(rrset ? DNSTABLE_QUERY_TYPE_RRSET : DNSTABLE_QUERY_TYPE_RDATA_NAME);
	dnstable_query_set_data(q, "name");
	n1 = lo + abs_pick("length of the entry met", hi - lo + 1);
	anykey(K1, n1);
	K1[0] = K2[0] = rrset ? 0 : 2; K1[1] = K2[1] = 1; K1[2] = K2[2] = 'm';
	if (!rrset) {
		K1[n1 - 1] = abs_pick("rdata length too long", 2);
		K1[n1 - 2] = abs_pick("rdata length", n1);
	}
	for (o = 3; o < n1 && K1[o] < n1 - o; o += K1[o] + 1) { K1[o] = abs_split(K1[o], 0, n1 - o); if (K1[o] == 0) break; }
	n2 = 3;
	int l = 1 + abs_pick("label length", 2);
	K2[n2++] = l;
	for (int i = 0; i < l; i++) K2[n2++] = abs_fresh("letter", 0, 255);
	K2[n2++] = 0;
	size_t rdlen = n2 - 1;
	if (rrset) K2[n2++] = abs_fresh("rest", 0, 127);
	else { K2[n2++] = 2; K2[n2++] = 0; K2[n2++] = rdlen; K2[n2++] = 0; }
	int match = n1 > 3 && K1[3] != 0 && 4 + (size_t)K1[3] < n1 && K1[4 + K1[3]] == 0;
	if (!rrset) {
		rdlen = K1[n1 - 2] | (size_t)K1[n1 - 1] << 8;
		if (rdlen + 2 < n1) {
			uint32_t t;
			size_t l = varint_decode32_bounded(&K1[rdlen + 1], &K1[n1], &t);
			if (l > 0 && t == 2) { if (l > 1) abs_stop(); } else match = 0;
		} else match = 0;
		dnstable_query_set_rrtype(q, "NS");
		if (wdns_str_to_rrtype("NS") != 2) abs_stop();
	}
	if (!less(K1, n1, K2, n2)) abs_stop();
	start();
	int m = next();
	abs_check(m == (match ? 1 : 2), "an entry met is a result exactly if its name has one more label");
	if (match) abs_check(next() == 2, "the next entry of the result follows");
	abs_check(next() == 0, "no further results");
	abs_reach(match ? "matching name met" : "other name met");
	done();
}
void drv_rrset_label_short(void) { one_label(1, 3, 5); }
void drv_rrset_label_6(void) { one_label(1, 6, 6); }
void drv_rrset_label_7(void) { one_label(1, 7, 7); }
void drv_rrset_label_8(void) { one_label(1, 8, 8); }
void drv_rdata_label_short(void) { one_label(0, 3, 6); }
void drv_rdata_label_7(void) { one_label(0, 7, 7); }
void drv_rdata_label_8(void) { one_label(0, 8, 8); }
void drv_rdata_label_9(void) { one_label(0, 9, 9); }

/* the merge function, per key type, against its definition */
#include "dec_ref.h"
#include "dnstable-private.h"
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
static const uint8_t *key, *v0, *v1;
static size_t nk, n0, n1, nm;
static uint8_t *m;

static void setup(size_t klo, size_t khi) {
	nk = abs_range("len_key", klo, khi);
	key = abs_robuf("key", nk);
	n0 = abs_range("len_val0", 0, KMAX); v0 = abs_robuf("val0", n0);
	n1 = abs_range("len_val1", 0, KMAX); v1 = abs_robuf("val1", n1);
	m = NULL; nm = 77;
}
static void merge(void) {
	dnstable_merge_func(NULL, key, nk, v0, n0, v1, n1, &m, &nm);
}
static void merged(void) {
	abs_check(m != NULL, "a merge yields a value");
	abs_check(abs_alive(m) && abs_objsize(m) >= nm, "the merged value is as long as reported");
}
void drv_merge_triplet(void) {
	uint64_t a[3], b[3], c[3];
	setup(1, KMAX);
	abs_assume(key[0] == 0 || key[0] == 2);
	abs_assume(ref_triplet(v0, n0, a) && ref_triplet(v1, n1, b));
	merge();
	merged();
	abs_check(ref_triplet(m, nm, c), "the merged value is three varints and nothing else");
	abs_check(c[0] == MIN(a[0], b[0]), "the merged time_first is the earlier one");
	abs_check(c[1] == MAX(a[1], b[1]), "the merged time_last is the later one");
	abs_check(c[2] == a[2] + b[2], "the merged count is the sum");
	abs_reach("triplets merged");
	free(m);
}
void drv_merge_time_range(void) {
	uint64_t a[2], b[2], c[2];
	setup(1, 1);
	abs_assume(key[0] == 254);
	const uint8_t *p = v0, *q = v1;
	if (n0 > 0) abs_assume(ref_varint64(&p, v0 + n0, &a[0]) && ref_varint64(&p, v0 + n0, &a[1]) && p == v0 + n0);
	if (n1 > 0) abs_assume(ref_varint64(&q, v1 + n1, &b[0]) && ref_varint64(&q, v1 + n1, &b[1]) && q == v1 + n1);
	merge();
	merged();
	if (n0 == 0 || n1 == 0) {
		abs_check(nm == 0, "a time range merged with an unknown one is unknown");
		abs_reach("unknown range");
	} else {
		p = m;
		abs_check(ref_varint64(&p, m + nm, &c[0]) && ref_varint64(&p, m + nm, &c[1]) && p == m + nm, "a merged time range is two varints");
		abs_check(c[0] == MIN(a[0], b[0]) && c[1] == MAX(a[1], b[1]), "a merged time range covers both");
		abs_reach("ranges merged");
	}
	free(m);
}
void drv_merge_version(void) {
	uint32_t a = 0, b = 0, c;
	setup(2, 2);
	abs_assume(key[0] == 255);
	const uint8_t *p = v0, *q = v1;
	int known = key[1] <= 3;
	if (n0 > 0) abs_assume(ref_varint32(&p, v0 + n0, &a) && p == v0 + n0);
	if (n1 > 0) abs_assume(ref_varint32(&q, v1 + n1, &b) && q == v1 + n1);
	merge();
	merged();
	if (n0 == 0 || n1 == 0 || !known) {
		abs_check(nm == 0, "a version merged with an unknown one, or of an unknown type, is unknown");
		abs_reach("unknown version");
	} else {
		p = m;
		abs_check(ref_varint32(&p, m + nm, &c) && p == m + nm, "a merged version is one varint");
		abs_check(c == MIN(a, b), "the merged version is the lower one");
		abs_reach("versions merged");
	}
	free(m);
}
void drv_merge_other(void) {
	setup(0, KMAX);
	if (nk > 0) abs_assume(!(key[0] <= 3) && !(key[0] == 254 && nk == 1) && !(key[0] == 255 && nk == 2));
	merge();
	merged();
	abs_check(nm == 0, "entries which are not merged by content get an empty value");
	abs_reach("others merged");
	free(m);
}
#define BIT(x) (abs_pick("bit", 2) ? (x) : 0)
/* ---- unions of rrtype sets */
static int has(const uint8_t *u, size_t n, unsigned t) {
	if (n == 0) return 1;
	if (n == 1) return u[0] == t;
	if (n == 2) return (u[0] | u[1] << 8) == (int)t;
	size_t i = 0;
	while (i + 2 <= n) {
		unsigned w = u[i], l = u[i + 1];
		if (w == t / 256) return (t % 256) / 8 < l && (u[i + 2 + (t % 256) / 8] & (0x80 >> (t % 8))) != 0;
		i += 2 + l;
	}
	return 0;
}
static void wellformed(const uint8_t *u, size_t n) {
	if (n <= 2) return;
	size_t i = 0;
	int prev = -1;
	while (i < n) {
		abs_check(n - i >= 3, "a block has a header and a bitmap");
		int w = u[i], l = u[i + 1];
		abs_check(w > prev, "blocks are in increasing order");
		abs_check(l >= 1 && l <= 32 && (size_t)l <= n - i - 2, "a block has 1 to 32 bytes of bitmap");
		abs_check(u[i + 2 + l - 1] != 0, "a block has no trailing zero bytes");
		prev = w;
		i += 2 + l;
	}
}
static void unions(const uint8_t *a, size_t la, const uint8_t *b, size_t lb) {
	uint8_t k[4] = { abs_bool("rdata names") ? 3 : 1, 1, 'a', 0 };
	key = k; nk = 4; v0 = a; n0 = la; v1 = b; n1 = lb; m = NULL; nm = 77;
	merge();
	merged();
	if (la == 0 || lb == 0) {
		abs_check(nm == 0, "a union with an unknown set is unknown");
		abs_reach("unknown union");
	} else {
		abs_check(nm > 0, "the union of two sets of rrtypes is not empty");
		wellformed(m, nm);
		abs_reach("unions merged");
	}
}
static void probe(const uint8_t *a, size_t la, const uint8_t *b, size_t lb, unsigned t) {
	if (nm > 0) abs_check(!!has(m, nm, t) == (has(a, la, t) || has(b, lb, t)), "an rrtype is in the union exactly when it is in either set");
}
static const uint8_t *shape(const char *nm_, int s, size_t *n) {
	/* 0: empty; 1, 2: single; 3: one block; 4: two blocks */
	static uint8_t bufs[2][16];
	static int which;
	uint8_t *u = bufs[which++ & 1];
	switch (s) {
	case 0: *n = 0; break;
	case 1: { static const uint8_t t[] = { 0, 1, 6, 7, 8, 15, 16, 63, 64, 254, 255 }; u[0] = t[abs_pick("rrtype", 11)]; *n = 1; break; }
	case 2: { static const uint16_t t[] = { 1, 255, 256, 257, 0x1001, 65280, 65535, 32769 }; unsigned v = t[abs_pick("rrtype", 8)];
		u[0] = v; u[1] = v >> 8; *n = 2; break; }
	case 3: { static const uint8_t w[] = { 0, 1, 255 }; u[0] = w[abs_pick("window", 3)]; u[1] = 2;
		u[2] = (BIT(0x10) | BIT(1)); u[3] = BIT(0x40) | 1; *n = 4; break; }
	case 4: { static const uint8_t w[][2] = { { 0, 1 }, { 1, 2 }, { 0, 255 }, { 127, 128 } }; int x = abs_pick("windows", 4);
		u[0] = w[x][0]; u[1] = 1; u[2] = BIT(0x20) | 0x80;
		u[3] = w[x][1]; u[4] = 1; u[5] = BIT(2) | 4; *n = 6; break; }
	}
	return u;
}
static void shapes(int s, int t) {
	size_t la, lb;
	const uint8_t *a = shape("a", s, &la), *b = shape("b", t, &lb);
	unions(a, la, b, lb);
	/* every member of either set, and the neighbours of them */
	if (nm > 0) {
		for (int x = 0; x < 2; x++) {
			const uint8_t *u = x ? b : a;
			size_t n = x ? lb : la, i = 0;
			if (n == 1) { probe(a, la, b, lb, u[0]); probe(a, la, b, lb, (u[0] + 1) & 255); }
			else if (n == 2) probe(a, la, b, lb, u[0] | u[1] << 8);
			else while (i < n) {
				for (unsigned j = 0; j < 8u * u[i + 1]; j++)
					if (u[i + 2 + j / 8] & (0x80 >> (j % 8))) probe(a, la, b, lb, u[i] * 256u + j);
				i += 2 + u[i + 1];
			}
		}
		/* and nothing beyond them */
		if (nm > 2) {
			size_t i = 0;
			while (i < nm) {
				for (unsigned j = 0; j < 8u * m[i + 1]; j++)
					if (m[i + 2 + j / 8] & (0x80 >> (j % 8))) probe(a, la, b, lb, m[i] * 256u + j);
				i += 2 + m[i + 1];
			}
		}
	}
	free(m);
}
void uni_00(void) { shapes(0, 0); }
void uni_01(void) { shapes(abs_choice("order") ? 0 : 1, 1); }
void uni_03(void) { shapes(abs_choice("order") ? 0 : 3, 0); }
void uni_11(void) { shapes(1, 1); }
void uni_12(void) { shapes(1, 2); }
void uni_21(void) { shapes(2, 1); }
void uni_22(void) { shapes(2, 2); }
void uni_13(void) { shapes(1, 3); }
void uni_32(void) { shapes(3, 2); }
void uni_23(void) { shapes(2, 3); }
void uni_33(void) { shapes(3, 3); }
void uni_34(void) { shapes(3, 4); }
void uni_42(void) { shapes(4, 2); }
void uni_malformed(void) {
	/* a malformed set cannot be merged, and nothing is left behind */
	uint8_t a[4], b[3], k[3] = { 1, 0, 0 };
	a[0] = abs_u8("window"); a[1] = abs_u8("length"); a[2] = 1; a[3] = 1;
	b[0] = abs_u8("window2"); b[1] = 1; b[2] = 1;
	abs_assume(a[1] != 2);
	m = NULL; nm = 0;
	if (abs_bool("second")) dnstable_merge_func(NULL, k, 2, b, 3, a, 4, &m, &nm);
	else dnstable_merge_func(NULL, k, 2, a, 4, b, 3, &m, &nm);
	abs_check(m == NULL, "a malformed union fails the merge");
	abs_reach("malformed union");
}
/* ---- unions over many windows, and of many rrtypes */
static uint8_t ua[9000], ub[9000], uw[9000];
static size_t na_, nb_, nw_;
static void block(uint8_t *u, size_t *n, int w, const uint8_t bits[32]) {
	int l = 32;
	while (l > 0 && bits[l - 1] == 0) l--;
	if (l == 0) return;
	u[(*n)++] = w; u[(*n)++] = l;
	for (int i = 0; i < l; i++) u[(*n)++] = bits[i];
}
static void wide(int how) {
	for (int w = 0; w < 256; w++) {
		uint8_t a[32] = { 0 }, b[32] = { 0 }, c[32];
		switch (how) {
		case 0: if (w % 2 == 0) a[31] = 1; if (w % 3) b[0] = 0x40; break;
		case 1: a[31] = 1; if (w > 200) b[30] = 2; break;
		case 2: if (w == 0 || w == 128 || w == 255) { memset(a, 0xff, 32); memset(b, 0x0f, 20); } if (w == 1) b[0] = 1; if (w == 254) memset(b, 0xaa, 32); break;
		case 3: if (w < 12) a[w] = 1 << w % 8; if (w >= 250) b[w - 240] = 0x81; break;
		}
		for (int i = 0; i < 32; i++) c[i] = a[i] | b[i];
		block(ua, &na_, w, a); block(ub, &nb_, w, b); block(uw, &nw_, w, c);
	}
	int swapped = abs_pick("order", 2);
	uint8_t k[4] = { 1, 1, 'a', 0 };
	key = k; nk = 4; v0 = swapped ? ub : ua; n0 = swapped ? nb_ : na_; v1 = swapped ? ua : ub; n1 = swapped ? na_ : nb_; m = NULL; nm = 77;
	dnstable_merge_func(NULL, key, nk, v0, n0, v1, n1, &m, &nm);
	abs_check(m != NULL && nm == nw_, "the union of many rrtypes has every block it needs, and no other");
	int same = 1;
	for (size_t c = 0; c < nw_; c += 1000) for (size_t i = c; i < nw_ && i < c + 1000; i++) same &= m[i] == uw[i];
	abs_check(same, "the union of many rrtypes is the union");
	free(m);
	abs_noleak();
	abs_reach("many rrtypes");
}
void win_alternate(void) { wide(0); }
void win_every(void) { wide(1); }
void win_full(void) { wide(2); }
void win_ends(void) { wide(3); }

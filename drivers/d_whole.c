/* whole searches: two files of known keys and times, every kind of search, filter, limit and offset together, against the
 * definition of what matches, written out over the list of observations */
#define TMAX 40
#include "mini.h"
uint16_t wdns_str_to_rrtype(const char *s) { return s[0] == 'A' && s[1] == 0 ? 1 : s[0] == 'N' ? 2 : s[0] == 'M' ? 15 : s[0] == 'S' ? 6 : s[0] == 'T' ? 16 : 28; }
enum { O_B, O_AB, O_AC, O_XAB, O_AXB, O_AABB, O_ROOT, NNAMES };
static const struct { size_t n; uint8_t d[10]; } NM[NNAMES] = {
	{ 3, { 1, 'b', 0 } }, { 5, { 1, 'a', 1, 'b', 0 } }, { 5, { 1, 'a', 1, 'c', 0 } }, { 7, { 1, 'x', 1, 'a', 1, 'b', 0 } },
	{ 7, { 1, 'a', 1, 'x', 1, 'b', 0 } }, { 7, { 2, 'a', 'a', 2, 'b', 'b', 0 } }, { 1, { 0 } } };
/* the observations: RRsets, then rdata */
struct ob { int name, rr, other; };	/* RRset: owner, rrtype, bailiwick; rdata: name, rrtype, owner */
#define NRS 8
static const struct ob RS[NRS] = { { O_B, 1, O_ROOT }, { O_AB, 1, O_B }, { O_AB, 2, O_ROOT }, { O_AB, 2, O_B }, { O_AC, 2, O_ROOT }, { O_XAB, 1, O_B }, { O_AXB, 1, O_B }, { O_AABB, 1, O_B } };
#define NRD 9
static const struct ob RD[NRD] = { { O_B, 2, O_ROOT }, { O_AB, 2, O_B }, { O_AB, 15, O_B }, { O_AB, 6, O_B }, { O_AC, 2, O_B }, { O_XAB, 15, O_AB }, { O_AXB, 2, O_AB }, { O_AABB, 2, O_B }, { O_AB, 16, O_B } };
static uint8_t key[40][48]; static int nkey;
struct obs { const uint8_t *k; size_t nk; int type, name, rr, other, in; uint64_t f[2], l[2], c[2]; };
static struct obs X[12]; static int nx;
static void rev(struct kb *k, int n) { uint8_t r[12]; w_reverse(NM[n].d, NM[n].n, r); kb_bytes(k, r, NM[n].n); }
static void add(int type, const struct ob *o, int in, int i) {
	struct kb k = { .n = 0 };
	kb_add(&k, type);
	if (type == 0) { rev(&k, o->name); kb_add(&k, o->rr); rev(&k, o->other); kb_add(&k, 4); kb_bytes(&k, (const uint8_t *)"\1\2\3\4", 4); }
	else {
		size_t d = NM[o->name].n;
		kb_bytes(&k, NM[o->name].d, d);
		if (o->rr == 6) { kb_bytes(&k, (const uint8_t *)"\0\0\0\0\1\0\0\0\2\0\0\0\3\0\0\0\4\0\0\0\5", 21); d += 21; }
		kb_add(&k, o->rr);
		rev(&k, o->other);
		if (o->rr == 15) { kb_add(&k, 0); kb_add(&k, 10); }
		kb_add(&k, d); kb_add(&k, 0);
	}
	struct obs *x = &X[nx++];
	memcpy(key[nkey], k.b, k.n);
	*x = (struct obs){ .k = key[nkey++], .nk = k.n, .type = type, .name = o->name, .rr = o->rr, .other = o->other, .in = in };
	for (int j = 0; j < 2; j++) {
		/* the files overlap in time; neither order nor extent follows the keys */
		x->f[j] = 100 + (i * 5 + j * 3) % 7 * 10;
		x->l[j] = x->f[j] + (i + j) % 3 * 15;
		x->c[j] = 1 + i * 2 + j;
	}
}
static struct tbl *file[2];
static void index_of(struct tbl *t, int j, int rrset, int unions) {
	for (int n = 0; n < NNAMES; n++) {
		unsigned have = 0;
		for (int i = 0; i < nx; i++) if (X[i].name == n && (X[i].in >> j & 1) && X[i].rr != 16) have |= X[i].rr < 8 ? 0x80 >> X[i].rr : 0x80 >> (X[i].rr - 8) << 8;
		if (!have) continue;
		struct kb k = { .n = 0 };
		kb_add(&k, rrset ? 1 : 3);
		if (rrset) kb_bytes(&k, NM[n].d, NM[n].n);
		else rev(&k, n);
		memcpy(key[nkey], k.b, k.n);
		uint8_t *v = malloc(4); size_t nv = 0;
		if (unions) { v[0] = 0; v[1] = have >> 8 ? 2 : 1; v[2] = have & 255; v[3] = have >> 8; nv = 2 + v[1]; }
		t_put(t, key[nkey++], k.n, v, nv);
	}
}
static const uint8_t TR[] = { 254 };
static void files(int rrset, int ranges, int unions, unsigned pattern) {
	for (int i = 0; i < (rrset ? NRS : NRD - (NRD > NRS)); i++) add(rrset ? 0 : 2, rrset ? &RS[i] : &RD[i + (NRD > NRS)], 1 + (i + pattern) % 3, i);
	for (int j = 0; j < 2; j++) {
		struct tbl *t = file[j] = f_readers[j] = t_new();
		uint64_t lo = UINT64_MAX, hi = 0;
		for (int i = 0; i < nx; i++) if (X[i].in >> j & 1) {
			t_triplet(t, X[i].k, X[i].nk, X[i].f[j], X[i].l[j], X[i].c[j]);
			if (X[i].f[j] < lo) lo = X[i].f[j];
			if (X[i].l[j] > hi) hi = X[i].l[j];
		}
		index_of(t, j, rrset, unions);
		if (ranges) t_pair(t, TR, 1, lo, hi);
	}
	f_nreaders = 2;
}
enum { EXACT, LEFT, RIGHT };
struct search { int rrset, kind, plus, name, rr, bw; };
/* what the labels of a search ask for */
static int name_matches(const struct search *s, int n) {
	const uint8_t *p = NM[s->name].d, *d = NM[n].d;
	size_t lp = NM[s->name].n - 1, ld = NM[n].n - 1, o;
	if (s->kind == EXACT) return n == s->name;
	if (ld < lp) return 0;
	if (memcmp(s->kind == LEFT ? d + (ld - lp) : d, p, lp) != 0) return 0;
	/* at a label boundary */
	for (o = 0; o < ld && o < (s->kind == LEFT ? ld - lp : lp); o += d[o] + 1) ;
	if (o != (s->kind == LEFT ? ld - lp : lp)) return 0;
	if (!s->plus) return 1;
	size_t extra = ld - lp;
	return extra > 0 && d[s->kind == LEFT ? 0 : lp] + 1 == extra;
}
static int name_type(int rr) { return rr == 2 || rr == 6 || rr == 15; }
static int matches(const struct search *s, const struct obs *x) {
	if (!name_matches(s, x->name)) return 0;
	if (s->rr && s->rr != x->rr) return 0;
	if (!s->rrset && !s->rr && !name_type(x->rr)) return 0;
	if (s->bw >= 0 && x->other != s->bw) return 0;
	return 1;
}
static const dnstable_filter_parameter_type PAR[4] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
static unsigned lset; static uint64_t lim[4];
static int pass(uint64_t f, uint64_t l) { return !((lset & 1 && f > lim[0]) || (lset & 2 && f < lim[1]) || (lset & 4 && l > lim[2]) || (lset & 8 && l < lim[3])); }
struct want { uint64_t f, l, c; int rr; };
static struct want W[24]; static int nw;
static void expect(const struct obs *x, int aggregated) {
	if (aggregated) {
		uint64_t f, l, c;
		if (x->in == 3) { f = x->f[0] < x->f[1] ? x->f[0] : x->f[1]; l = x->l[0] > x->l[1] ? x->l[0] : x->l[1]; c = x->c[0] + x->c[1]; }
		else { int j = x->in - 1; f = x->f[j]; l = x->l[j]; c = x->c[j]; }
		if (pass(f, l)) W[nw++] = (struct want){ f, l, c, x->rr };
		return;
	}
	int first = x->in == 3 && (x->f[1] < x->f[0] || x->f[1] == x->f[0] && x->l[1] < x->l[0]);
	for (int k = 0; k < 2; k++) { int j = k ^ first; if (x->in >> j & 1 && pass(x->f[j], x->l[j])) W[nw++] = (struct want){ x->f[j], x->l[j], x->c[j], x->rr }; }
}
/* the order of results: that of the keys, or that of the index first */
static void order(const struct search *s) {
	for (int i = 1; i < nx; i++) {
		struct obs x = X[i];
		int j = i;
		while (j > 0) {
			int c = 0;
			if (s->kind == (s->rrset ? RIGHT : LEFT)) {
				uint8_t a[12], b[12];
				const uint8_t *pa = NM[X[j - 1].name].d, *pb = NM[x.name].d;
				if (!s->rrset) { w_reverse(pa, NM[X[j - 1].name].n, a); w_reverse(pb, NM[x.name].n, b); pa = a; pb = b; }
				c = t_cmp(pa, NM[X[j - 1].name].n, pb, NM[x.name].n);
			}
			if (c == 0) c = t_cmp(X[j - 1].k, X[j - 1].nk, x.k, x.nk);
			if (c <= 0) break;
			X[j] = X[j - 1];
			j--;
		}
		X[j] = x;
	}
}
static void set_name(const struct search *s, struct dnstable_query *q) {
	const uint8_t *d = NM[s->name].d; size_t n = NM[s->name].n, o = 0;
	if (s->kind == LEFT) { w_name[o++] = 1; w_name[o++] = s->plus ? '+' : '*'; }
	memcpy(w_name + o, d, n - 1); o += n - 1;
	if (s->kind == RIGHT) { w_name[o++] = 1; w_name[o++] = s->plus ? '+' : '*'; }
	w_name[o++] = 0;
	w_len = o;
	abs_check(dnstable_query_set_data(q, "name") == dnstable_res_success, "a name is accepted");
}
static const char *rr_name(int rr) { return rr == 1 ? "A" : rr == 2 ? "NS" : rr == 15 ? "MX" : rr == 6 ? "SOA" : rr == 16 ? "TXT" : "AAAA"; }
static unsigned mix;	/* what varies with the search rather than on its own */
static unsigned choose(const char *what, unsigned n) { unsigned v = abs_pick(what, n); mix = mix * 5 + v; return v; }
static int tick, timeouts; static int64_t now_ = 1000;
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = now_; t->tv_nsec = 5; if (tick) now_++; return 0; }
/* with little time for each call, it takes several to get anywhere; nothing is lost or repeated on the way */
static dnstable_res next(struct dnstable_query *q, struct dnstable_iter *it, struct dnstable_entry **e) {
	for (int i = 0; tick && i < 90; i++) {
		struct timespec t = { now_ + tick, 5 };
		if (mix % 2) dnstable_query_set_deadline(q, &t);
		dnstable_res r = dnstable_iter_next(it, e);
		if (r != dnstable_res_timeout) return r;
		timeouts++;
		abs_check(*e == NULL, "a timeout comes without a result");
	}
	if (tick) { abs_check(tick == 1, "a query gets ahead however often it is interrupted"); abs_stop(); }
	return dnstable_iter_next(it, e);
}
static void results(struct dnstable_query *q, struct mtbl_fileset *fs, int offset, uint64_t off, int repeat) {
	/* a deadline which never comes changes nothing */
	struct timespec far = { 2000, 0 };
	if (tick && mix % 2 == 0) { struct timespec t = { tick + 1, 0 }; dnstable_query_set_timeout(q, &t); }
	else if (tick) ;
	else if (mix % 3 == 1) dnstable_query_set_deadline(q, &far);
	else if (mix % 3 == 2) dnstable_query_set_timeout(q, &far);
	for (int run = 0; run <= repeat; run++) {
		struct dnstable_iter *it = dnstable_query_iter_fileset(q, fs);
		struct dnstable_entry *e = NULL;
		uint64_t v = 0; uint16_t rr;
		abs_check(it != NULL, "an iterator");
		for (int i = 0; i < nw; i++) {
			if (offset && (uint64_t)i < off) continue;
			abs_check(next(q, it, &e) == dnstable_res_success, "everything that matches is a result");
			abs_check(dnstable_entry_get_rrtype(e, &rr) == dnstable_res_success && rr == W[i].rr, "results are in order: rrtype");
			abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == W[i].f, "results are in order: first seen");
			abs_check(dnstable_entry_get_time_last(e, &v) == dnstable_res_success && v == W[i].l, "results are in order: last seen");
			abs_check(dnstable_entry_get_count(e, &v) == dnstable_res_success && v == W[i].c, "results are in order: count");
			dnstable_entry_destroy(&e);
			abs_reach("a result");
		}
		abs_check(next(q, it, &e) == dnstable_res_failure, "nothing else is a result");
		dnstable_iter_destroy(&it);
	}
	if (timeouts) abs_reach("continued after timeouts");
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("searched");
}
/* limits: which times are bounded; the bounds themselves are unknown */
static void search(const struct search *s, int aggregated, unsigned limits, int ranges, int offset, int repeat) {
	mini_init();
	files(s->rrset, ranges, mix & 1, mix % 3);
	struct mtbl_fileset fs;
	struct dnstable_query *q = q_new(s->rrset ? DNSTABLE_QUERY_TYPE_RRSET : DNSTABLE_QUERY_TYPE_RDATA_NAME);
	if (s->bw >= 0) { memcpy(w_name, NM[s->bw].d, NM[s->bw].n); w_len = NM[s->bw].n; dnstable_query_set_bailiwick(q, "bailiwick"); }
	set_name(s, q);
	if (s->rr) dnstable_query_set_rrtype(q, rr_name(s->rr));
	lset = limits;
	for (int p = 0; p < 4; p++) if (limits >> p & 1) {
		lim[p] = tick ? (p & 1 ? 110 : 150) : abs_fresh("limit", 0, UINT64_MAX);
		dnstable_query_set_filter_parameter(q, PAR[p], &lim[p], sizeof(lim[p]));
	}
	dnstable_query_set_aggregated(q, aggregated);
	uint64_t off = !offset ? 0 : tick ? 1 : abs_u64("offset");
	if (offset) dnstable_query_set_offset(q, off);
	order(s);
	nw = 0;
	for (int i = 0; i < nx; i++) if (matches(s, &X[i])) expect(&X[i], aggregated);
	results(q, &fs, offset, off, repeat);
}
static struct search any(int rrset, int kind, int few) {
	struct search s = { .rrset = rrset, .kind = kind, .bw = -1 };
	static const int R0[] = { 0, 2, 15, 6 }, R1[] = { 0, 2, 1, 28 }, B[] = { -1, O_B, O_ROOT };
	static const int N0[] = { O_AB, O_B }, NL[] = { O_B, O_ROOT, O_AB };
	s.name = kind == EXACT ? N0[choose("name", few ? 1 : 2)] : NL[choose("name", few ? 2 : 3)];
	if (kind == RIGHT && s.name == O_B) s.name = few ? O_AB : O_AABB;
	/* a wildcard alone is either; both read the entries in the order of their keys */
	if (s.name == O_ROOT && kind != EXACT) s.kind = rrset ? LEFT : RIGHT;
	s.plus = kind != EXACT && choose("single label", 2);
	s.rr = (rrset ? R1 : R0)[choose("rrtype", few ? 2 : 4)];
	if (rrset) s.bw = few ? (mix % 3 ? -1 : O_B) : B[choose("bailiwick", 3)];
	return s;
}
static void timed(int rrset, int kind, int aggregated, int t) { static const unsigned L[] = { 0, 9 }; tick = t; struct search s = any(rrset, kind, 1); search(&s, aggregated, L[mix % 2], 1, mix / 5 % 2, 0); }
#define SHAPE(name, rrset, kind) \
	void agg_##name(void) { struct search s = any(rrset, kind, 0); search(&s, 1, 0, 1, 0, 0); } \
	void una_##name(void) { struct search s = any(rrset, kind, 0); search(&s, 0, 0, 1, 0, 0); } \
	void off_##name(void) { struct search s = any(rrset, kind, 1); search(&s, choose("aggregated", 2), 0, 1, 1, mix % 2); } \
	void fen_##name##1(void) { static const unsigned L[] = { 1, 2, 4, 8, 5 }; struct search s = any(rrset, kind, 1); search(&s, 1, L[choose("limits", 5)], 1, 0, 0); } \
	void fen_##name##2(void) { static const unsigned L[] = { 9, 6, 10 }; struct search s = any(rrset, kind, 1); search(&s, 1, L[choose("limits", 3)], 1, 0, 0); } \
	void tim_##name##0(void) { timed(rrset, kind, 0, 1); } \
	void tim_##name##1(void) { timed(rrset, kind, 0, 2); } \
	void tim_##name##2(void) { timed(rrset, kind, 1, 1); } \
	void tim_##name##3(void) { timed(rrset, kind, 1, 2); } \
	void fun_##name(void) { static const unsigned L[] = { 1, 2, 4, 8 }; struct search s = any(rrset, kind, 1); search(&s, 0, L[choose("limits", 4)], 1, 0, 0); }
SHAPE(rrset, 1, EXACT) SHAPE(rrset_left, 1, LEFT) SHAPE(rrset_right, 1, RIGHT)
SHAPE(rdata, 0, EXACT) SHAPE(rdata_left, 0, LEFT) SHAPE(rdata_right, 0, RIGHT)

/* ---- addresses and raw data ---- */
struct ad { uint8_t n, d[16]; int rr, other; };
#define NAD 11
static const struct ad AD[NAD] = {
	{ 4, { 10, 0, 0, 1 }, 1, O_B }, { 4, { 10, 0, 0, 1 }, 1, O_AB }, { 4, { 10, 0, 0, 2 }, 1, O_B }, { 4, { 10, 0, 0, 255 }, 1, O_AC }, { 4, { 10, 0, 1, 0 }, 1, O_B },
	{ 16, { 10, 0, 0, 1, 1, 1, 'a', 0, 4, 0, 0, 0, 0, 0, 0, 1 }, 28, O_B }, { 16, { 10, 0, 0, 1, 28, 1, 'a', 0, 4, 0, 0, 0, 0, 0, 0, 2 }, 28, O_AB },
	{ 16, { 10, 0, 0, 1, 200, 1, 'a', 0, 4, 0, 0, 0, 0, 0, 0, 2 }, 28, O_AB }, { 4, { 10, 0, 0, 1 }, 16, O_B }, { 3, { 10, 0, 0 }, 16, O_B }, { 8, { 10, 0, 0, 2, 1, 1, 'z', 0 }, 16, O_B } };
int inet_pton(int af, const char *s, void *out) {
	const struct ad *a = &AD[s[0] - 'a'];
	if (af == 2 && a->n == 4) { memcpy(out, a->d, 4); return 1; }
	if (af == 10 && a->n == 16) { memcpy(out, a->d, 16); return 1; }
	return 0;
}
long strtol(const char *s, char **end, int base) { long v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; *end = (char *)s; return v; }
static void ad_add(const struct ad *a, int in, int i) {
	struct kb k = { .n = 0 };
	kb_add(&k, 2); kb_bytes(&k, a->d, a->n); kb_add(&k, a->rr); rev(&k, a->other); kb_add(&k, a->n); kb_add(&k, 0);
	struct obs *x = &X[nx++];
	memcpy(key[nkey], k.b, k.n);
	*x = (struct obs){ .k = key[nkey++], .nk = k.n, .type = 2, .name = i, .rr = a->rr, .other = a->other, .in = in };
	for (int j = 0; j < 2; j++) { x->f[j] = 100 + (i * 5 + j * 3) % 7 * 10; x->l[j] = x->f[j] + (i + j) % 3 * 15; x->c[j] = 1 + i * 2 + j; }
}
/* addresses from..to (indices of AD), or raw data (to < 0) */
struct asearch { const char *text; int from, to, raw, rr; };
static int ad_matches(const struct asearch *s, const struct obs *x) {
	const struct ad *f = &AD[s->from], *a = &AD[x->name];
	if (s->rr && x->rr != s->rr) return 0;
	if (s->raw) return x->nk - 1 >= f->n && memcmp(x->k + 1, f->d, f->n) == 0;
	const struct ad *t = &AD[s->to];
	if (a->rr != f->rr || a->n != f->n) return 0;
	return memcmp(a->d, f->d, f->n) >= 0 && memcmp(a->d, t->d, f->n) <= 0;
}
static void asearch(const struct asearch *s, int aggregated, unsigned limits, int offset, int repeat) {
	mini_init();
	for (int i = 0; i < NAD; i++) ad_add(&AD[i], 1 + (i + mix) % 3, i);
	for (int j = 0; j < 2; j++) {
		struct tbl *t = file[j] = f_readers[j] = t_new();
		uint64_t lo = UINT64_MAX, hi = 0;
		for (int i = 0; i < nx; i++) if (X[i].in >> j & 1) {
			t_triplet(t, X[i].k, X[i].nk, X[i].f[j], X[i].l[j], X[i].c[j]);
			if (X[i].f[j] < lo) lo = X[i].f[j];
			if (X[i].l[j] > hi) hi = X[i].l[j];
		}
		t_pair(t, TR, 1, lo, hi);
	}
	f_nreaders = 2;
	struct search none = { .kind = EXACT };
	struct mtbl_fileset fs;
	struct dnstable_query *q = q_new(s->raw ? DNSTABLE_QUERY_TYPE_RDATA_RAW : DNSTABLE_QUERY_TYPE_RDATA_IP);
	abs_check(dnstable_query_set_data(q, s->text) == dnstable_res_success, "addresses and raw data are accepted");
	if (s->rr) dnstable_query_set_rrtype(q, rr_name(s->rr));
	lset = limits;
	for (int p = 0; p < 4; p++) if (limits >> p & 1) {
		lim[p] = tick ? (p & 1 ? 110 : 150) : abs_fresh("limit", 0, UINT64_MAX);
		dnstable_query_set_filter_parameter(q, PAR[p], &lim[p], sizeof(lim[p]));
	}
	dnstable_query_set_aggregated(q, aggregated);
	uint64_t off = !offset ? 0 : tick ? 1 : abs_u64("offset");
	if (offset) dnstable_query_set_offset(q, off);
	order(&none);
	nw = 0;
	for (int i = 0; i < nx; i++) if (ad_matches(s, &X[i])) expect(&X[i], aggregated);
	results(q, &fs, offset, off, repeat);
}
static struct asearch any_address(int few) {
	static const struct asearch S[] = { { "a", 0, 0 }, { "a-c", 0, 2 }, { "c/24", 0, 3 }, { "e/15", 0, 4 }, { "f-h", 5, 7 }, { "g", 6, 6 }, { "h/32", 5, 7 }, { "c", 2, 2 },
		{ "0a0000", 9, -1, 1, 0 }, { "0a000001", 0, -1, 1, 0 }, { "0a000001", 0, -1, 1, 28 }, { "0a000002", 2, -1, 1, 16 } };
	return S[choose("search", few ? 7 : 12)];
}
void agg_address(void) { struct asearch s = any_address(0); asearch(&s, 1, 0, 0, 0); }
void una_address(void) { struct asearch s = any_address(0); asearch(&s, 0, 0, 0, 0); }
void off_address(void) { struct asearch s = any_address(0); asearch(&s, choose("aggregated", 2), 0, 1, 1); }
void fen_address(void) { static const unsigned L[] = { 1, 2, 4, 8, 9, 6 }; struct asearch s = any_address(1); asearch(&s, 1, L[choose("limits", 6)], 0, 0); }
static void atimed(int aggregated, int t) { tick = t; struct asearch s = any_address(0); asearch(&s, aggregated, 0, mix % 2, 0); }
void tim_address0(void) { atimed(0, 1); }
void tim_address1(void) { atimed(0, 2); }
void tim_address2(void) { atimed(1, 1); }
void tim_address3(void) { atimed(1, 2); }
void fun_address(void) { static const unsigned L[] = { 1, 2, 4, 8 }; struct asearch s = any_address(1); asearch(&s, 0, L[choose("limits", 4)], 0, 0); }

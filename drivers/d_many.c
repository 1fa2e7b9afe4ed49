/* searches with hundreds of entries to deliver, to reject, to pass over and to merge; entries with hundreds of rdata */
#define TMAX 460
#define TFAST 1
#include "mini.h"
uint16_t wdns_str_to_rrtype(const char *s) { return s[0] == 'N' ? 2 : s[0] == 'M' ? 15 : 1; }
static uint8_t mkey[TMAX][24];
struct item { int n, rr, bw, in; uint64_t f, l; };
static struct item it_[TMAX];
static int n_it, want[TMAX], nw;
static struct tbl *T;
static void put(struct tbl *t, struct kb *k, int rr, int bw) {
	int i = n_it++;
	memcpy(mkey[i], k->b, k->n);
	it_[i] = (struct item){ .n = i, .rr = rr, .bw = bw, .f = 1000 + i * 7 % 400, .l = 1000 + i * 7 % 400 + i % 50 };
	t_triplet(t, mkey[i], k->n, it_[i].f, it_[i].l, i + 1);
}
static void results(struct dnstable_query *q, struct dnstable_iter *it, uint64_t off) {
	struct dnstable_entry *e = NULL;
	uint64_t v, left = off;
	abs_check(it != NULL, "an iterator");
	for (int i = 0; i < nw; i++) {
		if (left > 0) { left--; continue; }
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every matching entry among many is a result, but as many as the offset");
		abs_check(dnstable_entry_get_count(e, &v) == dnstable_res_success && v == (uint64_t)want[i] + 1, "many results come in order, none twice");
		dnstable_entry_destroy(&e);
	}
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "nothing else is a result");
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "a search that ended stays ended");
	uint64_t passed = off < (uint64_t)nw ? off : (uint64_t)nw;
	bool ex = false;
	if (off) abs_check(dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &v) == dnstable_res_success && ex && v == passed, "the offset counts what it passed over");
}
static void counted(struct dnstable_iter *it, int stage, uint64_t n, const char *what) {
	bool ex = false; uint64_t v = 77;
	abs_check(dnstable_iter_get_count(it, stage, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &v) == dnstable_res_success && ex && v == n, what);
}
static void finish(struct dnstable_query *q, struct dnstable_iter *it) {
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("many");
}
static void name(const char *p, size_t n) { memcpy(w_name, p, n); w_len = n; }
/* 440 RRsets of one owner: two rrtypes, two bailiwicks */
static void rrsets(void) {
	mini_init();
	T = t_new();
	for (int rr = 1; rr <= 2; rr++) for (int bw = 0; bw < 2; bw++) for (int i = 0; i < 110; i++) {
		struct kb k = { .n = 0 };
		kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, 'b'); kb_add(&k, 0);
		kb_add(&k, rr);
		if (bw) { kb_add(&k, 1); kb_add(&k, 'b'); }
		kb_add(&k, 0);
		kb_add(&k, 2); kb_add(&k, i / 100); kb_add(&k, i % 100);
		put(T, &k, rr, bw);
	}
}
static void rrset_search(int filters, uint64_t off) {
	rrsets();
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	uint64_t after = 1120, before = 1300, before_l = 1290;
	name("\1b", 3);
	dnstable_query_set_data(q, "name");
	if (filters & 1) dnstable_query_set_rrtype(q, "NS");
	if (filters & 2) dnstable_query_set_bailiwick(q, "name");
	if (filters & 4) {
		dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &after, 8);
		dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &before, 8);
	}
	if (filters & 8) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, &before_l, 8);
	dnstable_query_set_offset(q, off);
	int total = 0, late = 0;
	for (int i = 0; i < n_it; i++) {
		struct item *x = &it_[i];
		if (filters & 1 && x->rr != 2 || filters & 2 && x->bw != 1) continue;
		total++;
		if (filters & 4 && (x->f < after || x->f > before) || filters & 8 && x->l > before_l) { late++; continue; }
		want[nw++] = i;
	}
	struct dnstable_iter *it = dnstable_query_iter(q, T->src);
	results(q, it, off);
	if ((filters & 3) == 2) counted(it, DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, 220, "every entry of another bailiwick is counted");
	if (filters & 12) {
		uint64_t v = 0, u = 0; bool ex = false;
		dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &v);
		dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &u);
		abs_check(v + (ex ? u : 0) == (uint64_t)late, "every entry outside the limits is counted");
	}
	finish(q, it);
}
void off_255(void) { rrset_search(0, 255); }
void off_256(void) { rrset_search(0, 256 + abs_pick("more", 2)); }
void off_300(void) { rrset_search(0, 300 + abs_pick("more", 2) * 100); }
void off_439(void) { rrset_search(0, 438 + abs_pick("more", 4)); }
void off_far(void) { static const uint64_t O[] = { 1000, 65536, 65537, 1UL << 31, 1UL << 32, (1UL << 32) + 3, 1UL << 63, UINT64_MAX }; rrset_search(3, O[abs_pick("offset", 8)]); }
void off_limits(void) { rrset_search(4 | abs_pick("filters", 2), 70); }
void fil_0(void) { rrset_search(0, 0); }
void fil_1(void) { rrset_search(1, 0); }
void fil_2(void) { rrset_search(2, 0); }
void fil_4(void) { rrset_search(4, 0); }
void fil_8(void) { rrset_search(8, 0); }
void fil_15(void) { rrset_search(15, 0); }
/* names below one: 100 of one label, each with entries of one and of two more labels */
static void names(int rdata) {
	mini_init();
	T = t_new();
	for (int i = 0; i < 60; i++) for (int j = 0; j < 7; j++) {
		struct kb k = { .n = 0 };
		kb_add(&k, rdata ? 2 : 0); kb_add(&k, 1); kb_add(&k, 'b');
		kb_add(&k, 2); kb_add(&k, i * 4 + 15); kb_add(&k, i == 59 ? 255 : i * 4);
		if (j > 1) { kb_add(&k, 1); kb_add(&k, 'a' + j); }
		kb_add(&k, 0);
		kb_add(&k, j == 1 ? 15 : 2);
		if (rdata) { size_t n = k.n - 2; kb_add(&k, 0); if (j == 1) { kb_add(&k, 0); kb_add(&k, 9); } kb_add(&k, n); kb_add(&k, 0); }
		else { kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, 7); }
		put(T, &k, j == 1 ? 15 : 2, j > 1);
	}
}
static void name_search(int rdata, int plus, int rr, uint64_t off) {
	names(rdata);
	struct dnstable_query *q = q_new(rdata ? DNSTABLE_QUERY_TYPE_RDATA_NAME : DNSTABLE_QUERY_TYPE_RRSET);
	if (rdata) name(plus ? "\1b\1+" : "\1b\1*", 5);
	else name(plus ? "\1+\1b" : "\1*\1b", 5);
	abs_check(dnstable_query_set_data(q, "name") == dnstable_res_success, "a wildcard is accepted");
	if (rr) dnstable_query_set_rrtype(q, rr == 15 ? "MX" : "NS");
	dnstable_query_set_offset(q, off);
	for (int i = 0; i < n_it; i++) if (!(plus && it_[i].bw) && !(rr && it_[i].rr != rr)) want[nw++] = i;
	struct dnstable_iter *it;
	it = dnstable_query_iter(q, T->src);
	results(q, it, off);
	finish(q, it);
}
void lab_rrset_all(void) { name_search(0, 0, 0, 0); }
void lab_rrset_one(void) { name_search(0, 1, 0, 0); }
void lab_rrset_one_rr(void) { name_search(0, 1, 15, 40); }
void lab_rdata_one(void) { name_search(1, 1, 0, 0); }
void lab_rdata_one_rr(void) { name_search(1, 1, 15, abs_pick("offset", 2) * 30); }
/* names which an index of 100 names leads to, some of them dead ends or of another rrtype */
void idx_rrset(void) {
	int rr = abs_pick("rrtype", 2), n = 100;
	uint64_t off = abs_pick("offset", 2) * 60;
	static uint8_t ik[100][12];
	mini_init();
	T = t_new();
	for (int i = 0; i < n; i++) for (int j = 0; j < i % 3; j++) {
		struct kb k = { .n = 0 };
		kb_bytes(&k, (const uint8_t *)"\0\2", 2); kb_add(&k, 'A' + i / 26); kb_add(&k, 'a' + i % 26); kb_bytes(&k, (const uint8_t *)"\1b\0", 3);
		kb_add(&k, 1 + j); kb_bytes(&k, (const uint8_t *)"\0\1\7", 3);
		put(T, &k, 1 + j, 0);
		if (!rr || j == 0) want[nw++] = n_it - 1;
	}
	for (int i = 0; i < n; i++) {
		struct kb k = { .n = 0 };
		kb_bytes(&k, (const uint8_t *)"\1\1b\2", 4); kb_add(&k, 'A' + i / 26); kb_add(&k, 'a' + i % 26); kb_add(&k, 0);
		memcpy(ik[i], k.b, k.n);
		uint8_t *v = malloc(1);
		v[0] = 1;
		t_put(T, ik[i], k.n, v, i % 3 == 1);
	}
	/* reversed owners of the entries: label first */
	for (int i = 0; i < n_it; i++) {
		uint8_t a = mkey[i][2], b = mkey[i][3];
		memcpy(mkey[i] + 1, "\2..\1b\0", 6);
		mkey[i][2] = a; mkey[i][3] = b;
	}
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	name("\1b\1*", 5);
	abs_check(dnstable_query_set_data(q, "name") == dnstable_res_success, "a wildcard is accepted");
	if (rr) dnstable_query_set_rrtype(q, "A");
	dnstable_query_set_offset(q, off);
	struct dnstable_iter *it = dnstable_query_iter(q, T->src);
	results(q, it, off);
	finish(q, it);
}
/* many addresses, among other data */
int inet_pton(int af, const char *s, void *out) {
	static const uint8_t A[4][4] = { { 10, 0, 0, 7 }, { 10, 0, 1, 30 }, { 10, 0, 0, 0 }, { 10, 0, 2, 0 } };
	if (af != 2) return 0;
	memcpy(out, A[s[0] - 'a'], 4);
	return 1;
}
long strtol(const char *s, char **end, int base) { long v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0'; *end = (char *)s; return v; }
static void addresses(const char *text, int lo, int hi, int rr) {
	mini_init();
	T = t_new();
	for (int i = 0; i < 140; i++) for (int j = 0; j < 3; j++) {
		struct kb k = { .n = 0 };
		int a = i * 4;
		kb_bytes(&k, (const uint8_t *)"\2\12\0", 3); kb_add(&k, a >> 8); kb_add(&k, a);
		if (j == 1) kb_add(&k, 1);		/* five bytes, of another rrtype */
		kb_add(&k, j ? 16 : 1);
		kb_bytes(&k, (const uint8_t *)"\1b\0", 3); kb_add(&k, j == 1 ? 5 : 4); kb_add(&k, 0);
		put(T, &k, j ? 16 : 1, j == 1);
	}
	/* in the order of the keys */
	for (int i = 0; i < T->n; i++) {
		int n = 0, a;
		for (n = 0; mkey[n] != T->e[i].k; n++) ;
		a = mkey[n][3] << 8 | mkey[n][4];
		if (a >= lo && a <= hi && it_[n].rr == 1 && !it_[n].bw) want[nw++] = n;
	}
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RDATA_IP);
	abs_check(dnstable_query_set_data(q, text) == dnstable_res_success, "addresses are accepted");
	struct dnstable_iter *it = dnstable_query_iter(q, T->src);
	results(q, it, 0);
	finish(q, it);
}
void ips_range(void) { addresses("a-b", 7, 256 + 30, 1); }
void ips_prefix(void) { addresses("c/24", 0, 255, 1); }
void ips_wide(void) { addresses("c-d", 0, 512, 1); }
/* many files with many entries in common */
static void three(int aggregated, int limits) {
	static struct tbl *f[3];
	static uint64_t lf[60], ll[60], lc[60];
	uint64_t after = 1010;
	struct { uint64_t f, l, c; } W[200];
	mini_init();
	for (int j = 0; j < 3; j++) f[j] = f_readers[j] = t_new();
	f_nreaders = 3;
	for (int i = 0; i < 45; i++) {
		struct kb k = { .n = 0 };
		kb_bytes(&k, (const uint8_t *)"\0\1b\0\1\0\2", 7); kb_add(&k, i / 10); kb_add(&k, i % 10);
		memcpy(mkey[i], k.b, k.n);
		lf[i] = UINT64_MAX; ll[i] = lc[i] = 0;
		int at = nw;
		for (int j = 0; j < 3; j++) if ((i + j) % 4 != 3) {
			uint64_t a = 1000 + (i * 5 + j * 11) % 23, b = a + (i + j) % 9;
			t_triplet(f[j], mkey[i], k.n, a, b, i * 3 + j + 1);
			if (a < lf[i]) lf[i] = a;
			if (b > ll[i]) ll[i] = b;
			lc[i] += i * 3 + j + 1;
			if (!aggregated && (!limits || a >= after)) {
				int p = nw++;
				while (p > at && (W[p - 1].f > a || W[p - 1].f == a && W[p - 1].l > b)) { W[p] = W[p - 1]; p--; }
				W[p].f = a; W[p].l = b; W[p].c = i * 3 + j + 1;
			}
		}
		if (aggregated && lc[i] && (!limits || lf[i] >= after)) { W[nw].f = lf[i]; W[nw].l = ll[i]; W[nw].c = lc[i]; nw++; }
	}
	struct mtbl_fileset fs;
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	name("\1b", 3);
	dnstable_query_set_data(q, "name");
	dnstable_query_set_aggregated(q, aggregated);
	if (limits) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &after, 8);
	struct dnstable_iter *it = dnstable_query_iter_fileset(q, &fs);
	struct dnstable_entry *e = NULL;
	uint64_t v;
	for (int i = 0; i < nw; i++) {
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every observation of many files is a result");
		abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == W[i].f, "many files: first seen");
		abs_check(dnstable_entry_get_time_last(e, &v) == dnstable_res_success && v == W[i].l, "many files: last seen");
		abs_check(dnstable_entry_get_count(e, &v) == dnstable_res_success && v == W[i].c, "many files: count");
		dnstable_entry_destroy(&e);
	}
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "nothing else is a result");
	finish(q, it);
}
void fls_merged(void) { three(1, 0); }
void fls_merged_limits(void) { three(1, 1); }
void fls_apart(void) { three(0, 0); }
void fls_apart_limits(void) { three(0, 1); }
/* entries with many rdata */
void rda_many(void) {
	static const int N[] = { 3, 4, 5, 8, 9, 63, 64, 65, 130, 257, 600 };
	int n = N[abs_pick("number of rdata", 11)], cut = abs_pick("cut short", 3), i;
	uint8_t *k = malloc(6 + n * 4), v[4] = { 10, 12, 3 };
	size_t nk = 0, len;
	const uint8_t *d;
	memcpy(k, "\0\1b\0\1\0", 6);
	nk = 6;
	for (i = 0; i < n; i++) { k[nk++] = i % 4; for (int j = 0; j < i % 4; j++) k[nk++] = i * 5 + j; }
	/* with one byte less, the last rdata is incomplete; without its length it is no rdata */
	if (cut && (n - 1) % 4 == 0) { free(k); abs_stop(); }
	if (cut == 1) nk--;
	if (cut == 2) nk -= (n - 1) % 4 + 1;
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, 3);
	free(k);
	abs_check((e != NULL) == (cut != 1), "an RRset decodes exactly if every rdata is complete");
	if (cut == 2) n--;
	if (e) {
		abs_check(dnstable_entry_get_num_rdata(e, &len) == dnstable_res_success && len == (size_t)n, "every rdata is counted");
		for (i = 0; i < n; i++) {
			abs_check(dnstable_entry_get_rdata(e, i, &d, &len) == dnstable_res_success && len == (size_t)i % 4, "each of many rdata has its length");
			for (int j = 0; j < i % 4; j++) abs_check(d[j] == (uint8_t)(i * 5 + j), "each of many rdata has its bytes");
		}
		abs_check(dnstable_entry_get_rdata(e, n, &d, &len) == dnstable_res_failure, "there is no rdata after the last");
	}
	dnstable_entry_destroy(&e);
	abs_noleak();
	abs_reach("many rdata");
}

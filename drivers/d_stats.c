/* the offset of a query, and the operational counters of its stages */
#define TMAX 12
#include "mini.h"
struct dnstable_entry { uint8_t k[40]; size_t n; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t m) {
	struct dnstable_entry *e = malloc(sizeof(*e));
	memcpy(e->k, k, n);
	e->n = n;
	return e;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { free(*e); *e = NULL; }
uint16_t wdns_str_to_rrtype(const char *s) { return 1; }
bool rrtype_test(dnstable_entry_type t, uint16_t rr, const uint8_t *m, size_t n) { return true; }
/* values are a time each: enough to pass a time filter or not */
dnstable_res triplet_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l, uint64_t *c) {
	*f = v[0]; *l = v[0]; *c = 1;
	return dnstable_res_success;
}
#define NE 2
static uint8_t mk[NE + 1][16]; static size_t mn[NE + 1];
static uint64_t counter(struct dnstable_iter *it, int stage, int cat, int want, const char *what) {
	bool ex = abs_bool("stale"); uint64_t u = 77;
	dnstable_res r = dnstable_iter_get_count(it, stage, cat, &ex, &u);
	abs_check(ex == want, "a counter exists exactly if its stage is part of the query and keeps it");
	if (!want) return 0;
	abs_check(r == dnstable_res_success, "a counter which exists can be read");
	uint64_t w = 77;
	abs_check(dnstable_iter_get_count(it, stage, cat, NULL, &w) == dnstable_res_success && w == u, "whether it exists need not be asked for");
	return u;
}
static void stats(int rr, int bw, int tm) {
	int kind[NE], i, plus = abs_pick("single label", 2);
	uint64_t off = abs_pick("offset", 3);
	mini_init();
	struct tbl *t = t_new();
	for (i = 0; i < NE; i++) {
		struct kb k = { .n = 0 };
		kind[i] = abs_pick("what fails", 4);
		kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, 'a' + i); kb_add(&k, 0);
		kb_add(&k, kind[i] == 1 ? 2 : 1);
		if (kind[i] == 2) { kb_add(&k, 1); kb_add(&k, 'z'); }
		kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, 9);
		memcpy(mk[i], k.b, k.n); mn[i] = k.n;
		uint8_t *v = malloc(1);
		v[0] = kind[i] == 3 ? 5 : 15;
		t_put(t, mk[i], mn[i], v, 1);
	}
	/* one of two labels */
	static const uint8_t TWO[] = { 0, 1, 'm', 1, 'm', 0, 1, 0, 1, 9 };
	uint8_t *v = malloc(1);
	v[0] = 15;
	t_put(t, TWO, sizeof(TWO), v, 1);
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	w_name[0] = 1; w_name[1] = plus ? '+' : '*'; w_name[2] = 0; w_len = 3;
	dnstable_query_set_data(q, "name");
	if (rr) dnstable_query_set_rrtype(q, "A");
	if (bw) { w_name[0] = 0; w_len = 1; dnstable_query_set_bailiwick(q, "."); }
	uint64_t after = 10;
	if (tm) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &after, 8);
	dnstable_query_set_offset(q, off);
	/* a second search with the same query finds the same */
	for (int run = 0; run < 2; run++) {
		struct dnstable_iter *it = dnstable_query_iter(q, t->src);
		struct dnstable_entry *e = NULL;
		uint64_t nrr = 0, nbw = 0, ntm = 0, npass = 0, skip = off;
		int res = 0, s0 = t_seek_calls, n0 = t_next_calls;
		abs_check(it != NULL, "an iterator");
		for (i = 0; i <= NE; i++) {
			const uint8_t *key = i < NE ? mk[i] : TWO; size_t nk = i < NE ? mn[i] : sizeof(TWO);
			if (i == NE && plus) continue;
			if (i < NE && rr && kind[i] == 1) { nrr++; continue; }
			if (i < NE && bw && kind[i] == 2) { nbw++; continue; }
			if (i < NE && tm && kind[i] == 3) { ntm++; continue; }
			npass++;
			if (skip) { skip--; continue; }
			abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every result but the first ones up to the offset is delivered");
			abs_check(e->n == nk && memcmp(e->k, key, nk) == 0, "results are delivered in order");
			dnstable_entry_destroy(&e);
			res++;
			abs_reach("result");
		}
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "no other result is delivered");
		int fetched = t_next_calls - n0 - 1;
		uint64_t nsl = counter(it, DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_CATEGORY_FILTERED, plus, 0);
		uint64_t u = counter(it, DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_CATEGORY_SEEK, plus, 0);
		abs_check(u == (uint64_t)(t_seek_calls - s0), "every seek is counted");
		abs_check(nsl == (uint64_t)fetched - nrr - nbw - ntm - npass, "every entry passed over by the label filter is counted");
		u = counter(it, DNSTABLE_STAT_STAGE_FILTER_RRTYPE, DNSTABLE_STAT_CATEGORY_FILTERED, rr, 0);
		abs_check(!rr || u == nrr, "every entry passed over for its rrtype is counted");
		counter(it, DNSTABLE_STAT_STAGE_FILTER_RRTYPE, DNSTABLE_STAT_CATEGORY_SEEK, rr, 0);
		u = counter(it, DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_CATEGORY_FILTERED, bw, 0);
		abs_check(!bw || u == nbw, "every entry passed over for its bailiwick is counted");
		u = counter(it, DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_FILTERED, tm, 0);
		uint64_t u2 = counter(it, DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_FILTERED, tm, 0);
		abs_check(!tm || u + u2 == ntm, "every entry passed over for its times is counted");
		u = counter(it, DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_FILTERED, off > 0, 0);
		abs_check(off == 0 || u == (npass < off ? npass : off), "every result passed over for the offset is counted");
		u = counter(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_MERGED, 1, 0);
		abs_check(u == 0, "nothing is merged");
		if (run == 0) {
			static const struct { int s, c; } NO[] = {
				{ DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILTERED }, { DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_SEEK },
				{ DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_CATEGORY_MERGED }, { DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_CATEGORY_FILES },
				{ DNSTABLE_STAT_STAGE_FILTER_RRTYPE, DNSTABLE_STAT_CATEGORY_MERGED }, { DNSTABLE_STAT_STAGE_FILTER_RRTYPE, DNSTABLE_STAT_CATEGORY_FILES },
				{ DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_CATEGORY_MERGED }, { DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_CATEGORY_SEEK },
				{ DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_SEEK }, { DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_FILES },
				{ DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILTERED }, { DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_SEEK },
				{ DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILES }, { DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_MERGED },
				{ DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILES }, { DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_MERGED },
				{ DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_SEEK } };
			for (i = 0; i < (int)(sizeof(NO) / sizeof(NO[0])); i++) counter(it, NO[i].s, NO[i].c, 0, 0);
			bool ex; uint64_t c;
			uint32_t stage = abs_fresh("no such stage", DNSTABLE_STAT_STAGE_FILTER_OFFSET + 1, UINT32_MAX);
			abs_check(dnstable_iter_get_count(it, stage, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &c) == dnstable_res_failure, "an unknown stage has no counters");
			uint32_t cat = abs_fresh("no such category", DNSTABLE_STAT_CATEGORY_FILES + 1, UINT32_MAX);
			abs_check(dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILESET, cat, &ex, &c) == dnstable_res_failure && !ex, "an unknown category has no counter");
			if (rr) abs_check(dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILTER_RRTYPE, cat, &ex, &c) == dnstable_res_failure && !ex, "an unknown category has no counter");
			if (bw) abs_check(dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, cat, &ex, &c) == dnstable_res_failure && !ex, "an unknown category has no counter");
			abs_check(dnstable_iter_get_count(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex, NULL) == dnstable_res_failure, "a counter needs somewhere to go");
			abs_check(dnstable_iter_get_count(NULL, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, &ex, &c) == dnstable_res_failure, "no iterator, no counters");
		}
		dnstable_iter_destroy(&it);
	}
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("counted");
}
void drv_none(void) { stats(0, 0, 0); }
void drv_rrtype(void) { stats(1, 0, 0); }
void drv_bailiwick(void) { stats(0, 1, 0); }
void drv_times(void) { stats(0, 0, 1); }
void drv_rrtype_bailiwick(void) { stats(1, 1, 0); }
void drv_all(void) { stats(1, 1, 1); }

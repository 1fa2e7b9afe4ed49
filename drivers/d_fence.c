/* time fences over a fileset of two files, one RRset in either or both: which results a query yields */
#include "mini.h"
static const uint8_t KEY[] = { 0, 0, 1, 0, 1, 7 }, TR[] = { 254 };
static struct { int has, known; uint64_t f, l, c, lo, hi; } R[2];
static uint64_t fb, fa, lb, la; static int dfb, dfa, dlb, dla;
static int pass(uint64_t f, uint64_t l) {
	if (dfb && f > fb) return 0;
	if (dfa && f < fa) return 0;
	if (dlb && l > lb) return 0;
	if (dla && l < la) return 0;
	return 1;
}
static struct dnstable_query *fence_query(int flags) {
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	w_name[0] = 0; w_len = 1;
	dnstable_query_set_data(q, "name");
	dfb = flags & 1; dfa = flags >> 1 & 1; dlb = flags >> 2 & 1; dla = flags >> 3 & 1;
	if (dfb) { fb = abs_u64("first before"); dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &fb, sizeof(fb)); }
	if (dfa) { fa = abs_u64("first after"); dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &fa, sizeof(fa)); }
	if (dlb) { lb = abs_u64("last before"); dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, &lb, sizeof(lb)); }
	if (dla) { la = abs_u64("last after"); dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, sizeof(la)); }
	return q;
}
static void readers(void) {
	for (int i = 0; i < 2; i++) {
		struct tbl *t = t_new();
		f_readers[i] = t;
		f_nreaders++;
		R[i].has = abs_pick("key in file", 2);
		R[i].known = abs_pick("file has a time range", 2);
		if (R[i].has) {
			R[i].f = abs_fresh("time_first", 1, UINT64_MAX); R[i].l = abs_fresh("time_last", 0, UINT64_MAX); R[i].c = abs_fresh("count", 1, 1UL << 60);
			abs_assume(R[i].f <= R[i].l);
			t_triplet(t, KEY, sizeof(KEY), R[i].f, R[i].l, R[i].c);
		}
		if (R[i].known) {
			R[i].lo = abs_fresh("min time_first", 0, UINT64_MAX); R[i].hi = abs_fresh("max time_last", 0, UINT64_MAX);
			abs_assume(R[i].lo <= R[i].hi);
			if (R[i].has) abs_assume(R[i].lo <= R[i].f && R[i].l <= R[i].hi);
			t_pair(t, TR, sizeof(TR), R[i].lo, R[i].hi);
		}
	}
}
static void is_entry(struct dnstable_entry *e, uint64_t f, uint64_t l, uint64_t c) {
	uint64_t v = 0;
	abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == f, "the result has the right time_first");
	abs_check(dnstable_entry_get_time_last(e, &v) == dnstable_res_success && v == l, "the result has the right time_last");
	abs_check(dnstable_entry_get_count(e, &v) == dnstable_res_success && v == c, "the result has the right count");
}
static struct dnstable_query *q;
static struct mtbl_fileset fs;
static struct dnstable_iter *it;
static void finish(void) {
	struct dnstable_entry *e = NULL;
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "no further results");
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
}
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#define MAX(a, b) ((a) > (b) ? (a) : (b))
static void aggregated(int flags) {
	struct dnstable_entry *e = NULL;
	mini_init();
	readers();
	q = fence_query(flags);
	it = dnstable_query_iter_fileset(q, &fs);
	abs_check(it != NULL, "an iterator");
	uint64_t f, l, c; int has = R[0].has || R[1].has;
	if (R[0].has && R[1].has) { f = MIN(R[0].f, R[1].f); l = MAX(R[0].l, R[1].l); c = R[0].c + R[1].c; }
	else { int i = R[0].has ? 0 : 1; f = R[i].f; l = R[i].l; c = R[i].c; }
	int want = has && pass(f, l);
	dnstable_res r = dnstable_iter_next(it, &e);
	abs_check(r == (want ? dnstable_res_success : dnstable_res_failure), "an aggregated result is produced if its merged times pass the fence");
	if (r == dnstable_res_success) {
		is_entry(e, f, l, c);
		dnstable_entry_destroy(&e);
		abs_reach("result");
		finish();
	} else {
		abs_reach("no result");
		dnstable_iter_destroy(&it);
		dnstable_query_destroy(&q);
		mini_done();
		abs_noleak();
	}
}
#define AGG(n) void drv_aggregated_##n(void) { aggregated(n); }
AGG(0) AGG(1) AGG(2) AGG(3) AGG(4) AGG(5) AGG(6) AGG(7) AGG(8) AGG(9) AGG(10) AGG(11) AGG(12) AGG(13) AGG(14) AGG(15)
static int before(int i, int j) { return R[i].f < R[j].f || R[i].f == R[j].f && R[i].l < R[j].l; }
static void unaggregated(int flags) {
	struct dnstable_entry *e = NULL;
	mini_init();
	readers();
	q = fence_query(flags);
	dnstable_query_set_aggregated(q, false);
	it = dnstable_query_iter_fileset(q, &fs);
	abs_check(it != NULL, "an iterator");
	int in0 = R[0].has && pass(R[0].f, R[0].l), in1 = R[1].has && pass(R[1].f, R[1].l);
	int order[2], n = 0, i;
	if (in0 && in1) { order[0] = before(1, 0); order[1] = !order[0]; n = 2; }
	else if (in0) { order[0] = 0; n = 1; }
	else if (in1) { order[0] = 1; n = 1; }
	for (i = 0; i < n; i++) {
		struct dnstable_entry *e = NULL;
		int j = order[i];
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every observation within the fence is a result");
		/* equal times: either order will do */
		if (n == 2 && !before(0, 1) && !before(1, 0)) { abs_reach("tie"); abs_stop(); }
		is_entry(e, R[j].f, R[j].l, R[j].c);
		dnstable_entry_destroy(&e);
	}
	abs_reach(n == 2 ? "two results" : n == 1 ? "one result" : "no observation");
	finish();
}
#define UNA(n) void drv_unaggregated_##n(void) { unaggregated(n); }
UNA(0) UNA(1) UNA(2) UNA(3) UNA(4) UNA(5) UNA(6) UNA(7) UNA(8) UNA(9) UNA(10) UNA(11) UNA(12) UNA(13) UNA(14) UNA(15)

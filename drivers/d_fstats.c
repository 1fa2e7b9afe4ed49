/* the counters of file sets: files used, put aside and removed, and merges */
#include "mini.h"
static const uint8_t KEY[] = { 0, 0, 1, 0, 1, 7 }, K2[] = { 0, 0, 2, 0, 1, 7 }, TR[] = { 254 };
static int has[2], known[2], far[2], ways;
static uint64_t counter(struct dnstable_iter *it, int stage, int cat, int want) {
	bool ex = abs_bool("stale"); uint64_t u = 77;
	dnstable_res r = dnstable_iter_get_count(it, stage, cat, &ex, &u);
	abs_check(ex == want, "a counter exists exactly if its stage is part of the query and keeps it");
	if (!want) return 0;
	abs_check(r == dnstable_res_success, "a counter which exists can be read");
	return u;
}
static void stats(int aggregated, int strict, int loose) {
	int i, fence = strict || loose;
	struct mtbl_fileset fs;
	mini_init();
	for (i = 0; i < 2; i++) {
		struct tbl *t = t_new();
		f_readers[f_nreaders++] = t;
		has[i] = abs_pick("keys in file", 3); known[i] = abs_pick("file has a time range", 2); far[i] = abs_pick("before the fence", 2);
		uint64_t when = far[i] ? 10 : 1000;
		if (has[i]) t_triplet(t, KEY, sizeof(KEY), when, when, 1);
		if (has[i] == 2) t_triplet(t, K2, sizeof(K2), when, when, 1);
		if (known[i]) t_pair(t, TR, sizeof(TR), when, when);
	}
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	w_name[0] = 0; w_len = 1;
	dnstable_query_set_data(q, "name");
	uint64_t at = 500;
	if (strict) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &at, 8);
	if (loose) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &at, 8);
	dnstable_query_set_aggregated(q, aggregated);
	struct dnstable_iter *it = dnstable_query_iter_fileset(q, &fs);
	abs_check(it != NULL, "an iterator");
	struct dnstable_entry *e = NULL;
	while (dnstable_iter_next(it, &e) == dnstable_res_success) dnstable_entry_destroy(&e);
	int out0 = known[0] && far[0] && fence, out1 = known[1] && far[1] && fence, in = 2 - out0 - out1;
	abs_check(counter(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILES, 1) == (uint64_t)in, "the files searched are counted once each");
	int fill = aggregated && fence, rem = aggregated && strict;
	uint64_t a = counter(it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILES, fill);
	uint64_t b = counter(it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILES, rem);
	abs_check(!strict || !rem || b == (uint64_t)(2 - in), "the files whose entries are removed are counted");
	abs_check(strict || !fill || a == (uint64_t)(2 - in), "the files put aside are counted");
	/* merges of the searched files: the keys both of them have */
	int both = (has[0] < has[1] ? has[0] : has[1]) + (known[0] && known[1]);
	uint64_t m = counter(it, DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_MERGED, 1);
	abs_check(m == (in == 2 ? (uint64_t)both : 0), "merges of the searched files are counted");
	m = counter(it, DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_MERGED, fill);
	abs_check(!fill || strict || in > 0 || m == 0 || m == (uint64_t)both, "merges of the files put aside are counted");
	m = counter(it, DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_MERGED, fill);
	/* joined: one file within, one before the fence which may be completed */
	int join = fill && !strict && in == 1 ? (has[out0 ? 1 : 0] && !far[out0 ? 1 : 0] ? (has[0] < has[1] ? has[0] : has[1]) : 0) : 0;
	abs_check(!fill || m == (uint64_t)join, "merges of both sides are counted");
	m = counter(it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_FILTERED, rem);
	int gone = rem && in == 1 && !far[out0 ? 1 : 0] ? (has[0] < has[1] ? has[0] : has[1]) : 0;
	abs_check(!rem || m == (uint64_t)gone, "removed entries are counted");
	counter(it, DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_FILTERED, fence);
	counter(it, DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_FILTERED, fence);
	uint64_t seeks = counter(it, DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_SEEK, rem) + counter(it, DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_SEEK, fill);
	abs_check(seeks == (uint64_t)t_seek_calls, "every seek is counted");
	/* stages keep no other counters */
	static const struct { int s, c; } NO[] = {
		{ DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_FILTERED }, { DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_CATEGORY_SEEK },
		{ DNSTABLE_STAT_STAGE_REMOVE_STRICT, DNSTABLE_STAT_CATEGORY_MERGED }, { DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_FILTERED },
		{ DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_CATEGORY_FILES }, { DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_FILTERED },
		{ DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_CATEGORY_SEEK }, { DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_MERGED },
		{ DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_SEEK }, { DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_CATEGORY_FILES },
		{ DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_MERGED }, { DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_SEEK },
		{ DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_CATEGORY_FILES }, { DNSTABLE_STAT_STAGE_FILTER_OFFSET, DNSTABLE_STAT_CATEGORY_MERGED } };
	for (i = 0; i < (int)(sizeof(NO) / sizeof(NO[0])); i++) counter(it, NO[i].s, NO[i].c, 0);
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("counted");
}
void drv_files(void) { stats(1, 0, 0); }
void drv_files_strict(void) { stats(1, 1, 0); }
void drv_files_loose(void) { stats(1, 0, 1); }
void drv_files_all(void) { stats(1, 1, 1); }
void drv_files_apart(void) { stats(0, 0, 0); }
void drv_files_apart_strict(void) { stats(0, 1, 0); }
void drv_files_apart_loose(void) { stats(0, 0, 1); }

/* entries with any times and any limits on them */
#define TMAX 4
#include "mini.h"
static const uint8_t RS[] = { 0, 1, 'a', 0, 1, 0, 1, 7 }, RD[] = { 2, 1, 'a', 0, 2, 0, 3, 0 }, NA[] = { 1, 'a', 0 };
static const dnstable_filter_parameter_type PAR[4] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
static void times(int ty, int mode) {
	uint64_t lim[4], tf, tl, v;
	unsigned set = abs_pick("limits", 16), p;
	mini_init();
	struct tbl *t = t_new();
	memcpy(w_name, NA, 3); w_len = 3;
	struct dnstable_query *q = q_new(ty);
	abs_check(dnstable_query_set_data(q, "name") == dnstable_res_success, "a name is accepted");
	dnstable_query_set_aggregated(q, mode == 1);
	for (p = 0; p < 4; p++) if (set >> p & 1) {
		lim[p] = abs_fresh("limit", 0, UINT64_MAX);
		abs_check(dnstable_query_set_filter_parameter(q, PAR[p], &lim[p], sizeof(lim[p])) == dnstable_res_success, "any limit is accepted");
	}
	tf = abs_u64("first"); tl = abs_u64("last");
	abs_assume(tl > 0);	/* a last time of zero stands for the first one */
	t_triplet(t, ty == DNSTABLE_QUERY_TYPE_RRSET ? RS : RD, 8, tf, tl, 1);
	int want = !((set & 1 && tf > lim[0]) || (set & 2 && tf < lim[1]) || (set & 4 && tl > lim[2]) || (set & 8 && tl < lim[3]));
	struct mtbl_fileset fs;
	f_readers[0] = t; f_nreaders = 1;
	struct dnstable_iter *it = mode ? dnstable_query_iter_fileset(q, &fs) : dnstable_query_iter(q, t->src);
	struct dnstable_entry *e = NULL;
	abs_check(dnstable_iter_next(it, &e) == (want ? dnstable_res_success : dnstable_res_failure), "an entry is a result exactly if its times are within the limits");
	if (want) {
		abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == tf, "the entry has its own times");
		abs_check(dnstable_entry_get_time_last(e, &v) == dnstable_res_success && v == tl, "the entry has its own times");
		dnstable_entry_destroy(&e);
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "an entry is a result once");
	}
	abs_reach(want ? "within limits" : "outside limits");
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
}
void drv_rrset(void) { times(DNSTABLE_QUERY_TYPE_RRSET, 0); }
void drv_rdata(void) { times(DNSTABLE_QUERY_TYPE_RDATA_NAME, 0); }
void drv_files(void) { times(DNSTABLE_QUERY_TYPE_RRSET, 1); }
void drv_apart(void) { times(DNSTABLE_QUERY_TYPE_RRSET, 2); }

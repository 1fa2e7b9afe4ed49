/* the offset of a query: any number of results is passed over, in every kind of search, and for every iterator anew */
#define TMAX 12
#include "mini.h"
#define NE 4
static const uint8_t RS[NE][10] = { { 0, 1, 'a', 0, 1, 0, 1, 7 }, { 0, 1, 'a', 0, 1, 0, 1, 8 }, { 0, 1, 'a', 0, 2, 0, 1, 7 }, { 0, 1, 'b', 0, 1, 0, 1, 7 } };
static const uint8_t RD[NE][10] = { { 2, 1, 'a', 0, 2, 0, 3, 0 }, { 2, 1, 'a', 0, 2, 1, 'm', 0, 3, 0 }, { 2, 1, 'a', 0, 5, 0, 3, 0 }, { 2, 1, 'b', 0, 2, 0, 3, 0 } };
static const size_t RSN[NE] = { 8, 8, 8, 8 }, RDN[NE] = { 8, 10, 8, 8 };
static const uint8_t IX[2][4] = { { 1, 1, 'a', 0 }, { 1, 1, 'b', 0 } };
static void offsets(dnstable_query_type ty, const uint8_t (*k)[10], const size_t *n, int want, int fileset, int aggregated, int again) {
	int i;
	uint64_t off = abs_u64("offset");
	mini_init();
	struct tbl *t = t_new();
	uint64_t tf[NE];
	for (i = 0; i < NE; i++) { tf[i] = 100 + i; t_triplet(t, k[i], n[i], tf[i], tf[i], 1); }
	for (i = 0; i < 2; i++) t_put(t, IX[i], 4, malloc(1), 0);
	struct mtbl_fileset fs;
	f_readers[0] = t; f_nreaders = 1;
	struct dnstable_query *q = q_new(ty);
	dnstable_query_set_data(q, "name");
	dnstable_query_set_aggregated(q, aggregated);
	abs_check(dnstable_query_set_offset(q, off) == dnstable_res_success, "any offset is accepted");
	for (int run = 0; run < 1 + again; run++) {
		struct dnstable_iter *it = fileset ? dnstable_query_iter_fileset(q, &fs) : dnstable_query_iter(q, t->src);
		struct dnstable_entry *e = NULL;
		abs_check(it != NULL, "an iterator");
		for (i = 0; i < want; i++) {
			if ((uint64_t)i < off) continue;
			abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every result but as many as the offset is delivered");
			uint64_t v = 0;
			abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == tf[i], "results are delivered in order");
			dnstable_entry_destroy(&e);
			abs_reach("result");
		}
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "results within the offset are not delivered");
		dnstable_iter_destroy(&it);
	}
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("done");
}
static const uint8_t NA[] = { 1, 'a', 0 }, LW[] = { 1, '*', 0 }, RW[] = { 1, 'a', 1, '*', 0 };
static void name(const uint8_t *p, size_t n) { memcpy(w_name, p, n); w_len = n; }
void drv_rrset(void) { name(NA, 3); offsets(DNSTABLE_QUERY_TYPE_RRSET, RS, RSN, 3, 0, 1, 1); }
void drv_left(void) { name(LW, 3); offsets(DNSTABLE_QUERY_TYPE_RRSET, RS, RSN, 4, 0, 1, 1); }
void drv_indirect(void) { name(RW, 5); offsets(DNSTABLE_QUERY_TYPE_RRSET, RS, RSN, 3, 0, 1, 1); }
void drv_rdata(void) { name(NA, 3); offsets(DNSTABLE_QUERY_TYPE_RDATA_NAME, RD, RDN, 3, 0, 1, 1); }
void drv_files(void) { name(NA, 3); offsets(DNSTABLE_QUERY_TYPE_RRSET, RS, RSN, 3, 1, 1, 1); }
void drv_apart(void) { name(NA, 3); offsets(DNSTABLE_QUERY_TYPE_RRSET, RS, RSN, 3, 1, 0, 0); }

/* with limits on the times: the offset counts the entries that pass them */
static const dnstable_filter_parameter_type PAR[4] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
static void limited(int ne, unsigned lo, unsigned hi, int fileset, int aggregated) {
	static const char *ft[] = { "first0", "first1", "first2" }, *lt[] = { "last0", "last1", "last2" };
	uint64_t off = abs_u64("offset"), lim[4], tf[3], tl[3];
	unsigned set = abs_pick("limits", hi - lo) + lo, i, p;
	int pass[3];
	name(NA, 3);
	mini_init();
	struct tbl *t = t_new();
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	dnstable_query_set_data(q, "name");
	dnstable_query_set_aggregated(q, aggregated);
	for (p = 0; p < 4; p++) if (set >> p & 1) {
		lim[p] = abs_fresh("limit", 0, UINT64_MAX);
		dnstable_query_set_filter_parameter(q, PAR[p], &lim[p], sizeof(lim[p]));
	}
	for (i = 0; i < (unsigned)ne; i++) {
		tf[i] = abs_u64(ft[i]); tl[i] = abs_u64(lt[i]);
		abs_assume(tf[i] > 0 && tf[i] <= tl[i]);
		t_triplet(t, RS[i], RSN[i], tf[i], tl[i], 1);
		pass[i] = !((set & 1 && tf[i] > lim[0]) || (set & 2 && tf[i] < lim[1]) || (set & 4 && tl[i] > lim[2]) || (set & 8 && tl[i] < lim[3]));
	}
	struct mtbl_fileset fs;
	f_readers[0] = t; f_nreaders = 1;
	dnstable_query_set_offset(q, off);
	struct dnstable_iter *it = fileset ? dnstable_query_iter_fileset(q, &fs) : dnstable_query_iter(q, t->src);
	struct dnstable_entry *e = NULL;
	uint64_t left = off, v;
	for (i = 0; i < (unsigned)ne; i++) {
		if (!pass[i]) continue;
		if (left > 0) { left--; continue; }
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "the offset counts only entries within the limits");
		abs_check(dnstable_entry_get_time_first(e, &v) == dnstable_res_success && v == tf[i], "the entry after those passed over is delivered");
		dnstable_entry_destroy(&e);
		abs_reach("limited result");
	}
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "entries passed over or outside the limits are not delivered");
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
	abs_reach("limited done");
}
void drv_limits1(void) { limited(2, 1, 6, 0, 1); }
void drv_limits2(void) { limited(2, 6, 11, 0, 1); }
void drv_limits3(void) { limited(2, 11, 16, 0, 1); }
void drv_limits_files(void) { limited(2, 1, 16, 1, 1); }
void drv_limits_apart(void) { limited(2, 1, 16, 1, 0); }

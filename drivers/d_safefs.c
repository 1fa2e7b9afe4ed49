/* searching files whose entries, index and time ranges hold any values: memory safety and release, however far the search is read */
#define TMAX 16
#include "mini.h"
uint16_t wdns_str_to_rrtype(const char *s) { return 2; }
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = abs_fresh("now", 0, 1000); t->tv_nsec = 5; return 0; }
static const uint8_t K[3][8] = { { 0, 1, 'a', 0, 2, 0, 1, 7 }, { 0, 1, 'a', 1, 'b', 0, 2, 0 }, { 0, 1, 'b', 0, 2, 0, 1, 7 } };
static const uint8_t RK[3][8] = { { 2, 1, 'a', 0, 2, 0, 3, 0 }, { 2, 1, 'b', 0, 2, 0, 3, 0 }, { 2, 1, 'a', 0, 2, 0, 3, 0 } };
static const uint8_t IX[2][4] = { { 1, 1, 'a', 0 }, { 3, 1, 'a', 0 } }, TR[] = { 254 };
static uint8_t *val(const uint8_t *b, size_t n) { uint8_t *v = malloc(n ? n : 1); memcpy(v, b, n); return v; }
/* values of one key in two files are well formed: merging and ordering them refuses others by stopping the program */
static int malformed;
static void triplet(struct tbl *t, const uint8_t *k, size_t n, const char *what, int may) {
	static const uint8_t V[6][4] = { { 0 }, { 0x80 }, { 5, 0x85 }, { 5, 6, 7, 8 }, { 5, 6, 7 }, { 9, 3, 0 } };
	static const uint8_t L[6] = { 0, 1, 2, 4, 3, 3 };
	int i = 4 + abs_pick(what, 2);
	if (may && malformed) return;
	if (may && abs_pick("malformed value", 2)) { i = abs_pick("how", 4); malformed = 1; }
	t_put(t, k, n, val(V[i], L[i]), L[i]);
}
static void index_(struct tbl *t, const uint8_t *k, const char *what, int few) {
	static const uint8_t V[5][3] = { { 0 }, { 2 }, { 0, 2, 0x20 }, { 0, 33, 1 }, { 0, 1, 0x20 } };
	static const uint8_t L[5] = { 0, 1, 3, 3, 3 };
	int i = few ? 4 : (int)abs_pick(what, 5);
	t_put(t, k, 4, val(V[i], L[i]), L[i]);
}
static void range(struct tbl *t, int k) {
	static const uint8_t V[4][3] = { { 0 }, { 0x85 }, { 1, 2, 3 }, { 8, 4 } };
	static const uint8_t L[4] = { 0, 1, 3, 2 };
	if (k < 4) t_put(t, TR, 1, val(V[k], L[k]), L[k]);
}
static void safe(int rdata, int wild, int aggregated, int limits, int timeout) {
	struct mtbl_fileset fs;
	struct dnstable_query *q;
	struct dnstable_entry *e = NULL;
	uint64_t five = 5;
	mini_init();
	t_merge_fails = 1;
	for (int j = 0; j < 2; j++) {
		struct tbl *t = f_readers[j] = t_new();
		const uint8_t *const a = rdata ? RK[0] : K[0];
		triplet(t, a, 8, j ? "value in the second file" : "value in the first file", j ? malformed : !wild || !timeout);
		if (j) { uint8_t v[3] = { 5, 6, 7 }; t_put(t, rdata ? RK[1] : K[2], 8, val(v, 3), 3); }
		if (wild) index_(t, IX[rdata], j ? "index of the second file" : "index of the first file", j || timeout);
		if (limits) range(t, j ? 3 : abs_pick("time range", wild ? 3 : 5));
	}
	f_nreaders = 2;
	q = q_new(rdata ? DNSTABLE_QUERY_TYPE_RDATA_NAME : DNSTABLE_QUERY_TYPE_RRSET);
	static const uint8_t RW[] = { 1, 'a', 1, '*', 0 }, LW[] = { 1, '*', 1, 'a', 0 }, NA[] = { 1, 'a', 0 };
	w_len = wild ? 5 : 3;
	memcpy(w_name, wild ? rdata ? LW : RW : NA, w_len);
	dnstable_query_set_data(q, "name");
	if (wild) dnstable_query_set_rrtype(q, "NS");
	if (limits & 1) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &five, 8);
	if (limits & 2) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &five, 8);
	dnstable_query_set_aggregated(q, aggregated);
	struct timespec to = { 300, 0 };
	if (timeout) dnstable_query_set_timeout(q, &to);
	struct dnstable_iter *it = dnstable_query_iter_fileset(q, &fs);
	int n = wild && (timeout || limits) ? 2 * abs_pick("results read", 2) : (int)abs_pick("results read", 4);
	for (int i = 0; it && i < n; i++) {
		dnstable_res r = dnstable_iter_next(it, &e);
		if (r == dnstable_res_success) { dnstable_entry_destroy(&e); abs_reach("a result of files"); }
		else if (r == dnstable_res_failure) { abs_reach("no result of files"); break; }
	}
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
}
#define V(name, rdata, wild) \
	void drv_##name##_aggregated(void) { safe(rdata, wild, 1, 0, 0); } \
	void drv_##name##_aggregated_limits(void) { safe(rdata, wild, 1, wild ? 2 : 1 + abs_pick("limits", 3), 0); } \
	void drv_##name##_apart(void) { safe(rdata, wild, 0, 0, 0); } \
	void drv_##name##_apart_limits(void) { safe(rdata, wild, 0, wild ? 1 : 1 + abs_pick("limits", 3), 0); } \
	void drv_##name##_timeout(void) { safe(rdata, wild, 1, 0, 1); } \
	void drv_##name##_apart_timeout(void) { safe(rdata, wild, 0, 0, 1); }
V(rrset, 0, 0) V(rdata, 1, 0) V(rrset_wild, 0, 1) V(rdata_wild, 1, 1)

/* timeouts and deadlines: when a query times out, and what it yields before and afterwards */
#define TMAX 12
#include "mini.h"
#include <time.h>
struct dnstable_entry { uint8_t k[40]; size_t n; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t m) {
	struct dnstable_entry *e = malloc(sizeof(*e));
	memcpy(e->k, k, n);
	e->n = n;
	return e;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { free(*e); *e = NULL; }
uint16_t wdns_str_to_rrtype(const char *s) { return 1; }
bool rrtype_test(dnstable_entry_type t, uint16_t rr, const uint8_t *m, size_t n) { return true; }
static struct timespec now, dl, to, abs_dl;
static int do_to, do_dl, first, late, reads;
static void norm(const char *s, const char *n, struct timespec *t, int64_t hi) { t->tv_sec = abs_fresh(s, 0, hi); t->tv_nsec = abs_fresh(n, 0, 999999999); }
static int less(const struct timespec *a, const struct timespec *b) {
	if (a->tv_sec != b->tv_sec) return a->tv_sec < b->tv_sec;
	return a->tv_nsec < b->tv_nsec;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
	struct timespec p = now;
	abs_check(id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE, "deadlines are of the monotonic clock");
	norm("seconds now", "nanoseconds now", &now, 1L << 30);
	abs_assume(now.tv_sec > p.tv_sec);
	if (first && do_to) {
		first = 0;
		dl.tv_sec = now.tv_sec + to.tv_sec;
		dl.tv_nsec = now.tv_nsec + to.tv_nsec;
		if (dl.tv_nsec >= 1000000000) { dl.tv_nsec -= 1000000000; dl.tv_sec++; }
		if (do_dl && less(&abs_dl, &dl)) dl = abs_dl;
	} else {
		if (first) { first = 0; dl = abs_dl; }
		reads++;
		abs_check(!late, "nothing goes on after the deadline has been noticed");
		if ((do_to || do_dl) && !less(&now, &dl)) late = 1;
	}
	*ts = now;
	return 0;
}
static uint8_t mk[3][16]; static size_t mn[3];
static const uint8_t IX[2][4] = { { 1, 1, 'a', 0 }, { 1, 1, 'b', 0 } };
static void timed(int dt, int dd, int indirect, int clear, int calls) {
	static const uint8_t RW[] = { 1, '*', 0 };
	static const char LAB[] = "abb", TYP[] = { 1, 1, 2 };
	int i, n = 0;
	mini_init();
	struct tbl *t = t_new();
	for (i = 0; i < 3; i++) {
		struct kb k = { .n = 0 };
		kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, LAB[i]); kb_add(&k, 0); kb_add(&k, TYP[i]); kb_add(&k, 0); kb_add(&k, 1); kb_add(&k, 9);
		memcpy(mk[i], k.b, k.n); mn[i] = k.n;
		if (indirect && i == 1) continue;
		t_put(t, mk[i], mn[i], malloc(1), 1);
	}
	for (i = 0; i < 2; i++) t_put(t, IX[i], 4, malloc(1), 0);
	struct dnstable_query *q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	/* an index search needs a name ahead of the wildcard: the root would do, but is no label */
	static const uint8_t RA[] = { 1, 'a', 1, '*', 0 };
	if (indirect) { memcpy(w_name, RA, 5); w_len = 5; } else { memcpy(w_name, RW, 3); w_len = 3; }
	dnstable_query_set_data(q, "name");
	dnstable_query_set_rrtype(q, "A");
	do_to = dt; do_dl = dd;
	if (dt) { norm("timeout seconds", "timeout nanoseconds", &to, 1L << 30); dnstable_query_set_timeout(q, &to); }
	if (dd) { norm("deadline seconds", "deadline nanoseconds", &abs_dl, 1L << 30); dnstable_query_set_deadline(q, &abs_dl); }
	struct dnstable_iter *it = dnstable_query_iter(q, t->src);
	abs_check(it != NULL, "an iterator");
	int got = 0, want = indirect ? 1 : 2;
	for (n = 0; n < calls; n++) {
		struct dnstable_entry *e = NULL;
		if (n == 1) {
			if (clear & 1) { dnstable_query_set_timeout(q, NULL); do_to = 0; }
			if (clear & 2) { dnstable_query_set_deadline(q, NULL); do_dl = 0; }
		}
		int f0 = t_next_calls;
		first = 1; late = 0; reads = 0;
		dnstable_res r = dnstable_iter_next(it, &e);
		if (do_to || do_dl) abs_check(reads >= t_next_calls - f0, "the clock is looked at before every fetch");
		if (late) { abs_check(r == dnstable_res_timeout, "a query past its deadline times out"); abs_reach("timed out"); continue; }
		abs_check(r == (got < want ? dnstable_res_success : dnstable_res_failure), "a query within its deadline goes on where it was");
		if (r != dnstable_res_success) { abs_reach("finished"); break; }
		abs_check(e->n == mn[got] && memcmp(e->k, mk[got], mn[got]) == 0, "no result is lost or repeated by a timeout");
		got++;
		dnstable_entry_destroy(&e);
		abs_reach("result");
	}
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mini_done();
	abs_noleak();
}
void drv_timeout(void) { timed(1, 0, 0, 0, 3); }
void drv_deadline(void) { timed(0, 1, 0, 0, 5); }
void drv_both(void) { timed(1, 1, 0, 0, 2); }
void drv_none(void) { timed(0, 0, abs_pick("indirect", 2), 0, 5); }
void drv_cleared(void) { timed(1, 1, abs_pick("indirect", 2), 3, 4); }
void drv_timeout_cleared(void) { timed(1, 1, 0, 1, 2); }
void drv_deadline_cleared(void) { timed(1, 1, 0, 2, 2); }
void drv_timeout_index(void) { timed(1, 0, 1, 0, 3); }
void drv_deadline_index(void) { timed(0, 1, 1, 0, 4); }
void drv_both_index(void) { timed(1, 1, 1, 0, 2); }

/* the filter wrapper: what a filtered source yields for every filter, table and history */
#include "mini.h"
#define NK 3
static const uint8_t KS[NK][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 } }, PFX[] = { 1 };
static int mode, set, act[NK], jump[NK], pos, sought, refused;
enum { ACCEPT, REJECT, JUMP, FAIL };
static mtbl_res flt(void *user, struct mtbl_iter *si, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv, bool *match) {
	abs_check(user == act, "the filter gets its own argument");
	abs_check(nk == 2 && nv == 2 && v[0] == 7 && v[1] < NK && k[0] == KS[v[1]][0] && k[1] == KS[v[1]][1], "the filter gets the entry");
	int i = v[1];
	*match = act[i] == ACCEPT;
	if (act[i] == FAIL) return mtbl_res_failure;
	if (act[i] == JUMP) abs_check(mtbl_iter_seek(si, KS[jump[i]], 2) == mtbl_res_success, "a filter can seek");
	return mtbl_res_success;
}
static int start(void) { return mode == MDL_GET ? 1 : 0; }
static int within(int i) { return mode == MDL_ITER || mode == MDL_GET && i == 1 || (mode == MDL_PREFIX || mode == MDL_RANGE) && i <= 1; }
static int step(struct mtbl_iter *it) {
	const uint8_t *k, *v; size_t nk, nv;
	int failed = 0;
	for (;;) {
		while (pos < NK && !(set >> pos & 1)) pos++;
		if (pos >= NK || !within(pos)) { pos = NK; break; }
		if (act[pos] == ACCEPT) break;
		if (act[pos] == FAIL) { failed = 1; break; }
		refused++;
		if (act[pos] == JUMP) { sought++; pos = jump[pos]; }
		else pos++;
	}
	mtbl_res r = mtbl_iter_next(it, &k, &nk, &v, &nv);
	if (failed) {
		abs_check(r != mtbl_res_success, "a filter can end the iteration");
		abs_reach("ended");
		return -1;
	}
	abs_check(r == (pos < NK ? mtbl_res_success : mtbl_res_failure), "every entry the filter accepts is yielded, and no other");
	if (r != mtbl_res_success) return 0;
	abs_check(nk == 2 && k[0] == KS[pos][0] && k[1] == KS[pos][1] && nv == 2 && v[0] == 7 && v[1] == pos, "entries are yielded in order and unchanged");
	pos++;
	return 1;
}
static void run(int m, int ops) {
	mini_init();
	mode = m;
	struct tbl *t = t_new();
	t->may_null = 1;
	set = abs_pick("keys", 1 << NK);
	for (int i = 0; i < NK; i++) {
		if (!(set >> i & 1)) continue;
		uint8_t *v = malloc(2);
		v[0] = 7; v[1] = i;
		t_put(t, KS[i], 2, v, 2);
		act[i] = abs_pick("the filter", m == MDL_GET ? 2 : i < NK - 1 ? 4 : 3);
		if (i == NK - 1 && act[i] == JUMP) act[i] = FAIL;
		if (act[i] == JUMP) jump[i] = i + 1 + abs_pick("forward to", NK - 1 - i);
	}
	struct filter_mtbl *f = filter_mtbl_init(t->src, flt, act);
	const struct mtbl_source *s = filter_mtbl_source(f);
	struct mtbl_iter *it = NULL;
	switch (m) {
	case MDL_ITER: it = mtbl_source_iter(s); break;
	case MDL_GET: it = mtbl_source_get(s, KS[1], 2); break;
	case MDL_PREFIX: it = mtbl_source_get_prefix(s, PFX, 1); break;
	case MDL_RANGE: it = mtbl_source_get_range(s, KS[0], 2, KS[1], 2); break;
	}
	pos = start();
	int r = 1;
	for (int n = 0; n < ops && r >= 0; n++) {
		int o = abs_pick("operation", NK + 1);
		if (o < start()) abs_stop();
		if (o == NK) r = step(it);
		else { mtbl_iter_seek(it, KS[o], 2); pos = o; }	/* fails if there is nothing at all */
	}
	while (r > 0) r = step(it);
	bool ex = false; uint64_t u = 99;
	abs_check(filter_mtbl_get_counter(f, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)refused, "refused entries are counted");
	abs_check(filter_mtbl_get_counter(f, DNSTABLE_STAT_CATEGORY_SEEK, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)sought, "seeks of the filter are counted");
	abs_check(filter_mtbl_get_counter(f, DNSTABLE_STAT_CATEGORY_MERGED, &ex, &u) == dnstable_res_success && !ex, "a filter merges nothing");
	mtbl_iter_destroy(&it);
	filter_mtbl_destroy(&f);
	abs_check(f == NULL, "destroying clears the handle");
	mini_done();
	abs_reach("filtered");
}
void drv_iter(void) { run(MDL_ITER, 1); }
void drv_get(void) { run(MDL_GET, 2); }
void drv_prefix(void) { run(MDL_PREFIX, 1); }
void drv_range(void) { run(MDL_RANGE, 1); }

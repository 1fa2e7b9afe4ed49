/* left join and removal: what the combined source yields for every pair of tables and history */
#include "mini.h"
#define NK 3
/* keys of several lengths, one the beginning of another; some values are empty */
static const uint8_t KS[NK][3] = { { 1, 1 }, { 1, 1, 0 }, { 2 } }, PFX[] = { 1 };
static const size_t KN[NK] = { 2, 3, 1 };
static int is_key(const uint8_t *k, size_t n) {
	for (int i = 0; i < NK; i++) if (n == KN[i] && memcmp(k, KS[i], n) == 0) return i;
	return -1;
}
static size_t vlen(int tag, int i) { return tag == 8 && i == 1 || tag == 7 && i == 2 ? 0 : 2; }
static int mode, fail_merge;
static struct tbl *table(const char *what, int tag, int *set) {
	struct tbl *t = t_new();
	if (*set < 0) *set = abs_pick(what, 1 << NK);
	for (int i = 0; i < NK; i++) if (*set >> i & 1) {
		uint8_t *v = malloc(2);
		v[0] = tag; v[1] = i;
		t_put(t, KS[i], KN[i], v, vlen(tag, i));
	}
	return t;
}
static struct mtbl_iter *open_mode(const struct mtbl_source *s) {
	switch (mode) {
	case MDL_ITER: return mtbl_source_iter(s);
	case MDL_GET: return mtbl_source_get(s, KS[1], KN[1]);
	case MDL_PREFIX: return mtbl_source_get_prefix(s, PFX, 1);
	default: return mtbl_source_get_range(s, KS[0], KN[0], KS[1], KN[1]);
	}
}
static int start(void) { return mode == MDL_GET ? 1 : 0; }
static int within(int i) { return mode == MDL_ITER || mode == MDL_GET && i == 1 || (mode == MDL_PREFIX || mode == MDL_RANGE) && i <= 1; }
static int merges;
static void mf(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm) {
	abs_check(c == &merges, "the merge function gets its own argument");
	int w = is_key(k, nk);
	abs_check(w >= 0, "the merge function gets the key");
	abs_check(na == vlen(7, w) && nb == vlen(8, w) && (na == 0 || a[0] == 7 && a[1] == w) && (nb == 0 || b[0] == 8 && b[1] == w), "the merge function gets the values of both sides, left first");
	*m = NULL;
	if (fail_merge) return;
	merges++;
	*m = malloc(3);
	(*m)[0] = 9; (*m)[1] = w; (*m)[2] = w;
	*nm = 3;
}
/* walk: two arbitrary operations, then to the end */
static int pos, lset = -1, drop, ops = 2;
static int expect(void) {
	int p = pos;
	while (p < NK && (!(lset >> p & 1) || within(p) && (drop >> p & 1))) p++;
	return p < NK && within(p) ? p : NK;
}
static int step(struct mtbl_iter *it, int rset, int join) {
	const uint8_t *k, *v; size_t nk, nv;
	int want = expect();
	mtbl_res r = mtbl_iter_next(it, &k, &nk, &v, &nv);
	if (want < NK && fail_merge && rset >> want & 1) {
		abs_check(r != mtbl_res_success, "a failed merge is a failure");
		abs_stop();
	}
	abs_check(r == (want < NK ? mtbl_res_success : mtbl_res_failure), join ? "every key of the left side is yielded, and no other" : "every key which is not removed is yielded, and no other");
	if (r != mtbl_res_success) { pos = NK; return 0; }
	abs_check(is_key(k, nk) == want, "keys are yielded in order");
	if (rset >> want & 1) abs_check(nv == 3 && v[0] == 9 && v[1] == want && v[2] == want, "a key of both sides has the merged value");
	else abs_check(nv == vlen(7, want) && (nv == 0 || v[0] == 7 && v[1] == want), "any other key has its own value");
	pos = want + 1;
	return 1;
}
static void walk(struct mtbl_iter *it, int rset, int join) {
	pos = start();
	for (int n = 0; n < ops; n++) {
		int o = abs_pick("operation", NK + 1);
		if (o < start()) abs_stop();	/* nobody says what seeking ahead of the key asked for means */
		if (o == NK) step(it, rset, join);
		else {
			abs_check(mtbl_iter_seek(it, KS[o], KN[o]) == mtbl_res_success, "a seek succeeds");
			pos = o;
		}
	}
	while (step(it, rset, join)) ;
}
static void ljoin(int m) {
	int rset = -1;
	mini_init();
	mode = m;
	fail_merge = abs_pick("merging fails", 2);
	struct tbl *l = table("left keys", 7, &lset), *r = table("right keys", 8, &rset);
	r->may_null = 1;
	struct ljoin_mtbl *j = ljoin_mtbl_init(l->src, r->src, mf, &merges);
	struct mtbl_iter *it = open_mode(ljoin_mtbl_source(j));
	int own = t_seek_calls;
	walk(it, rset, 1);
	bool ex = false; uint64_t u = 0;
	abs_check(ljoin_mtbl_get_counter(j, DNSTABLE_STAT_CATEGORY_MERGED, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)merges, "merges are counted");
	mtbl_iter_destroy(&it);
	ljoin_mtbl_destroy(&j);
	abs_check(j == NULL, "destroying clears the handle");
	mini_done();
	abs_noleak();
	abs_reach("joined");
}
void drv_ljoin_iter(void) { ljoin(MDL_ITER); }
void drv_ljoin_get(void) { ljoin(MDL_GET); }
void drv_ljoin_prefix(void) { ljoin(MDL_PREFIX); }
void drv_ljoin_range(void) { ljoin(MDL_RANGE); }
void drv_ljoin_back(void) { lset = 7; ops = 3; ljoin(MDL_ITER); }
static void removal(int m, int two) {
	int a = -1, b = two ? -1 : 0;
	if (two) lset = 7;
	mini_init();
	mode = m;
	struct tbl *l = table("upstream keys", 7, &lset), *r = table("keys to remove", 8, &a), *r2 = NULL;
	r->may_null = 1;
	struct remove_mtbl *rm = remove_mtbl_init();
	remove_mtbl_set_upstream(rm, l->src);
	remove_mtbl_add_source(rm, r->src);
	if (two) {
		r2 = table("more keys to remove", 8, &b);
		remove_mtbl_add_source(rm, r2->src);
	}
	drop = a | b;
	bool ex = false; uint64_t u = 0;
	abs_check(remove_mtbl_get_counter(rm, DNSTABLE_STAT_CATEGORY_FILES, &ex, &u) == dnstable_res_success && ex && u == 1 + (uint64_t)two, "sources to remove are counted");
	struct mtbl_iter *it = open_mode(remove_mtbl_source(rm));
	walk(it, 0, 0);
	mtbl_iter_destroy(&it);
	remove_mtbl_destroy(&rm);
	abs_check(rm == NULL, "destroying clears the handle");
	mini_done();
	abs_noleak();
	abs_reach("removed");
}
void drv_remove_iter(void) { removal(MDL_ITER, 0); }
void drv_remove_get(void) { removal(MDL_GET, 0); }
void drv_remove_prefix(void) { removal(MDL_PREFIX, 0); }
void drv_remove_range(void) { removal(MDL_RANGE, 0); }
void drv_remove_two(void) { removal(MDL_ITER, 1); }
void drv_remove_back(void) { lset = 7; ops = 4; removal(MDL_ITER, 0); }

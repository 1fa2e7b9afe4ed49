/* left joins, removals and filters over hundreds of keys of many lengths */
#define TMAX 330
#define TFAST 1
#include "mini.h"
#define NK 320
static uint8_t KB[NK][320];
static size_t KL[NK];
static uint8_t on[4][NK];	/* which side has the key: 0 the left or upstream one */
static int n_side, merges, want[NK], nw, mode;
/* keys in order: i is spelt by two bytes, then a tail of varying length */
static void keys(int longkeys) {
	for (int i = 0; i < NK; i++) {
		KB[i][0] = i / 40; KB[i][1] = i % 40;
		KL[i] = 2 + (i % 5 == 0 ? 0 : longkeys && i % 37 == 1 ? 60 + i % 250 : i % 7);
		for (size_t j = 2; j < KL[i]; j++) KB[i][j] = i + j;
	}
}
static size_t vl(int side, int i) { return i % 11 == side ? 0 : i % 53 == side + 2 ? 255 + i % 5 : 2 + (i + side) % 3; }
static int is_key(const uint8_t *k, size_t n) {
	if (n < 2) return -1;
	int i = k[0] * 40 + k[1];
	return i < NK && n == KL[i] && memcmp(k, KB[i], n) == 0 ? i : -1;
}
static int value_ok(const uint8_t *v, size_t n, int side, int i) {
	if (n != vl(side, i)) return 0;
	return n == 0 || v[0] == side && v[1] == i % 251;
}
static struct tbl *table(int side) {
	struct tbl *t = t_new();
	if (side) t->may_null = 1;
	for (int i = 0; i < NK; i++) if (on[side][i]) {
		size_t n = vl(side, i);
		uint8_t *v = calloc(n + 2, 1);
		v[0] = side; v[1] = i % 251;
		t_put(t, KB[i], KL[i], v, n);
	}
	return t;
}
static void mf(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm) {
	int w = is_key(k, nk);
	abs_check(c == &merges && w >= 0 && value_ok(a, na, 0, w) && value_ok(b, nb, 1, w), "the merge function gets the key and both values, left first");
	merges++;
	*m = malloc(4);
	(*m)[0] = 9; (*m)[1] = w / 40; (*m)[2] = w % 40; (*m)[3] = 0;
	*nm = 4;
}
static struct mtbl_iter *open_(const struct mtbl_source *s, int lo, int hi) {
	switch (mode) {
	case MDL_PREFIX: { uint8_t p = lo / 40; return mtbl_source_get_prefix(s, &p, 1); }
	case MDL_RANGE: return mtbl_source_get_range(s, KB[lo], KL[lo], KB[hi], KL[hi]);
	default: return mtbl_source_iter(s);
	}
}
/* read from key number "from" to the end, or no more than "most" entries */
static int walk(struct mtbl_iter *it, int from, int hi, int join, int most) {
	const uint8_t *k, *v; size_t nk, nv;
	int i;
	for (i = from; i <= hi; i++) {
		int gone = 0;
		if (!on[0][i]) continue;
		for (int s = 1; s < n_side && !join; s++) gone |= on[s][i];
		if (gone) continue;
		if (most-- == 0) return i;
		abs_check(mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success, "every key that belongs is yielded");
		abs_check(is_key(k, nk) == i, "keys are yielded in order");
		if (join && on[1][i]) abs_check(nv == 4 && v[0] == 9 && v[1] == i / 40 && v[2] == i % 40, "a key of both sides has the merged value");
		else abs_check(value_ok(v, nv, 0, i), "any other key has its own value");
	}
	abs_check(mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_failure, "nothing else is yielded");
	return NK;
}
static void fill(int how) {
	for (int i = 0; i < NK; i++) {
		on[0][i] = how == 0 || (how == 1 ? i % 3 != 0 : how == 2 ? i % 100 == 99 || i < 3 : i >= 5 && i < 300 || i == NK - 1);
		on[1][i] = how == 0 ? i % 2 : how == 1 ? i % 3 != 1 && (i / 20) % 2 : how == 2 ? 1 : i < 280 || i % 2;
		on[2][i] = how == 0 ? i % 4 == 2 : how == 1 ? i > 250 : how == 2 ? 0 : i % 9 == 0;
		on[3][i] = how == 0 ? i / 64 == 3 : how == 1 ? i % 7 == 0 : how == 2 ? i == 99 : i == 290;
	}
}
static void ljoin(int how, int m, int lo, int hi) {
	mini_init();
	keys(how != 2);
	fill(how);
	mode = m;
	n_side = 2;
	struct tbl *l = table(0), *r = table(1);
	struct ljoin_mtbl *j = ljoin_mtbl_init(l->src, r->src, mf, &merges);
	struct mtbl_iter *it = open_(ljoin_mtbl_source(j), lo, hi);
	walk(it, lo, hi, 1, -1);
	int n = 0;
	for (int i = lo; i <= hi; i++) n += on[0][i] && on[1][i];
	abs_check(merges == n, "each key of both sides is merged once");
	if (m == MDL_ITER) {
		static const int S[] = { 0, 150, 7, 255, 318, 100 };
		for (int s = 0; s < 6; s++) {
			abs_check(mtbl_iter_seek(it, KB[S[s]], KL[S[s]]) == mtbl_res_success, "a seek succeeds");
			walk(it, S[s], hi, 1, s == 5 ? -1 : 3 + s * 20);
		}
	}
	bool ex = false; uint64_t u = 0;
	abs_check(ljoin_mtbl_get_counter(j, DNSTABLE_STAT_CATEGORY_MERGED, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)merges, "merges are counted");
	mtbl_iter_destroy(&it);
	ljoin_mtbl_destroy(&j);
	mini_done();
	abs_noleak();
	abs_reach("many joined");
}
void lj_all(void) { ljoin(0, MDL_ITER, 0, NK - 1); }
void lj_some(void) { ljoin(1, MDL_ITER, 0, NK - 1); }
void lj_few_left(void) { ljoin(2, MDL_ITER, 0, NK - 1); }
void lj_long_run(void) { ljoin(3, MDL_ITER, 0, NK - 1); }
void lj_prefix(void) { ljoin(0, MDL_PREFIX, 80, 119); }
void lj_range(void) { ljoin(1, MDL_RANGE, 31, 300); }
static void removal(int how, int m, int lo, int hi) {
	mini_init();
	keys(how != 2);
	fill(how);
	mode = m;
	n_side = 4;
	struct tbl *l = table(0);
	struct remove_mtbl *rm = remove_mtbl_init();
	remove_mtbl_set_upstream(rm, l->src);
	for (int s = 1; s < n_side; s++) remove_mtbl_add_source(rm, table(s)->src);
	bool ex = false; uint64_t u = 0;
	abs_check(remove_mtbl_get_counter(rm, DNSTABLE_STAT_CATEGORY_FILES, &ex, &u) == dnstable_res_success && ex && u == 3, "sources to remove are counted");
	struct mtbl_iter *it = open_(remove_mtbl_source(rm), lo, hi);
	walk(it, lo, hi, 0, -1);
	if (m == MDL_ITER) {
		static const int S[] = { 0, 150, 7, 255, 318, 100 };
		for (int s = 0; s < 6; s++) {
			abs_check(mtbl_iter_seek(it, KB[S[s]], KL[S[s]]) == mtbl_res_success, "a seek succeeds");
			walk(it, S[s], hi, 0, s == 5 ? -1 : 3 + s * 20);
		}
	}
	mtbl_iter_destroy(&it);
	remove_mtbl_destroy(&rm);
	mini_done();
	abs_noleak();
	abs_reach("many removed");
}
void rm_all(void) { removal(0, MDL_ITER, 0, NK - 1); }
void rm_some(void) { removal(1, MDL_ITER, 0, NK - 1); }
void rm_few_left(void) { removal(2, MDL_ITER, 0, NK - 1); }
void rm_long_run(void) { removal(3, MDL_ITER, 0, NK - 1); }
void rm_prefix(void) { removal(0, MDL_PREFIX, 80, 119); }
void rm_range(void) { removal(1, MDL_RANGE, 31, 300); }
/* many sources to remove, one key each; and none which exist upstream */
void rm_sources(void) {
	mini_init();
	keys(0);
	memset(on, 0, sizeof(on));
	struct remove_mtbl *rm = remove_mtbl_init();
	for (int i = 0; i < NK; i++) on[0][i] = i < 20;
	struct tbl *l = table(0);
	remove_mtbl_set_upstream(rm, l->src);
	n_side = 2;
	for (int s = 0; s < 8; s++) {
		memset(on[1], 0, NK);
		on[1][s * 2] = 1;
		remove_mtbl_add_source(rm, table(1)->src);
	}
	memset(on[1], 0, NK);
	for (int s = 0; s < 8; s++) on[1][s * 2] = 1;
	mode = MDL_ITER;
	struct mtbl_iter *it = open_(remove_mtbl_source(rm), 0, NK - 1);
	walk(it, 0, NK - 1, 0, -1);
	abs_check(mtbl_iter_seek(it, KB[5], KL[5]) == mtbl_res_success, "a seek succeeds");
	walk(it, 5, NK - 1, 0, -1);
	mtbl_iter_destroy(&it);
	remove_mtbl_destroy(&rm);
	mini_done();
	abs_noleak();
	abs_reach("many removed");
}
/* a filter which refuses long runs, or jumps ahead within them */
static int refused, sought, jumping;
static mtbl_res flt(void *user, struct mtbl_iter *si, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv, bool *match) {
	int i = is_key(k, nk);
	abs_check(user == &refused && i >= 0 && value_ok(v, nv, 0, i), "the filter gets its own argument and the entry");
	*match = !on[1][i];
	if (*match) return mtbl_res_success;
	refused++;
	if (jumping && i + 3 < NK && on[1][i + 1] && on[1][i + 2]) {
		abs_check(mtbl_iter_seek(si, KB[i + 3], KL[i + 3]) == mtbl_res_success, "a filter can seek");
		sought++;
	}
	return mtbl_res_success;
}
static void filtered(int how, int m, int lo, int hi, int jump) {
	mini_init();
	keys(how != 2);
	fill(how);
	mode = m;
	n_side = 2;
	jumping = jump;
	struct tbl *l = table(0);
	struct filter_mtbl *f = filter_mtbl_init(l->src, flt, &refused);
	struct mtbl_iter *it = open_(filter_mtbl_source(f), lo, hi);
	walk(it, lo, hi, 0, -1);
	if (m == MDL_ITER) {
		abs_check(mtbl_iter_seek(it, KB[90], KL[90]) == mtbl_res_success, "a seek succeeds");
		walk(it, 90, hi, 0, 15);
		abs_check(mtbl_iter_seek(it, KB[30], KL[30]) == mtbl_res_success, "a seek succeeds");
		walk(it, 30, hi, 0, -1);
	}
	bool ex = false; uint64_t u = 0;
	abs_check(filter_mtbl_get_counter(f, DNSTABLE_STAT_CATEGORY_FILTERED, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)refused, "refused entries are counted");
	abs_check(filter_mtbl_get_counter(f, DNSTABLE_STAT_CATEGORY_SEEK, &ex, &u) == dnstable_res_success && ex && u == (uint64_t)sought, "seeks of the filter are counted");
	mtbl_iter_destroy(&it);
	filter_mtbl_destroy(&f);
	mini_done();
	abs_noleak();
	abs_reach("many filtered");
}
void fi_all(void) { filtered(0, MDL_ITER, 0, NK - 1, 0); }
void fi_some(void) { filtered(1, MDL_ITER, 0, NK - 1, abs_pick("jumping", 2)); }
void fi_run(void) { filtered(2, MDL_ITER, 0, NK - 1, abs_pick("jumping", 2)); }
void fi_long_run(void) { filtered(3, MDL_ITER, 0, NK - 1, 0); }
void fi_jumps(void) { filtered(3, MDL_ITER, 0, NK - 1, 1); }
void fi_range(void) { filtered(1, MDL_RANGE, 31, 300, 1); }
/* keys which differ only beyond their first 255 bytes, or only in their length */
static uint8_t lk[6][700];
static const size_t LN[6] = { 255, 256, 257, 400, 512, 700 };
static int ln_on[2][6], ln_merges;
static int lkey(const uint8_t *k, size_t n) { for (int i = 0; i < 6; i++) if (n == LN[i] && memcmp(k, lk[i], n) == 0) return i; return -1; }
static void lmf(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm) {
	int i = lkey(k, nk);
	abs_check(i >= 0 && ln_on[0][i] && ln_on[1][i] && na == 2 && nb == 2 && a[1] == i && b[1] == i && a[0] == 0 && b[0] == 1, "only values of the same long key are merged");
	ln_merges++;
	*m = calloc(1, 1); *nm = 1;
}
static void long_keys(int join) {
	int set = abs_pick("keys of the other side", 64);
	mini_init();
	for (int i = 0; i < 6; i++) memset(lk[i], 'k', LN[i]);
	lk[3][300] = 'l'; lk[4][300] = 'l'; lk[4][511] = 'm'; lk[5][300] = 'l'; lk[5][511] = 'm'; lk[5][699] = 0;
	struct tbl *t[2] = { t_new(), t_new() };
	t[1]->may_null = 1;
	for (int s = 0; s < 2; s++) for (int i = 0; i < 6; i++) {
		ln_on[s][i] = s == 0 ? i != 4 || join : set >> i & 1;
		if (!ln_on[s][i]) continue;
		uint8_t *v = malloc(2);
		v[0] = s; v[1] = i;
		t_put(t[s], lk[i], LN[i], v, 2);
	}
	struct ljoin_mtbl *j = NULL;
	struct remove_mtbl *rm = NULL;
	if (join) j = ljoin_mtbl_init(t[0]->src, t[1]->src, lmf, NULL);
	else { rm = remove_mtbl_init(); remove_mtbl_set_upstream(rm, t[0]->src); remove_mtbl_add_source(rm, t[1]->src); }
	struct mtbl_iter *it = mtbl_source_iter(join ? ljoin_mtbl_source(j) : remove_mtbl_source(rm));
	const uint8_t *k, *v; size_t nk, nv;
	for (int i = 0; i < 6; i++) {
		if (!ln_on[0][i] || !join && ln_on[1][i]) continue;
		abs_check(mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_success && lkey(k, nk) == i, "every long key that belongs is yielded");
		abs_check(nv == (join && ln_on[1][i] ? 1 : 2), "long keys have their own value, or the merged one");
	}
	abs_check(mtbl_iter_next(it, &k, &nk, &v, &nv) == mtbl_res_failure, "nothing else is yielded");
	mtbl_iter_destroy(&it);
	if (join) ljoin_mtbl_destroy(&j); else remove_mtbl_destroy(&rm);
	mini_done();
	abs_noleak();
	abs_reach(join ? "many joined" : "many removed");
}
void lj_long_keys(void) { long_keys(1); }
void rm_long_keys(void) { long_keys(0); }

/* A table model with known keys and unknown values: sorted tables, readers, filesets and
 * mergers which behave as libmtbl documents.  Returned keys and values live until the next
 * call on the same iterator. */
#ifndef MINI_H
#define MINI_H
#include "q_names.h"
#ifndef TMAX
#define TMAX 6
#endif
struct tent { const uint8_t *k; size_t nk; uint8_t *v; size_t nv; };
struct tbl { struct mtbl_source *src; int n; struct tent e[TMAX]; struct mtbl_reader rd; struct mtbl_merger *m; int may_null; };
struct tit { struct tbl *t; int pos, op; uint8_t *k0, *k1; size_t n0, n1; uint8_t *key, *val; };
static struct tbl *t_all[10]; static int t_nall;
static int t_merge_fails; static unsigned t_merge_types;
static int t_next_calls, t_seek_calls, t_open_calls;
static const uint8_t *t_last_seek; static size_t t_last_nseek;
static uint8_t *t_dup(const uint8_t *p, size_t n) { uint8_t *q = malloc(n); if (n) memcpy(q, p, n); return q; }
static int t_cmp(const uint8_t *a, size_t na, const uint8_t *b, size_t nb) { return bytes_compare(a, na, b, nb); }
static void t_drop(struct tit *i) { free(i->key); free(i->val); i->key = i->val = NULL; }
static mtbl_res t_next(void *clos, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	struct tit *i = clos;
	t_next_calls++;
	t_drop(i);
	if (i->pos >= i->t->n) return mtbl_res_failure;
	struct tent *e = &i->t->e[i->pos];
	if (i->op == MDL_PREFIX && (e->nk < i->n0 || memcmp(e->k, i->k0, i->n0) != 0)) return mtbl_res_failure;
	if (i->op == MDL_GET && t_cmp(e->k, e->nk, i->k0, i->n0) != 0) return mtbl_res_failure;
	if (i->op == MDL_RANGE && t_cmp(e->k, e->nk, i->k1, i->n1) > 0) return mtbl_res_failure;
	i->pos++;
	i->key = t_dup(e->k, e->nk); i->val = t_dup(e->v, e->nv);
	*k = i->key; *nk = e->nk; *v = i->val; *nv = e->nv;
	return mtbl_res_success;
}
static mtbl_res t_seek(void *clos, const uint8_t *k, size_t n) {
	struct tit *i = clos;
	t_seek_calls++;
	t_drop(i);
	i->pos = 0;
#ifdef TFAST
	for (int hi = i->t->n; hi - i->pos > 8;) {
		int m = (i->pos + hi) / 2;
		if (t_cmp(i->t->e[m].k, i->t->e[m].nk, k, n) < 0) i->pos = m + 1; else hi = m;
	}
#endif
	while (i->pos < i->t->n && t_cmp(i->t->e[i->pos].k, i->t->e[i->pos].nk, k, n) < 0) i->pos++;
	return mtbl_res_success;
}
static void t_free(void *clos) { struct tit *i = clos; t_drop(i); free(i->k0); free(i->k1); free(i); }
static void t_put(struct tbl *t, const uint8_t *k, size_t nk, uint8_t *v, size_t nv) {
	abs_check(t->n < TMAX, "model table capacity");
	int i = t->n++;
	while (i > 0 && t_cmp(t->e[i - 1].k, t->e[i - 1].nk, k, nk) > 0) { t->e[i] = t->e[i - 1]; i--; }
	t->e[i].k = k; t->e[i].nk = nk; t->e[i].v = v; t->e[i].nv = nv;
}
/* add an entry of another table: merged, or kept apart in dupsort order */
static void t_merge(struct tbl *t, const struct tent *e, mtbl_merge_func mf, void *mc, mtbl_dupsort_func df, void *dc) {
	int i;
	for (i = 0; i < t->n; i++) {
		struct tent *o = &t->e[i];
		int c = t_cmp(o->k, o->nk, e->k, e->nk);
		if (c == 0 && mf) {
			if (t_merge_types && !(t_merge_types >> (e->k[0] & 31) & 1)) return;	/* not read: values are merged when they are */
			uint8_t *m; size_t nm;
			mf(mc, e->k, e->nk, o->v, o->nv, e->v, e->nv, &m, &nm);
			/* a merger ends where its merge function fails */
			if (m == NULL && t_merge_fails) { for (int j = i; j < t->n; j++) free(t->e[j].v); t->n = i; return; }
			abs_check(m != NULL, "values of one key can be merged");
			free(o->v);
			o->v = m; o->nv = nm;
			return;
		}
		if (c > 0 || c == 0 && df && df(dc, e->k, e->nk, o->v, o->nv, e->v, e->nv) > 0) break;
	}
	abs_check(t->n < TMAX, "model table capacity");
	for (int j = t->n; j > i; j--) t->e[j] = t->e[j - 1];
	t->e[i] = *e;
	t->e[i].v = t_dup(e->v, e->nv);
	t->n++;
}
static struct tbl *t_new(void) {
	struct tbl *t = calloc(1, sizeof(*t));
	t->src = mdl_source();
	t->rd.src = t->src;
	t_all[t_nall++] = t;
	return t;
}
static struct tbl *t_of(const struct mtbl_source *s) {
	int i;
	for (i = 0; i < t_nall; i++) if (t_all[i]->src == s) return t_all[i];
	/* a merger: its table is computed when first read */
	struct mtbl_merger *m = s->clos;
	abs_check(m != NULL && m->src == s, "iteration of a known source");
	struct tbl *t = calloc(1, sizeof(*t));
	t->src = (struct mtbl_source *)s;
	t->m = m;
	t_all[t_nall++] = t;
	for (i = 0; i < m->nsrc; i++) {
		struct tbl *f = t_of(m->srcs[i]);
		for (int j = 0; j < f->n; j++) t_merge(t, &f->e[j], m->opt.merge, m->opt.merge_clos, m->opt.dupsort, m->opt.dupsort_clos);
	}
	return t;
}
static struct mtbl_iter *t_open(const struct mtbl_source *s, int op, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) {
	struct tit *i = calloc(1, sizeof(*i));
	t_open_calls++;
	i->t = t_of(s);
	i->op = op;
	i->n0 = n0; i->k0 = t_dup(k0, n0);
	i->n1 = n1; i->k1 = t_dup(k1, n1);
	while (i->pos < i->t->n && op != MDL_ITER && t_cmp(i->t->e[i->pos].k, i->t->e[i->pos].nk, k0, n0) < 0) i->pos++;
	if (i->t->may_null && op != MDL_ITER && (i->pos >= i->t->n || i->t->may_null > 1 && (i->t->e[i->pos].nk < n0 || memcmp(i->t->e[i->pos].k, k0, n0) != 0)) &&
	    abs_pick("nothing there: no iterator at all", 2)) { t_free(i); return NULL; }
	return mtbl_iter_init(t_seek, t_next, t_free, i);
}
/* filesets over the first f_nreaders tables */
static struct tbl *f_readers[4]; static int f_nreaders; static int f_in[2][4]; static int f_ndup;
static void f_dup(struct mtbl_fileset *f) {
	struct tbl *t = calloc(1, sizeof(*t));
	t->src = f->src;
	for (int i = 0; i < f_nreaders; i++) {
		int in = f->opt.rfilter == NULL || f->opt.rfilter(&f_readers[i]->rd, f->opt.rfilter_clos);
		if (f_ndup < 2) f_in[f_ndup][i] = in;
		if (!in) continue;
		for (int j = 0; j < f_readers[i]->n; j++)
			t_merge(t, &f_readers[i]->e[j], f->opt.merge, f->opt.merge_clos, f->opt.dupsort, f->opt.dupsort_clos);
	}
	f_ndup++;
	t_all[t_nall++] = t;
}
static void mini_init(void) {
	mdl_open_hook = t_open;
	mdl_dup_hook = f_dup;
}
static void mini_done(void) {
	for (int i = 0; i < t_nall; i++) {
		struct tbl *t = t_all[i];
		for (int j = 0; j < t->n; j++) free(t->e[j].v);
		if (t->rd.src) mtbl_source_destroy(&t->src);
		free(t);
	}
}
static void t_triplet(struct tbl *t, const uint8_t *k, size_t nk, uint64_t f, uint64_t l, uint64_t c) {
	uint8_t *v = malloc(30);
	t_put(t, k, nk, v, triplet_pack(v, f, l, c));
}
static void t_pair(struct tbl *t, const uint8_t *k, size_t nk, uint64_t f, uint64_t l) {
	uint8_t *v = malloc(20);
	t_put(t, k, nk, v, pair_pack(v, f, l));
}
/* names of known content */
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *end, size_t *len) {
	const uint8_t *q = p;
	if (p >= end) return wdns_res_out_of_bounds;
	while (q < end && *q != 0) {
		if (*q > 63) return wdns_res_invalid_length_octet;
		q += *q + 1;
	}
	if (q >= end) return wdns_res_name_overflow;
	*len = q + 1 - p;
	return wdns_res_success;
}
#endif

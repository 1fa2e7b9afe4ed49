/* Abstract model of the parts of libmtbl dnstable uses: ownership, lifetime of returned
 * key/value memory, callback plumbing.  Table contents are unknown. */
#include "mtbl_model.h"

mtbl_res (*mdl_next_hook)(struct mdl_raw *, const uint8_t **, size_t *, const uint8_t **, size_t *);
mtbl_res (*mdl_seek_hook)(struct mdl_raw *, const uint8_t *, size_t);
struct mtbl_iter *(*mdl_open_hook)(const struct mtbl_source *, int, const uint8_t *, size_t, const uint8_t *, size_t);
struct mdl_call mdl_calls[16];
int mdl_ncalls;
int mdl_open_never_null;
void (*mdl_dup_hook)(struct mtbl_fileset *);
struct mdl_raw *mdl_last_raw;
struct mtbl_fileset *mdl_last_fileset;
struct mtbl_merger *mdl_last_merger;

/* ---- iterators */
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *clos) {
	struct mtbl_iter *it = malloc(sizeof(*it));
	it->seek = s; it->next = n; it->fre = f; it->clos = clos;
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it) {
	if (*it) {
		if ((*it)->fre) (*it)->fre((*it)->clos);
		free(*it);
		*it = NULL;
	}
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n) {
	if (it == NULL) return mtbl_res_failure;
	return it->seek(it->clos, k, n);
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	if (it == NULL) return mtbl_res_failure;
	return it->next(it->clos, k, nk, v, nv);
}

static void raw_drop(struct mdl_raw *r) {
	if (r->key) abs_vol_free(r->key);
	if (r->val) abs_vol_free(r->val);
	r->key = NULL; r->val = NULL;
}
static mtbl_res raw_next(void *clos, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	struct mdl_raw *r = clos;
	raw_drop(r);
	r->nexts++;
	if (mdl_next_hook) return mdl_next_hook(r, k, nk, v, nv);
	if (abs_nondet("source exhausted")) return mtbl_res_failure;
	r->len_key = abs_fresh("len_key", 0, 1UL << 32);
	r->len_val = abs_fresh("len_val", 0, 1UL << 32);
	r->key = abs_vol("key", r->len_key);
	r->val = abs_vol("val", r->len_val);
	*k = r->key; *nk = r->len_key; *v = r->val; *nv = r->len_val;
	return mtbl_res_success;
}
static mtbl_res raw_seek(void *clos, const uint8_t *k, size_t n) {
	struct mdl_raw *r = clos;
	raw_drop(r);
	r->seeks++;
	if (n > 0) abs_eqbytes(k, k, n);
	if (mdl_seek_hook) return mdl_seek_hook(r, k, n);
	if (abs_nondet("seek fails")) return mtbl_res_failure;
	return mtbl_res_success;
}
static void raw_free(void *clos) {
	struct mdl_raw *r = clos;
	raw_drop(r);
	free(r);
}
struct mtbl_iter *mdl_raw_iter(void) {
	struct mdl_raw *r = calloc(1, sizeof(*r));
	mdl_last_raw = r;
	return mtbl_iter_init(raw_seek, raw_next, raw_free, r);
}

/* ---- sources */
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p,
		mtbl_source_get_range_func r, mtbl_source_free_func f, void *clos) {
	struct mtbl_source *s = malloc(sizeof(*s));
	s->iter = i; s->get = g; s->prefix = p; s->range = r; s->fre = f; s->clos = clos; s->opaque = 0;
	return s;
}
struct mtbl_source *mdl_source(void) {
	struct mtbl_source *s = calloc(1, sizeof(*s));
	s->opaque = 1;
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s) {
	if (*s) {
		if ((*s)->fre) (*s)->fre((*s)->clos);
		free(*s);
		*s = NULL;
	}
}
static struct mtbl_iter *open_(const struct mtbl_source *s, int op, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) {
	if (mdl_ncalls < 16) {
		struct mdl_call *c = &mdl_calls[mdl_ncalls];
		c->op = op; c->k0 = k0; c->n0 = n0; c->k1 = k1; c->n1 = n1; c->src = s;
		mdl_ncalls++;
	}
	if (n0 > 0) abs_eqbytes(k0, k0, n0);	/* key must be readable */
	if (n1 > 0) abs_eqbytes(k1, k1, n1);
	if (mdl_open_hook) return mdl_open_hook(s, op, k0, n0, k1, n1);
	if (!mdl_open_never_null && abs_nondet("source returns no iterator")) return NULL;
	return mdl_raw_iter();
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) {
	if (!s->opaque) return s->iter(s->clos);
	return open_(s, MDL_ITER, NULL, 0, NULL, 0);
}
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) {
	if (!s->opaque) return s->get(s->clos, k, n);
	return open_(s, MDL_GET, k, n, NULL, 0);
}
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) {
	if (!s->opaque) return s->prefix(s->clos, k, n);
	return open_(s, MDL_PREFIX, k, n, NULL, 0);
}
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) {
	if (!s->opaque) return s->range(s->clos, k0, n0, k1, n1);
	return open_(s, MDL_RANGE, k0, n0, k1, n1);
}
mtbl_res mtbl_source_write(const struct mtbl_source *s, struct mtbl_writer *w) { return s->opaque ? mtbl_res_success : mtbl_res_failure; }

/* ---- readers */
struct mtbl_reader *mtbl_reader_init(const char *fname, const struct mtbl_reader_options *o) {
	if (abs_nondet("open fails")) return NULL;
	struct mtbl_reader *r = malloc(sizeof(*r));
	r->src = mdl_source();
	return r;
}
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *o) { return mtbl_reader_init("fd", o); }
void mtbl_reader_destroy(struct mtbl_reader **r) {
	if (*r) { mtbl_source_destroy(&(*r)->src); free(*r); *r = NULL; }
}
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->src; }

/* ---- mergers */
struct mtbl_merger_options *mtbl_merger_options_init(void) { return calloc(1, sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { if (*o) { free(*o); *o = NULL; } }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->merge = f; o->merge_clos = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->dupsort = f; o->dupsort_clos = c; }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o) {
	struct mtbl_merger *m = calloc(1, sizeof(*m));
	m->opt = *o;
	m->src = mdl_source();
	m->src->clos = m;
	mdl_last_merger = m;
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m) {
	if (*m) { mtbl_source_destroy(&(*m)->src); free(*m); *m = NULL; }
}
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) {
	abs_check(s != NULL && abs_alive(s), "a merger input is a live source");
	if (m->nsrc < 8) m->srcs[m->nsrc] = s;
	m->nsrc++;
}
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }

/* ---- filesets */
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { return calloc(1, sizeof(struct mtbl_fileset_options)); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { if (*o) { free(*o); *o = NULL; } }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->merge = f; o->merge_clos = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->dupsort = f; o->dupsort_clos = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rfilter = f; o->rfilter_clos = c; }
void mtbl_fileset_options_set_fname_filter_func(struct mtbl_fileset_options *o, mtbl_fname_filter_func f, void *c) { o->ffilter = f; o->ffilter_clos = c; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *o, uint32_t v) { o->interval = v; }
struct mtbl_fileset *mtbl_fileset_init(const char *fname, const struct mtbl_fileset_options *o) {
	struct mtbl_fileset *f = calloc(1, sizeof(*f));
	f->opt = *o;
	f->fname = fname;
	f->src = mdl_source();
	mdl_last_fileset = f;
	return f;
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *orig, const struct mtbl_fileset_options *o) {
	abs_check(abs_alive(orig), "fileset_dup of a live fileset");
	struct mtbl_fileset *f = calloc(1, sizeof(*f));
	f->opt = *o;
	f->parent = orig;
	f->src = mdl_source();
	mdl_last_fileset = f;
	if (mdl_dup_hook) mdl_dup_hook(f);
	return f;
}
void mtbl_fileset_destroy(struct mtbl_fileset **f) {
	if (*f) { mtbl_source_destroy(&(*f)->src); free(*f); *f = NULL; }
}
void mtbl_fileset_reload(struct mtbl_fileset *f) { f->reloads++; }
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { f->reloads_now++; }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->src; }

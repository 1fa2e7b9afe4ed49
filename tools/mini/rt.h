/* A small in-memory stand-in for libmtbl and libwdns, enough to run the library in a demonstration. */
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <arpa/inet.h>
#include "mtbl.h"
#include "wdns.h"

/* ---- varint */
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t n) { unsigned i = 0; while (i < n && (b[i] & 128)) i++; return i >= n || i >= 10 ? 0 : i + 1; }
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v) { size_t n = 0; while (v >= 128) { p[n++] = v | 128; v >>= 7; } p[n++] = v; return n; }
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return mtbl_varint_encode64(p, v); }
size_t mtbl_varint_decode64(const uint8_t *p, uint64_t *v) { size_t n = 0; *v = 0; do *v |= (uint64_t)(p[n] & 127) << 7 * n; while ((p[n++] & 128) && n < 10); return n; }
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) { uint64_t x; size_t n = mtbl_varint_decode64(p, &x); *v = x; return n; }

/* ---- iterators and sources */
struct mtbl_iter { mtbl_iter_seek_func s; mtbl_iter_next_func n; mtbl_iter_free_func f; void *c; };
struct mtbl_iter *mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *c) { struct mtbl_iter *i = malloc(sizeof(*i)); i->s = s; i->n = n; i->f = f; i->c = c; return i; }
void mtbl_iter_destroy(struct mtbl_iter **i) { if (*i) { if ((*i)->f) (*i)->f((*i)->c); free(*i); *i = NULL; } }
mtbl_res mtbl_iter_seek(struct mtbl_iter *i, const uint8_t *k, size_t n) { return i ? i->s(i->c, k, n) : mtbl_res_failure; }
mtbl_res mtbl_iter_next(struct mtbl_iter *i, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) { return i ? i->n(i->c, k, nk, v, nv) : mtbl_res_failure; }
struct mtbl_source { mtbl_source_iter_func i; mtbl_source_get_func g; mtbl_source_get_prefix_func p; mtbl_source_get_range_func r; mtbl_source_free_func f; void *c; };
struct mtbl_source *mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p, mtbl_source_get_range_func r, mtbl_source_free_func f, void *c) {
	struct mtbl_source *s = malloc(sizeof(*s)); s->i = i; s->g = g; s->p = p; s->r = r; s->f = f; s->c = c; return s; }
void mtbl_source_destroy(struct mtbl_source **s) { if (*s) { if ((*s)->f) (*s)->f((*s)->c); free(*s); *s = NULL; } }
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->i(s->c); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->g(s->c, k, n); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->p(s->c, k, n); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *l, size_t m) { return s->r(s->c, k, n, l, m); }
mtbl_res mtbl_source_write(const struct mtbl_source *s, struct mtbl_writer *w) { return mtbl_res_failure; }

/* ---- tables: sorted arrays */
struct rt_e { uint8_t *k; size_t nk; uint8_t *v; size_t nv; };
struct rt_t { struct mtbl_source *s; int n, cap; struct rt_e *e; };
static int rt_cmp(const uint8_t *a, size_t na, const uint8_t *b, size_t nb) { int r = memcmp(a, b, na < nb ? na : nb); return r ? r : na < nb ? -1 : na > nb; }
static void *rt_dup(const void *p, size_t n) { void *q = malloc(n + 1); memcpy(q, p, n); return q; }
struct rt_i { struct rt_t *t; int pos, op; uint8_t *k0, *k1; size_t n0, n1; uint8_t *k, *v; };
static long rt_nexts, rt_seeks, rt_slow;		/* how often; microseconds every next takes */
static void (*rt_hook)(void);
static mtbl_res rt_next(void *c, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	struct rt_i *i = c;
	rt_nexts++;
	if (rt_hook) rt_hook();
	free(i->k); free(i->v); i->k = i->v = NULL;
	if (i->pos >= i->t->n) return mtbl_res_failure;
	struct rt_e *e = &i->t->e[i->pos];
	if (i->op == 1 && rt_cmp(e->k, e->nk, i->k0, i->n0)) return mtbl_res_failure;
	if (i->op == 2 && (e->nk < i->n0 || memcmp(e->k, i->k0, i->n0))) return mtbl_res_failure;
	if (i->op == 3 && rt_cmp(e->k, e->nk, i->k1, i->n1) > 0) return mtbl_res_failure;
	i->pos++;
	*k = i->k = rt_dup(e->k, e->nk); *nk = e->nk; *v = i->v = rt_dup(e->v, e->nv); *nv = e->nv;
	return mtbl_res_success;
}
static mtbl_res rt_seek(void *c, const uint8_t *k, size_t n) {
	struct rt_i *i = c;
	rt_seeks++;
	free(i->k); free(i->v); i->k = i->v = NULL;
	for (i->pos = 0; i->pos < i->t->n && rt_cmp(i->t->e[i->pos].k, i->t->e[i->pos].nk, k, n) < 0; i->pos++) ;
	return mtbl_res_success;
}
static void rt_ifree(void *c) { struct rt_i *i = c; free(i->k); free(i->v); free(i->k0); free(i->k1); free(i); }
static struct mtbl_iter *rt_open(struct rt_t *t, int op, const uint8_t *k, size_t n, const uint8_t *l, size_t m) {
	struct rt_i *i = calloc(1, sizeof(*i));
	i->t = t; i->op = op;
	if (k) { i->k0 = rt_dup(k, n); i->n0 = n; rt_seek(i, k, n); rt_seeks--; }
	if (l) { i->k1 = rt_dup(l, m); i->n1 = m; }
	return mtbl_iter_init(rt_seek, rt_next, rt_ifree, i);
}
static struct mtbl_iter *rt_iter(void *c) { return rt_open(c, 0, NULL, 0, NULL, 0); }
static struct mtbl_iter *rt_get(void *c, const uint8_t *k, size_t n) { return rt_open(c, 1, k, n, NULL, 0); }
static struct mtbl_iter *rt_prefix(void *c, const uint8_t *k, size_t n) { return rt_open(c, 2, k, n, NULL, 0); }
static struct mtbl_iter *rt_range(void *c, const uint8_t *k, size_t n, const uint8_t *l, size_t m) { return rt_open(c, 3, k, n, l, m); }
static struct rt_t *rt_table(void) { struct rt_t *t = calloc(1, sizeof(*t)); t->s = mtbl_source_init(rt_iter, rt_get, rt_prefix, rt_range, NULL, t); return t; }
static void rt_put(struct rt_t *t, const void *k, size_t nk, const void *v, size_t nv) {
	if (t->n == t->cap) t->e = realloc(t->e, (t->cap = t->cap * 2 + 8) * sizeof(*t->e));
	int i = t->n++;
	for (; i > 0 && rt_cmp(t->e[i - 1].k, t->e[i - 1].nk, k, nk) > 0; i--) t->e[i] = t->e[i - 1];
	t->e[i].k = rt_dup(k, nk); t->e[i].nk = nk; t->e[i].v = rt_dup(v, nv); t->e[i].nv = nv;
}
/* ---- merging: done at once, when the source is asked for */
struct mtbl_merger_options { mtbl_merge_func m; void *mc; mtbl_dupsort_func d; void *dc; };
struct mtbl_merger { struct mtbl_merger_options o; struct rt_t *t; };
static void rt_merge(struct rt_t *t, struct mtbl_merger_options *o, const uint8_t *k, size_t nk, const uint8_t *v, size_t nv) {
	for (int i = 0; i < t->n; i++) {
		struct rt_e *e = &t->e[i];
		if (rt_cmp(e->k, e->nk, k, nk)) continue;
		if (o->m) {
			uint8_t *mv = NULL; size_t mn = 0;
			o->m(o->mc, k, nk, e->v, e->nv, v, nv, &mv, &mn);
			assert(mv != NULL);
			e->v = mv; e->nv = mn;
			return;
		}
		if (o->d) {
			while (i < t->n && rt_cmp(t->e[i].k, t->e[i].nk, k, nk) == 0 && o->d(o->dc, k, nk, t->e[i].v, t->e[i].nv, v, nv) < 0) i++;
			rt_put(t, k, nk, v, nv);
			int j = 0;
			for (j = t->n - 1; j > i; j--) ;
			/* rt_put adds after equal keys: move into place */
			int last = i; while (last + 1 < t->n && rt_cmp(t->e[last + 1].k, t->e[last + 1].nk, k, nk) == 0) last++;
			if (rt_cmp(t->e[last].k, t->e[last].nk, k, nk)) last--;
			struct rt_e x = t->e[last];
			for (j = last; j > i; j--) t->e[j] = t->e[j - 1];
			t->e[i] = x;
			return;
		}
	}
	rt_put(t, k, nk, v, nv);
}
struct mtbl_merger_options *mtbl_merger_options_init(void) { return calloc(1, sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { free(*o); *o = NULL; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->m = f; o->mc = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->d = f; o->dc = c; }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o) { struct mtbl_merger *m = calloc(1, sizeof(*m)); m->o = *o; m->t = rt_table(); return m; }
void mtbl_merger_destroy(struct mtbl_merger **m) { *m = NULL; }
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s) {
	struct mtbl_iter *i = mtbl_source_iter(s);
	const uint8_t *k, *v; size_t nk, nv;
	while (mtbl_iter_next(i, &k, &nk, &v, &nv) == mtbl_res_success) rt_merge(m->t, &m->o, k, nk, v, nv);
	mtbl_iter_destroy(&i);
}
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->t->s; }
/* ---- readers and filesets: the files are these tables */
static struct rt_t *rt_files[16]; static const char *rt_names[16]; static int rt_nfiles;
struct mtbl_reader { int i; };
struct mtbl_fileset_options { struct mtbl_merger_options m; mtbl_reader_filter_func rf; void *rc; mtbl_fname_filter_func ff; void *fc; };
struct mtbl_fileset { struct mtbl_fileset_options o; struct mtbl_merger *m; struct mtbl_source *s; int loaded; };
struct mtbl_reader *mtbl_reader_init(const char *n, const struct mtbl_reader_options *o) { for (int i = 0; i < rt_nfiles; i++) if (!strcmp(n, rt_names[i])) { struct mtbl_reader *r = malloc(sizeof(*r)); r->i = i; return r; } return NULL; }
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *o) { return NULL; }
void mtbl_reader_destroy(struct mtbl_reader **r) { free(*r); *r = NULL; }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return rt_files[r->i]->s; }
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { return calloc(1, sizeof(struct mtbl_fileset_options)); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { free(*o); *o = NULL; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->m.m = f; o->m.mc = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->m.d = f; o->m.dc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rc = c; }
void mtbl_fileset_options_set_fname_filter_func(struct mtbl_fileset_options *o, mtbl_fname_filter_func f, void *c) { o->ff = f; o->fc = c; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *o, uint32_t s) {}
static struct mtbl_merger *rt_load(struct mtbl_fileset *f) {
	struct mtbl_merger *m = mtbl_merger_init(&f->o.m);
	for (int i = 0; i < rt_nfiles; i++) {
		struct mtbl_reader r = { i };
		if (f->o.ff && !f->o.ff(rt_names[i], f->o.fc)) continue;
		if (f->o.rf && !f->o.rf(&r, f->o.rc)) continue;
		mtbl_merger_add_source(m, rt_files[i]->s);
	}
	return m;
}
static struct mtbl_iter *rt_fi(void *c) { return rt_iter(rt_load(c)->t); }
static struct mtbl_iter *rt_fg(void *c, const uint8_t *k, size_t n) { return rt_get(rt_load(c)->t, k, n); }
static struct mtbl_iter *rt_fp(void *c, const uint8_t *k, size_t n) { return rt_prefix(rt_load(c)->t, k, n); }
static struct mtbl_iter *rt_fr(void *c, const uint8_t *k, size_t n, const uint8_t *l, size_t m) { return rt_range(rt_load(c)->t, k, n, l, m); }
struct mtbl_fileset *mtbl_fileset_init(const char *n, const struct mtbl_fileset_options *o) { struct mtbl_fileset *f = calloc(1, sizeof(*f)); f->o = *o; f->s = mtbl_source_init(rt_fi, rt_fg, rt_fp, rt_fr, NULL, f); return f; }
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { return mtbl_fileset_init("", o); }
void mtbl_fileset_destroy(struct mtbl_fileset **f) { *f = NULL; }
void mtbl_fileset_reload(struct mtbl_fileset *f) {}
void mtbl_fileset_reload_now(struct mtbl_fileset *f) {}
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->s; }

/* ---- names, types and rdata */
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *e, size_t *n) {
	const uint8_t *s = p;
	while (p < e) { uint8_t l = *p++; if (l > 63) return wdns_res_invalid_length_octet; if (l == 0) { *n = p - s; return *n > 255 ? wdns_res_name_overflow : wdns_res_success; } p += l; }
	return wdns_res_out_of_bounds;
}
wdns_res wdns_reverse_name(const uint8_t *n, size_t len, uint8_t *r) {
	uint8_t *q = r + len;
	if (len == 0) return wdns_res_failure;
	*--q = 0;
	while (*n) { q -= *n + 1; memcpy(q, n, *n + 1); n += *n + 1; }
	return wdns_res_success;
}
size_t wdns_domain_to_str(const uint8_t *s, size_t n, char *d) {
	char *o = d;
	if (*s == 0) *d++ = '.';
	while (*s) { for (int i = 1; i <= *s; i++) { uint8_t c = s[i]; if (c == '.' || c == '\\') { *d++ = '\\'; *d++ = c; } else if (c > 32 && c < 127) *d++ = c; else d += sprintf(d, "\\%03u", c); } *d++ = '.'; s += *s + 1; }
	*d = 0;
	return d - o + 1;
}
static const struct { const char *s; uint16_t t; } rt_types[] = { {"A",1},{"NS",2},{"CNAME",5},{"SOA",6},{"PTR",12},{"MX",15},{"TXT",16},{"AAAA",28},{"SRV",33},{"DNAME",39},{"DS",43},{"RRSIG",46},{"NSEC",47},{"DNSKEY",48},{"NSEC3",50},{"SVCB",64},{"HTTPS",65},{"ANY",255},{"DLV",32769} };
const char *wdns_rrtype_to_str(uint16_t t) { for (unsigned i = 0; i < sizeof(rt_types) / sizeof(*rt_types); i++) if (rt_types[i].t == t) return rt_types[i].s; return NULL; }
uint16_t wdns_str_to_rrtype(const char *s) { for (unsigned i = 0; i < sizeof(rt_types) / sizeof(*rt_types); i++) if (!strcasecmp(rt_types[i].s, s)) return rt_types[i].t; if (!strncasecmp(s, "TYPE", 4)) return atoi(s + 4); return 0; }
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n) {
	uint8_t b[300]; size_t k = 0, l;
	if (!strcmp(s, ".")) s = "";
	while (*s) {
		l = k++;
		while (*s && *s != '.') { uint8_t c = *s++; if (c == '\\') { if (isdigit(*s)) { c = (s[0] - '0') * 100 + (s[1] - '0') * 10 + s[2] - '0'; s += 3; } else c = *s++; } b[k++] = c; if (k - l > 64 || k > 254) return wdns_res_name_overflow; }
		if (k == l + 1) return wdns_res_parse_error;
		b[l] = k - l - 1;
		if (*s == '.') s++;
	}
	b[k++] = 0;
	n->len = k; n->data = malloc(k); memcpy(n->data, b, k);
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *n) { for (int i = 0; i < n->len; i++) n->data[i] = tolower(n->data[i]); }
wdns_res wdns_str_to_name(const char *s, wdns_name_t *n) { wdns_res r = wdns_str_to_name_case(s, n); if (r == wdns_res_success) wdns_downcase_name(n); return r; }
size_t wdns_skip_name(const uint8_t **p, const uint8_t *e) { const uint8_t *s = *p; while (*p < e && **p) *p += **p + 1; if (*p < e) (*p)++; return *p - s; }
const char *wdns_res_to_str(wdns_res r) { return "wdns error"; }
char *wdns_rdata_to_str(const uint8_t *r, uint16_t n, uint16_t t, uint16_t c) {
	char b[4096];
	if (t == 1 && n == 4) inet_ntop(AF_INET, r, b, 100);
	else if (t == 28 && n == 16) inet_ntop(AF_INET6, r, b, 100);
	else if (t == 2 || t == 5 || t == 12 || t == 39) wdns_domain_to_str(r, n, b);
	else if (t == 15 && n > 2) { int k = sprintf(b, "%u ", r[0] << 8 | r[1]); wdns_domain_to_str(r + 2, n - 2, b + k); }
	else { int k = sprintf(b, "\\# %u ", n); for (int i = 0; i < n && i < 1000; i++) k += sprintf(b + k, "%02X", r[i]); }
	return strdup(b);
}
/* ---- making entries */
struct rt_b { size_t n; uint8_t d[1024]; };
static void B(struct rt_b *b, const void *p, size_t n) { memcpy(b->d + b->n, p, n); b->n += n; }
static void B8(struct rt_b *b, int v) { b->d[b->n++] = v; }
static void BV(struct rt_b *b, uint64_t v) { b->n += mtbl_varint_encode64(b->d + b->n, v); }
static void BN(struct rt_b *b, const char *s) { wdns_name_t n; assert(wdns_str_to_name_case(s, &n) == wdns_res_success); B(b, n.data, n.len); free(n.data); }
static void BR(struct rt_b *b, const char *s) { wdns_name_t n; assert(wdns_str_to_name_case(s, &n) == wdns_res_success); wdns_reverse_name(n.data, n.len, b->d + b->n); b->n += n.len; free(n.data); }
static void rt_val(struct rt_b *v, uint64_t first, uint64_t last, uint64_t count) { v->n = 0; BV(v, first); BV(v, last); BV(v, count); }
/* an RRset with n address records */
static void rt_rrset(struct rt_t *t, const char *name, int type, const char *bail, const void *rd, size_t nrd, uint64_t f, uint64_t l, uint64_t c) {
	struct rt_b k = { 0 }, v;
	B8(&k, 0); BR(&k, name); BV(&k, type); BR(&k, bail); BV(&k, nrd); B(&k, rd, nrd);
	rt_val(&v, f, l, c);
	rt_put(t, k.d, k.n, v.d, v.n);
}
static void rt_rdata(struct rt_t *t, const void *rd, size_t nrd, int type, const char *name, const void *pre, size_t npre, uint64_t f, uint64_t l, uint64_t c) {
	struct rt_b k = { 0 }, v;
	B8(&k, 2); B(&k, rd, nrd); BV(&k, type); BR(&k, name); if (npre) B(&k, pre, npre); B8(&k, nrd & 255); B8(&k, nrd >> 8);
	rt_val(&v, f, l, c);
	rt_put(t, k.d, k.n, v.d, v.n);
}
static void rt_fwd(struct rt_t *t, const char *name, const void *v, size_t n) { struct rt_b k = { 0 }; B8(&k, 1); BN(&k, name); rt_put(t, k.d, k.n, v, n); }
static void rt_rev(struct rt_t *t, const char *name, const void *v, size_t n) { struct rt_b k = { 0 }; B8(&k, 3); BR(&k, name); rt_put(t, k.d, k.n, v, n); }

/* readers: which part of a source they iterate, what they hand on, and what a query of them searches */
#include "q.h"
#include <string.h>
#define KN 700
static int nth, decoded, undec[KN], n_ent, queried_src, queried_fs;
static uint8_t K[KN][2], V[KN][2];
static size_t klen[KN], vlen[KN];
static char token[KN];
static const void *q_arg, *q_src;
static char answer;
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv) {
	abs_check(k == K[decoded] && nk == klen[decoded] && v == V[decoded] && nv == vlen[decoded], "each entry of the source is decoded, in order");
	return undec[decoded++] ? NULL : (struct dnstable_entry *)&token[decoded - 1];
}
struct dnstable_iter *dnstable_query_iter(struct dnstable_query *q, const struct mtbl_source *s) { q_arg = q; q_src = s; queried_src++; return (void *)&answer; }
struct dnstable_iter *dnstable_query_iter_fileset(struct dnstable_query *q, struct mtbl_fileset *f) { q_arg = q; q_src = f; queried_fs++; return (void *)&answer; }
void dnstable_merge_func(void *c, const uint8_t *k, size_t nk, const uint8_t *a, size_t na, const uint8_t *b, size_t nb, uint8_t **m, size_t *nm) { }
static mtbl_res next(struct mdl_raw *r, const uint8_t **k, size_t *nk, const uint8_t **v, size_t *nv) {
	if (nth >= n_ent) return mtbl_res_failure;
	*k = K[nth]; *v = V[nth]; *nk = klen[nth]; *nv = vlen[nth];
	nth++;
	return mtbl_res_success;
}
static int opens, op;
static size_t opn;
static uint8_t opb;
static const struct mtbl_source *ops;
static int gone;
static struct mtbl_iter *open1(const struct mtbl_source *s, int o, const uint8_t *k0, size_t n0, const uint8_t *k1, size_t n1) {
	opens++; op = o; opn = n0; ops = s;
	if (o != MDL_ITER) opb = k0[0];
	gone = abs_pick("the source has nothing there", 2);
	return gone ? NULL : mdl_raw_iter();
}
static void walk(struct dnstable_iter *it) {
	int want = 0;
	if (gone) n_ent = 0;
	for (;;) {
		struct dnstable_entry *e = NULL;
		dnstable_res r = dnstable_iter_next(it, &e);
		while (want < n_ent && undec[want]) want++;
		if (want >= n_ent) { abs_check(r == dnstable_res_failure, "a reader ends where its source ends"); break; }
		abs_check(r == dnstable_res_success && e == (struct dnstable_entry *)&token[want], "every entry which decodes is handed on, in order");
		want++;
	}
	abs_check(nth == n_ent && decoded == n_ent, "a reader reads its source to the end");
	abs_reach("read");
}
static void go(int, int);
static void parts(int setfile) {
	int part = abs_pick("part", 8);
	n_ent = abs_pick("entries", 4);
	static const uint8_t KB[8] = { 0, 1, 2, 3, 4, 253, 254, 255 };
	for (int i = 0; i < n_ent; i++) {
		undec[i] = abs_pick("malformed", 2);
		K[i][0] = KB[(part * 3 + i + (undec[i] ? 5 : 0)) % 8]; K[i][1] = i;
		klen[i] = 1 + (i & 1);
		vlen[i] = undec[i] || i == 2 ? abs_pick("length of value", 2) * 2 : 2;
		V[i][0] = 11 + i;
	}
	go(part, setfile);
}
/* long sources, with long runs of malformed entries */
static void runs(int setfile) {
	static const int P[7][3] = { { 0, 0, 0 }, { 0, 600, 0 }, { 1, 300, 5 }, { 255, 2, 0 }, { 256, 257, 1 }, { 0, 700, 0 }, { 5, 5, 1 } };
	int p = abs_pick("run", 7);
	n_ent = KN;
	for (int i = 0; i < n_ent; i++) {
		undec[i] = p == 6 ? i % 5 != 0 : i >= P[p][0] && i < P[p][0] + P[p][1] || P[p][2] && i % 50 == P[p][2];
		K[i][0] = i >> 8; K[i][1] = i;
		klen[i] = 2; vlen[i] = i % 3;
	}
	go(p & 1 ? 2 : 0, setfile);
	abs_reach("long source");
}
static void go(int part, int setfile) {
	static const uint8_t BYTE[8] = { 0, 0, 1, 2, 3, 254, 253, 255 };
	mdl_next_hook = next;
	mdl_open_hook = open1;
	struct mtbl_source *s = setfile ? NULL : mdl_source();
	struct dnstable_reader *r = setfile ? dnstable_reader_init_setfile("set") : dnstable_reader_init(s);
	abs_check(r != NULL, "a reader");
	struct dnstable_iter *it;
	switch (part) {
	case 0: it = dnstable_reader_iter(r); break;
	case 1: it = dnstable_reader_iter_rrset(r); break;
	case 2: it = dnstable_reader_iter_rrset_names(r); break;
	case 3: it = dnstable_reader_iter_rdata(r); break;
	case 4: it = dnstable_reader_iter_rdata_names(r); break;
	case 5: it = dnstable_reader_iter_time_range(r); break;
	case 6: it = dnstable_reader_iter_source_info(r); break;
	default: it = dnstable_reader_iter_version(r); break;
	}
	abs_check(it != NULL, "an iterator over each part of the source");
	abs_check(opens == 1 && ops == (setfile ? mdl_last_fileset->src : s), "the reader's source is searched once");
	if (part == 0) abs_check(op == MDL_ITER, "reading everything iterates the whole source");
	else {
		abs_check(op == MDL_PREFIX && opn == 1, "reading a kind of entry searches its prefix");
		abs_check(opb == BYTE[part], "each kind of entry is read at its own prefix");
	}
	walk(it);
	dnstable_iter_destroy(&it);
	dnstable_reader_destroy(&r);
	abs_check(r == NULL, "a destroyed reader is gone");
	dnstable_reader_destroy(&r);
	if (s) mtbl_source_destroy(&s);
	abs_noleak();
}
void drv_runs(void) { runs(0); }
void drv_runs_setfile(void) { runs(1); }
void drv_parts(void) { parts(0); }
void drv_parts_setfile(void) { parts(1); }
/* what a reader is made of, and where its queries go */
static void queries(int setfile) {
	static char set[] = "a set", q;
	struct mtbl_source *s = mdl_source();
	struct dnstable_reader *r = setfile ? dnstable_reader_init_setfile(set) : dnstable_reader_init(s);
	struct mtbl_fileset *f = mdl_last_fileset;
	if (setfile) {
		abs_check(f != NULL && f->fname == set, "the reader of a set file opens that file");
		abs_check(f->opt.merge == dnstable_merge_func, "the files of a set are merged");
		abs_check(f->opt.dupsort == NULL && f->opt.rfilter == NULL && f->opt.ffilter == NULL, "no file of a set is left out");
	} else abs_check(f == NULL, "a reader of a source opens no file");
	int n = abs_pick("reloads", 3);
	for (int i = 0; i < n; i++) dnstable_reader_reload_setfile(r);
	if (setfile) abs_check(f->reloads_now == n, "a set file is reloaded when asked, at once");
	struct dnstable_iter *it = dnstable_reader_query(r, (struct dnstable_query *)&q);
	abs_check(it == (void *)&answer && q_arg == &q, "a query of a reader is run once, and its answer handed on");
	abs_check(queried_fs == setfile && queried_src == !setfile, "the files of a set are queried as files");
	abs_check(q_src == (setfile ? (const void *)f : s), "a query searches the reader's source");
	dnstable_reader_destroy(&r);
	abs_check(abs_alive(s), "the source of a reader belongs to its caller");
	mtbl_source_destroy(&s);
	abs_noleak();
	abs_reach("queried");
}
void drv_query(void) { queries(0); }
void drv_query_setfile(void) { queries(1); }

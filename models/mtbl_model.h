#ifndef MTBL_MODEL_H
#define MTBL_MODEL_H
#include <mtbl.h>
#include "abs.h"
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func fre; void *clos; };
struct mtbl_source { mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func prefix;
	mtbl_source_get_range_func range; mtbl_source_free_func fre; void *clos; int opaque; };
struct mtbl_reader { struct mtbl_source *src; };
struct mtbl_merger_options { mtbl_merge_func merge; void *merge_clos; mtbl_dupsort_func dupsort; void *dupsort_clos; };
struct mtbl_merger { struct mtbl_merger_options opt; struct mtbl_source *src; int nsrc; const struct mtbl_source *srcs[8]; };
struct mtbl_fileset_options { mtbl_merge_func merge; void *merge_clos; mtbl_dupsort_func dupsort; void *dupsort_clos;
	mtbl_reader_filter_func rfilter; void *rfilter_clos; mtbl_fname_filter_func ffilter; void *ffilter_clos; uint32_t interval; };
struct mtbl_fileset { struct mtbl_fileset_options opt; struct mtbl_source *src; struct mtbl_fileset *parent; const char *fname; int reloads; int reloads_now; };
enum { MDL_ITER, MDL_GET, MDL_PREFIX, MDL_RANGE };
struct mdl_call { int op; const uint8_t *k0; size_t n0; const uint8_t *k1; size_t n1; const struct mtbl_source *src; };
/* a table: an opaque source; every key and value is unknown */
struct mtbl_source *mdl_source(void);
struct mdl_raw { uint8_t *key, *val; size_t len_key, len_val; int seeks, nexts, frees; int exhausted; };
/* driver overrides (NULL: arbitrary entries) */
extern mtbl_res (*mdl_next_hook)(struct mdl_raw *, const uint8_t **, size_t *, const uint8_t **, size_t *);
extern mtbl_res (*mdl_seek_hook)(struct mdl_raw *, const uint8_t *, size_t);
extern struct mtbl_iter *(*mdl_open_hook)(const struct mtbl_source *, int op, const uint8_t *, size_t, const uint8_t *, size_t);
extern struct mdl_call mdl_calls[16];
extern int mdl_ncalls;
extern void (*mdl_dup_hook)(struct mtbl_fileset *);
extern int mdl_open_never_null;
struct mtbl_iter *mdl_raw_iter(void);
extern struct mdl_raw *mdl_last_raw;
extern struct mtbl_fileset *mdl_last_fileset;
extern struct mtbl_merger *mdl_last_merger;
extern void *abs_vol(const char *, size_t);
extern void abs_vol_free(void *);
#endif

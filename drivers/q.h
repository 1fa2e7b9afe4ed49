/* shared helpers of the query drivers */
#ifndef Q_H
#define Q_H
#include "dec_ref.h"
#include "dnstable-private.h"
#include "../models/mtbl_model.h"
#include <wdns.h>
struct kb { uint8_t b[560]; size_t n; };
static inline void kb_add(struct kb *k, uint8_t c) { k->b[k->n] = c; k->n += 1; }
static inline void kb_bytes(struct kb *k, const uint8_t *p, size_t n) { memcpy(&k->b[k->n], p, n); k->n += n; }
static inline void kb_rrtype(struct kb *k, uint32_t v) { k->n += mtbl_varint_encode32(&k->b[k->n], v); }
static inline struct dnstable_query *q_new(dnstable_query_type t) {
	struct dnstable_query *q = dnstable_query_init(t);
	abs_check(q != NULL, "a query of every type can be created");
	return q;
}
static inline int q_isnorr(const char *s) { return s == NULL || strcasecmp(s, "ANY") == 0 || strcasecmp(s, "TYPE255") == 0 || strcasecmp(s, "ANY-DNSSEC") == 0; }
static inline void q_check_search(int op, const struct kb *k, const char *what) {
	abs_check(mdl_ncalls == 1, "one search of the source per query");
	abs_check(mdl_calls[0].op == op, "the source is searched the right way");
	abs_check(mdl_calls[0].n0 == k->n, "the search key is as long as its parts");
	abs_check(abs_eqbytes(mdl_calls[0].k0, k->b, k->n), what);
}
#endif

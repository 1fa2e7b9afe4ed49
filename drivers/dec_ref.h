/* Reference reading of the entry encoding (dnstable-encoding(5)), used to state what a
 * decoded entry has to say.  It reads the same bytes through the same library contracts. */
#ifndef DEC_REF_H
#define DEC_REF_H
#include "abs.h"
#include <dnstable.h>
#include <mtbl.h>
#include <wdns.h>
#include <stdlib.h>
#include <string.h>
#define OK dnstable_res_success
#define KMAX (1UL << 32)
static int ref_varint32(const uint8_t **p, const uint8_t *end, uint32_t *v) {
	if (*p >= end) return 0;
	size_t l = mtbl_varint_length_packed(*p, (size_t)(end - *p));
	if (l == 0 || l > (size_t)(end - *p) || l > 5) return 0;
	mtbl_varint_decode32(*p, v);
	*p += l;
	return 1;
}
static int ref_varint64(const uint8_t **p, const uint8_t *end, uint64_t *v) {
	if (*p >= end) return 0;
	size_t l = mtbl_varint_length_packed(*p, (size_t)(end - *p));
	if (l == 0 || l > (size_t)(end - *p) || l > 10) return 0;
	mtbl_varint_decode64(*p, v);
	*p += l;
	return 1;
}
static int ref_name(const uint8_t **p, const uint8_t *end, const uint8_t **name, size_t *n, uint8_t *rev) {
	if (wdns_len_uname(*p, end, n) != wdns_res_success) return 0;
	if (wdns_reverse_name(*p, *n, rev) != wdns_res_success) return 0;
	*name = *p;
	*p += *n;
	return 1;
}
static int ref_triplet(const uint8_t *v, size_t n, uint64_t t[3]) {
	const uint8_t *p = v, *end = v + n;
	return ref_varint64(&p, end, &t[0]) && ref_varint64(&p, end, &t[1]) && ref_varint64(&p, end, &t[2]) && (size_t)(p - v) == n;
}
#endif

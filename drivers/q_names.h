/* names of known shape: the driver stands in for the parsing and reversing of libwdns */
#ifndef Q_NAMES_H
#define Q_NAMES_H
#include "q.h"
static uint8_t w_name[64]; static size_t w_len;	/* what the query string parses to */
wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *n) {
	n->len = w_len;
	n->data = malloc(w_len);
	memcpy(n->data, w_name, w_len);
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *n) { }
/* a wire name of up to nl labels of up to ml unknown bytes; returns the number of labels */
static unsigned w_build(const char *what, uint8_t *out, size_t *len, unsigned nl, unsigned ml) {
	unsigned i, j, n = abs_pick(what, nl + 1), o = 0;
	for (i = 0; i < n; i++) {
		unsigned l = 1 + abs_pick("label length", ml);
		out[o++] = l;
		for (j = 0; j < l; j++) out[o++] = abs_fresh("letter", 0, 255);
	}
	out[o++] = 0;
	*len = o;
	return n;
}
/* position of the i-th label */
static size_t w_label(const uint8_t *p, unsigned i) {
	size_t o = 0;
	while (i--) o += p[o] + 1;
	return o;
}
static void w_reverse(const uint8_t *p, size_t n, uint8_t *rev) {
	size_t pos[20], o = 0; unsigned nl = 0, i;
	while (p[o] != 0) { pos[nl++] = o; o += p[o] + 1; }
	o = 0;
	for (i = nl; i > 0; i--) { memcpy(rev + o, p + pos[i - 1], p[pos[i - 1]] + 1); o += p[pos[i - 1]] + 1; }
	rev[o] = 0;
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t len, uint8_t *rev) {
	/* a name which is not the one the query holds is malformed or not: a known shape is required */
	size_t o = 0;
	while (o < len && name[o] != 0 && name[o] <= 63) o += name[o] + 1;
	if (o + 1 != len || name[o] != 0) return wdns_res_parse_error;
	w_reverse(name, len, rev);
	return wdns_res_success;
}
#endif

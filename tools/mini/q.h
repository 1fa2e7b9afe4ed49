/* Helpers for demonstrations: run a query, compare what it lists. */
#include "rt.h"
#include "dnstable.h"
static int bad;
static struct dnstable_query *Q(int type, const char *data, const char *rrtype) {
	struct dnstable_query *q = dnstable_query_init(type);
	if (dnstable_query_set_data(q, data) != dnstable_res_success || (rrtype && dnstable_query_set_rrtype(q, rrtype) != dnstable_res_success)) { puts(dnstable_query_get_error(q)); exit(2); }
	return q;
}
static char out[1 << 16];
static void put(struct dnstable_entry *e) {
	const uint8_t *n; size_t l; char b[2000]; uint16_t t; uint64_t f, z, c;
	size_t o = strlen(out);
	if (dnstable_entry_get_rrname(e, &n, &l) == dnstable_res_success) { wdns_domain_to_str(n, l, b); o += sprintf(out + o, "%s", b); }
	if (dnstable_entry_get_rrtype(e, &t) == dnstable_res_success) o += sprintf(out + o, "/%d", t);
	if (dnstable_entry_get_time_first(e, &f) == dnstable_res_success && dnstable_entry_get_time_last(e, &z) == dnstable_res_success) o += sprintf(out + o, " %lu-%lu", f, z);
	if (dnstable_entry_get_count(e, &c) == dnstable_res_success) o += sprintf(out + o, " x%lu", c);
	sprintf(out + o, "\n");
}
/* the entries of an iterator, one a line */
static const char *all(struct dnstable_iter *it) {
	struct dnstable_entry *e; dnstable_res r;
	out[0] = 0;
	while ((r = dnstable_iter_next(it, &e)) == dnstable_res_success) { put(e); dnstable_entry_destroy(&e); }
	if (r == dnstable_res_timeout) strcat(out, "timeout\n");
	dnstable_iter_destroy(&it);
	return out;
}
static void same(const char *what, const char *got, const char *want) {
	if (strcmp(got, want)) { printf("%s: got\n%swanted\n%s", what, got, want); bad = 1; }
}
static void eq(const char *what, unsigned long got, unsigned long want) {
	if (got != want) { printf("%s: got %lu, wanted %lu\n", what, got, want); bad = 1; }
}

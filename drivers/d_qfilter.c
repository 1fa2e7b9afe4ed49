/* dnstable_query_filter: the decision for every query and entry */
#include "q_names.h"
int memcmp(const void *a, const void *b, size_t n) {
	const uint8_t *p = a, *q = b;
	for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
	return 0;
}
struct dnstable_entry { int which; };
static uint16_t e_rr; static uint64_t e_f, e_l; static uint8_t e_b[64]; static size_t e_nb;
static int no_rr, no_f, no_l, no_b;
dnstable_res dnstable_entry_get_rrtype(struct dnstable_entry *e, uint16_t *v) { if (no_rr) return dnstable_res_failure; *v = e_rr; return dnstable_res_success; }
dnstable_res dnstable_entry_get_time_first(struct dnstable_entry *e, uint64_t *v) { if (no_f) return dnstable_res_failure; *v = e_f; return dnstable_res_success; }
dnstable_res dnstable_entry_get_time_last(struct dnstable_entry *e, uint64_t *v) { if (no_l) return dnstable_res_failure; *v = e_l; return dnstable_res_success; }
dnstable_res dnstable_entry_get_bailiwick(struct dnstable_entry *e, const uint8_t **p, size_t *n) { if (no_b) return dnstable_res_failure; *p = e_b; *n = e_nb; return dnstable_res_success; }
static uint32_t q_rr;
uint16_t wdns_str_to_rrtype(const char *s) { return q_rr; }
static int namerr(uint32_t t) {
	switch (t) {
	case 15: case 33: case 2: case 5: case 39: case 12:	/* MX SRV NS CNAME DNAME PTR */
	case 6: case 64: case 65: case 47: case 17: case 30:	/* SOA SVCB HTTPS NSEC RP NXT */
		return 1;
	}
	return 0;
}
static struct dnstable_query *q;
static struct dnstable_entry e;
static void decide(int want, const char *what) {
	bool pass = abs_bool("stale");
	dnstable_res r = dnstable_query_filter(q, &e, &pass);
	abs_check(r == (want < 0 ? dnstable_res_failure : dnstable_res_success), "filtering fails exactly if the entry lacks a field it needs");
	if (r == dnstable_res_success) abs_check(pass == want, what);
	abs_reach(want < 0 ? "no such field" : want ? "pass" : "fail");
	dnstable_query_destroy(&q);
	abs_noleak();
}
static void entry(void) {
	e_rr = abs_u16("entry rrtype"); e_f = abs_u64("entry time_first"); e_l = abs_u64("entry time_last");
	w_build("entry bailiwick labels", e_b, &e_nb, 2, 2);
	no_rr = abs_choice("no rrtype"); no_f = abs_choice("no time_first"); no_l = abs_choice("no time_last"); no_b = abs_choice("no bailiwick");
}
static const dnstable_query_type T[] = { DNSTABLE_QUERY_TYPE_RRSET, DNSTABLE_QUERY_TYPE_RDATA_NAME, DNSTABLE_QUERY_TYPE_RDATA_IP, DNSTABLE_QUERY_TYPE_RDATA_RAW };
void drv_rrtype(void) {
	int t = abs_pick("query type", 4), dorr = abs_choice("rrtype given");
	entry();
	q = q_new(T[t]);
	if (dorr) {
		q_rr = abs_fresh("wanted rrtype", 1, 65535);
		abs_check(dnstable_query_set_rrtype(q, "type") == dnstable_res_success, "a known rrtype is accepted");
	}
	int need = dorr || t == 1;
	decide(need && no_rr ? -1 : dorr ? e_rr == q_rr : t == 1 ? namerr(e_rr) : 1, "an entry passes if it has the rrtype asked for");
}
static void times(int flags) {
	uint64_t fb = abs_u64("first before"), fa = abs_u64("first after"), lb = abs_u64("last before"), la = abs_u64("last after");
	int dfb = flags & 1, dfa = flags >> 1 & 1, dlb = flags >> 2 & 1, dla = flags >> 3 & 1, want = 1;
	entry();
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	if (dfb) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, &fb, 8);
	if (dfa) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, &fa, 8);
	if (dlb) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, &lb, 8);
	if (dla) dnstable_query_set_filter_parameter(q, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER, &la, 8);
	int ff = dfb && e_f > fb || dfa && e_f < fa, ll = dlb && e_l > lb || dla && e_l < la;
	/* a field which is missing only matters if nothing else rejects the entry first */
	if ((dfb || dfa) && no_f) want = -1;
	else if (ff) want = 0;
	else if ((dlb || dla) && no_l) want = -1;
	else if (ll) want = 0;
	decide(want, "an entry passes if its times are within the fence, bounds included");
}
void drv_times(void) { times(abs_pick("flags", 16)); }
void drv_bailiwick(void) {
	uint8_t bw[64], rev[64]; size_t nb;
	int clear = abs_choice("cleared again");
	entry();
	w_build("bailiwick labels", bw, &nb, 2, 2);
	memcpy(w_name, bw, nb); w_len = nb;
	int t = abs_pick("query type", 4);
	q = q_new(T[t]);
	abs_check(dnstable_query_set_bailiwick(q, "bailiwick") == (t == 0 ? dnstable_res_success : dnstable_res_failure), "only RRset queries have a bailiwick");
	if (t != 0) { dnstable_query_destroy(&q); abs_noleak(); return; }
	if (clear) abs_check(dnstable_query_set_bailiwick(q, NULL) == dnstable_res_success, "a bailiwick can be cleared");
	int same = e_nb == nb && memcmp(e_b, bw, nb) == 0;
	decide(clear ? 1 : no_b ? -1 : same, "an entry passes if it has the bailiwick asked for");
}
/* setters: what is cleared no longer filters, bad parameters are refused */
void drv_cleared(void) {
	static const dnstable_filter_parameter_type P[] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
	uint64_t v = abs_u64("bound");
	int p = abs_pick("parameter", 4);
	entry();
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	abs_check(dnstable_query_set_filter_parameter(q, P[p], &v, 8) == dnstable_res_success, "a time bound is accepted");
	abs_check(dnstable_query_set_filter_parameter(q, P[p], NULL, 8) == dnstable_res_success, "a time bound can be cleared");
	size_t n = abs_size("parameter length");
	abs_assume(n != 8);
	abs_check(dnstable_query_set_filter_parameter(q, P[p], &v, n) == dnstable_res_failure, "a parameter of the wrong length is refused");
	int other = abs_i32("other parameter");
	abs_assume(other != P[0] && other != P[1] && other != P[2] && other != P[3]);
	abs_check(dnstable_query_set_filter_parameter(q, other, &v, 8) == dnstable_res_failure, "an unknown parameter is refused");
	q_rr = abs_fresh("wanted rrtype", 1, 65535);
	dnstable_query_set_rrtype(q, "type");
	static const char *const none[] = { NULL, "ANY", "any", "ANY-DNSSEC", "TYPE255" };
	int c = abs_pick("clearing rrtype", 5);
	abs_check(dnstable_query_set_rrtype(q, none[c]) == dnstable_res_success, "an rrtype can be cleared");
	decide(1, "what was cleared no longer filters");
}
/* clearing one time bound leaves the others */
static void left(int clear) {
	static const dnstable_filter_parameter_type P[] = { DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER, DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE, DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER };
	uint64_t v[4] = { abs_u64("first before"), abs_u64("first after"), abs_u64("last before"), abs_u64("last after") };
	int i, late = abs_choice("cleared after all are set");
	e_f = abs_u64("entry time_first"); e_l = abs_u64("entry time_last");
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	for (i = 0; i < 4; i++) {
		dnstable_query_set_filter_parameter(q, P[i], &v[i], 8);
		if (i == clear && !late) dnstable_query_set_filter_parameter(q, P[i], NULL, 8);
	}
	if (late) dnstable_query_set_filter_parameter(q, P[clear], NULL, 8);
	decide(!(clear != 0 && e_f > v[0] || clear != 1 && e_f < v[1] || clear != 2 && e_l > v[2] || clear != 3 && e_l < v[3]), "clearing one time bound leaves the others in force");
}
void drv_left(void) { left(abs_pick("cleared", 4)); }

/* histories of settings: the last one counts, refused ones report an error */
#include "q.h"
static struct dnstable_query *q;
static struct mtbl_source *src;
static struct dnstable_iter *it;
static int name(const char *s, wdns_name_t *n) {
	n->data = NULL;
	if (wdns_str_to_name_case(s, n) != wdns_res_success) return 0;
	wdns_downcase_name(n);
	return 1;
}
static void err(void) {
	const char *m = dnstable_query_get_error(q);
	abs_check(m != NULL && strlen(m) > 0, "a refused setting leaves an error message");
	abs_reach("refused");
}
static void any(const char *what) {	/* some earlier setting, accepted or not */
	if (dnstable_query_set_data(q, abs_str(what)) != dnstable_res_success) err();
}
static void done(void) {
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	abs_check(q == NULL, "a destroyed query is no more");
	mtbl_source_destroy(&src);
}
static void data(dnstable_query_type t, int type, int rev) {
	static struct kb k;
	wdns_name_t n;
	uint8_t buf[256];
	const char *s = abs_str("last name");
	q = q_new(t);
	int h = abs_pick("earlier", 3);
	if (h >= 1) any("earlier name");
	if (h >= 2 && abs_choice("cleared")) abs_check(dnstable_query_set_data(q, NULL) == dnstable_res_success, "the data can be cleared");
	int ok = name(s, &n);
	abs_check(dnstable_query_set_data(q, s) == (ok ? dnstable_res_success : dnstable_res_failure), "a name is accepted if it parses, whatever was set before");
	if (!ok) { err(); done(); return; }
	abs_assume(n.data[0] != 1 && (n.len < 3 || n.data[n.len - 3] != 1));
	src = mdl_source();
	mdl_ncalls = 0;
	it = dnstable_query_iter(q, src);
	k.n = 0;
	kb_add(&k, type);
	if (rev) {
		if (wdns_reverse_name(n.data, n.len, buf) != wdns_res_success) { abs_check(it == NULL, "no search for a bad name"); free(n.data); done(); return; }
		kb_bytes(&k, buf, n.len);
	} else kb_bytes(&k, n.data, n.len);
	abs_check(it != NULL, "a query with a name can be run");
	q_check_search(MDL_PREFIX, &k, "the last name set is searched");
	abs_reach("last name searched");
	free(n.data);
	done();
}
void drv_rrset_name(void) { data(DNSTABLE_QUERY_TYPE_RRSET, 0, 1); }
void drv_rdata_name(void) { data(DNSTABLE_QUERY_TYPE_RDATA_NAME, 2, 0); }
void drv_raw(void) {
	static struct kb k;
	static const char *const bad[] = { "0", "0g", "zz" };
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	int h = abs_pick("earlier", 4);
	if (h == 1) abs_check(dnstable_query_set_data(q, "0a0b0c") == dnstable_res_success, "hex digits are accepted");
	if (h == 2) {
		abs_check(dnstable_query_set_data(q, "0a0b0c") == dnstable_res_success, "hex digits are accepted");
		abs_check(dnstable_query_set_data(q, NULL) == dnstable_res_success, "the data can be cleared");
	}
	if (h == 3) {
		abs_check(dnstable_query_set_data(q, bad[abs_pick("bad", 3)]) == dnstable_res_failure, "what is not hexadecimal is refused");
		err();
	}
	abs_check(dnstable_query_set_data(q, "10Ff") == dnstable_res_success, "hex digits are accepted");
	src = mdl_source();
	mdl_ncalls = 0;
	it = dnstable_query_iter(q, src);
	k.n = 0; kb_add(&k, 2); kb_add(&k, 0x10); kb_add(&k, 0xff);
	abs_check(it != NULL, "a query with rdata can be run");
	q_check_search(MDL_PREFIX, &k, "the last rdata set is searched");
	abs_reach("last rdata searched");
	done();
}
void drv_version(void) {
	static struct kb k;
	static const char *const T[] = { "rrset", "rrset_name", "rdata", "rdata_name" };
	q = q_new(DNSTABLE_QUERY_TYPE_VERSION);
	static const uint8_t N[] = { 0, 1, 2, 3 };
	int a = abs_pick("type", 4), b = abs_pick("type again", 4), h = abs_pick("earlier", 3);
	if (h >= 1) abs_check(dnstable_query_set_data(q, T[a]) == dnstable_res_success, "an entry type is accepted");
	if (h == 2) { abs_check(dnstable_query_set_data(q, "nonsense") == dnstable_res_failure, "what is no entry type is refused"); err(); }
	abs_check(dnstable_query_set_data(q, T[b]) == dnstable_res_success, "an entry type is accepted");
	int clear = abs_choice("cleared");
	if (clear) abs_check(dnstable_query_set_data(q, NULL) == dnstable_res_success, "the data can be cleared");
	src = mdl_source();
	mdl_ncalls = 0;
	it = dnstable_query_iter(q, src);
	k.n = 0; kb_add(&k, 0xff); if (!clear) kb_add(&k, N[b]);
	abs_check(it != NULL, "a version query can be run");
	q_check_search(MDL_PREFIX, &k, "the last entry type set is searched");
	done();
}
void drv_nodata(void) {
	int t = abs_choice("time range");
	q = q_new(t ? DNSTABLE_QUERY_TYPE_TIME_RANGE : DNSTABLE_QUERY_TYPE_SOURCE_INFO);
	abs_check(dnstable_query_set_data(q, "x") == dnstable_res_failure, "data is refused where there is none to search for");
	err();
	done();
}
/* errors: the message is there whatever failed, and is replaced by the next */
static int known;
uint16_t wdns_str_to_rrtype(const char *s) { return known; }
void drv_errors(void) {
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	abs_check(dnstable_query_get_error(q) != NULL, "there is a message before any error");
	known = 0;
	for (int i = 0; i < 2; i++) {
		switch (abs_pick("which", 4)) {
		case 0: abs_check(dnstable_query_set_rrtype(q, "BOGUS") == dnstable_res_failure, "an unknown rrtype is refused"); err(); break;
		case 1: if (dnstable_query_set_bailiwick(q, abs_str("bailiwick")) != dnstable_res_success) err(); break;
		case 2: any("name"); break;
		case 3: { uint64_t v = 0; abs_check(dnstable_query_set_filter_parameter(q, 9999, &v, 8) == dnstable_res_failure, "an unknown parameter is refused"); err(); break; }
		}
	}
	done();
}
/* a refused rrtype leaves the previous one, a replaced one is gone */
struct dnstable_entry { uint32_t rr; };
dnstable_res dnstable_entry_get_rrtype(struct dnstable_entry *e, uint16_t *rr) { *rr = e->rr; return dnstable_res_success; }
void drv_rrtype(void) {
	struct dnstable_entry e;
	bool pass;
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	uint16_t a = abs_fresh("first rrtype", 1, 65535), b = abs_fresh("second rrtype", 1, 65535);
	known = a; dnstable_query_set_rrtype(q, "first");
	int bad = abs_choice("second is unknown");
	known = bad ? 0 : b;
	abs_check(dnstable_query_set_rrtype(q, "second") == (bad ? dnstable_res_failure : dnstable_res_success), "an rrtype is accepted if it is known");
	e.rr = abs_u16("entry rrtype");
	uint16_t want = bad ? a : b;
	int yes = e.rr == want;
	abs_check(dnstable_query_filter(q, &e, &pass) == dnstable_res_success, "filtering works");
	abs_check(pass == yes, "the last rrtype accepted filters");
	abs_reach(yes ? "pass" : "fail");
	done();
}

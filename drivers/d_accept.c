/* which entries a query accepts by rrtype and bailiwick */
#define K_MAX 66000
#include "one.h"
static struct dnstable_query *q;
static struct dnstable_iter *it;
static struct mtbl_source *src;
static void start(void) {
	mdl_open_hook = op;
	src = mdl_source();
	it = dnstable_query_iter(q, src);
	abs_check(it != NULL, "an iterator");
}
static void finish(int want, const char *what) {
	struct dnstable_entry *e = NULL;
	dnstable_res r = dnstable_iter_next(it, &e);
	abs_check(r == (want ? dnstable_res_success : dnstable_res_failure), what);
	if (r == dnstable_res_success) free(e);
	abs_reach(want ? "accepted" : "rejected");
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
	abs_noleak();
}
static int given(void) {
	q_rr = 0;
	if (!abs_pick("rrtype given", 2)) return 0;
	q_rr = abs_fresh("wanted rrtype", 1, 65535);
	abs_assume(q_rr != 255);
	abs_check(dnstable_query_set_rrtype(q, "type") == dnstable_res_success, "a known rrtype is accepted");
	return 1;
}
void drv_rrset(void) {
	uint8_t bw[64], brev[64]; size_t nb = 0;
	int wild = abs_pick("wildcard", 2), rr, b;
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	/* a bailiwick, a name or a wildcard */
	b = abs_pick("bailiwick given", 2);
	if (b) {
		w_build("bailiwick labels", bw, &nb, 2, 2);
		memcpy(w_name, bw, nb); w_len = nb;
		abs_check(dnstable_query_set_bailiwick(q, "bailiwick") == dnstable_res_success, "a bailiwick is accepted");
		w_reverse(bw, nb, brev);
	}
	if (wild) { w_name[0] = 1; w_name[1] = '*'; w_name[2] = 0; w_len = 3; }
	else { w_name[0] = 0; w_len = 1; }
	dnstable_query_set_data(q, "name");
	rr = wild ? given() : 0;	/* otherwise the search key selects the rrtype */
	K[0] = 0; nk = 1;
	if (wild) k_name("owner labels", 1, 2); else K[nk++] = 0;
	k_rrtype();
	size_t at = nk;
	k_name("entry bailiwick labels", 2, 2);
	size_t blen = nk - at;
	K[nk++] = 1; K[nk++] = abs_fresh("rdata", 0, 255);
	int want = 1;
	if (rr && k_rr != q_rr) want = 0;
	if (b && (blen != nb || memcmp(K + at, brev, nb) != 0)) want = 0;
	start();
	finish(want, "an RRset is a result exactly if it has the rrtype and the bailiwick asked for");
}
static int namerr(uint32_t t) {
	switch (t) {
	case 15: case 33: case 2: case 5: case 39: case 12:	/* MX SRV NS CNAME DNAME PTR */
	case 6: case 64: case 65: case 47: case 17: case 30:	/* SOA SVCB HTTPS NSEC RP NXT */
		return 1;
	}
	return 0;
}
static int long_rdata;
static void rdata_entry(void) {
	size_t at;
	K[0] = 2; nk = 1;
	k_name("rdata labels", 1, 2);
	if (long_rdata) {
		static const int L[] = { 127, 128, 250, 255, 256, 300, 4000, 32700, 32768, 40000, 65000 };
		nk += L[abs_pick("much more rdata", 11)];
		for (size_t i = 0; i < 8; i++) K[nk++] = abs_fresh("rdata", 0, 255);
	} else if (abs_pick("more rdata", 2)) K[nk++] = abs_fresh("rdata", 0, 255);
	at = nk;
	k_rrtype();
	k_name("owner labels", 1, 2);
	K[nk++] = (at - 1) & 255; K[nk++] = (at - 1) >> 8;
}
void drv_rdata_name(void) {
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_NAME);
	if (abs_pick("wildcard", 2)) { w_name[0] = 1; w_name[1] = '*'; w_name[2] = 0; w_len = 3; }
	else { w_name[0] = 0; w_len = 1; }
	dnstable_query_set_data(q, "name");
	int rr = given();
	rdata_entry();
	start();
	finish(rr ? k_rr == q_rr : namerr(k_rr), rr ? "an rdata name entry is a result if it has the rrtype asked for" : "an rdata name entry is a result if its rdata starts with a name");
}
void drv_rdata_raw(void) {
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	dnstable_query_set_data(q, "00");
	int rr = given();
	rdata_entry();
	start();
	finish(!rr || k_rr == q_rr, "a raw rdata entry is a result if it has the rrtype asked for");
}
/* the same of entries with long rdata */
void drv_rdata_name_long(void) { long_rdata = 1; drv_rdata_name(); abs_reach("long rdata"); }
void drv_rdata_raw_long(void) { long_rdata = 1; drv_rdata_raw(); abs_reach("long rdata"); }

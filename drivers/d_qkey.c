/* search keys of queries: every name, every rrtype */
#include "q.h"
static struct dnstable_query *q;
static struct mtbl_source *src;
static struct dnstable_iter *it;
static uint32_t rr; static int dorr;

static void rrtype(void) {
	dorr = 0;
	if (abs_choice("rrtype given")) {
		const char *s = abs_str("rrtype");
		dnstable_res r = dnstable_query_set_rrtype(q, s);
		if (q_isnorr(s)) abs_check(r == dnstable_res_success, "ANY clears the rrtype");
		else {
			rr = wdns_str_to_rrtype(s);
			dorr = rr != 0;
			abs_check(r == (rr != 0 ? dnstable_res_success : dnstable_res_failure), "an rrtype is accepted if its mnemonic is known");
		}
		abs_assume(!dorr || rr != 255);
	}
}
static void run(void) {
	src = mdl_source();
	mdl_ncalls = 0;
	it = dnstable_query_iter(q, src);
}
static void done(void) {
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
	abs_noleak();
}
static int name(const char *s, int cs, wdns_name_t *n) {
	n->data = NULL;
	if (wdns_str_to_name_case(s, n) != wdns_res_success) return 0;
	if (!cs) wdns_downcase_name(n);
	return 1;
}
void drv_rrset(void) {
	wdns_name_t n, b;
	uint8_t rev[256], brev[256];
	const char *s = abs_str("owner"), *bs = abs_str("bailiwick");
	int cs = abs_choice("case sensitive"), dob = 0;
	q = q_new(DNSTABLE_QUERY_TYPE_RRSET);
	dnstable_query_set_case_sensitive(q, cs);
	int ok = name(s, cs, &n);
	abs_check(dnstable_query_set_data(q, s) == (ok ? dnstable_res_success : dnstable_res_failure), "an owner name is accepted if it parses");
	if (!ok) { dnstable_query_destroy(&q); abs_noleak(); return; }
	abs_assume(n.data[0] != 1 && (n.len < 3 || n.data[n.len - 3] != 1));
	rrtype();
	b.data = NULL;
	if (abs_choice("bailiwick given")) {
		dob = name(bs, 0, &b);
		if (dob) abs_assume(wdns_reverse_name(b.data, b.len, brev) == wdns_res_success);
		abs_check(dnstable_query_set_bailiwick(q, bs) == (dob ? dnstable_res_success : dnstable_res_failure), "a bailiwick is accepted if it parses");
	}
	run();
	if (wdns_reverse_name(n.data, n.len, rev) != wdns_res_success) {
		abs_check(it == NULL, "no iterator for a name which cannot be reversed");
		abs_reach("irreversible");
	} else {
		struct kb k = { .n = 0 };
		kb_add(&k, 0);
		kb_bytes(&k, rev, n.len);
		if (dorr) { kb_rrtype(&k, rr); if (dob) kb_bytes(&k, brev, b.len); }
		q_check_search(MDL_PREFIX, &k, "an RRset query searches for its reversed owner name, rrtype and bailiwick");
		abs_reach("rrset searched");
	}
	free(n.data);
	free(b.data);
	done();
}
static int standalone(uint32_t t) { return t == 15 || t == 33 || t == 2 || t == 5 || t == 39 || t == 12; }
void drv_rdata_name(void) {
	wdns_name_t n;
	const char *s = abs_str("rdata name");
	int cs = abs_choice("case sensitive");
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_NAME);
	dnstable_query_set_case_sensitive(q, cs);
	int ok = name(s, cs, &n);
	abs_check(dnstable_query_set_data(q, s) == (ok ? dnstable_res_success : dnstable_res_failure), "an rdata name is accepted if it parses");
	if (!ok) { dnstable_query_destroy(&q); abs_noleak(); return; }
	abs_assume(n.data[0] != 1 && (n.len < 3 || n.data[n.len - 3] != 1));
	rrtype();
	run();
	struct kb k = { .n = 0 };
	kb_add(&k, 2);
	kb_bytes(&k, n.data, n.len);
	if (dorr && standalone(rr)) kb_rrtype(&k, rr);
	q_check_search(MDL_PREFIX, &k, "an rdata name query searches for its name, and the rrtype where the name is all of the rdata");
	abs_reach("rdata name searched");
	free(n.data);
	done();
}
#include "libmy/hex_decode.h"
void drv_rdata_raw(void) {
	static const unsigned longer[] = { 34, 80, 160, 520, 600 };
	char s[640];
	unsigned i, n = abs_pick("length", 10);
	uint8_t *r = NULL; size_t nr = 0;
	if (n < 5) for (i = 0; i < n; i++) { static const char d[] = "4bDx"; s[i] = d[abs_pick("digit", 4)]; }
	else { n = longer[n - 5]; for (i = 0; i < n; i++) s[i] = "4bD0123456789aEf"[i % 16]; }
	s[n] = 0;
	q = q_new(DNSTABLE_QUERY_TYPE_RDATA_RAW);
	if (!hex_decode(s, &r, &nr)) {
		abs_check(dnstable_query_set_data(q, s) == dnstable_res_failure, "raw rdata which is not hexadecimal is refused");
		dnstable_query_destroy(&q);
		abs_noleak();
		return;
	}
	abs_check(dnstable_query_set_data(q, s) == dnstable_res_success, "hexadecimal raw rdata is accepted");
	rrtype();
	run();
	struct kb k = { .n = 0 };
	kb_add(&k, 2);
	kb_bytes(&k, r, nr);
	q_check_search(MDL_PREFIX, &k, "a raw rdata query searches for its bytes");
	abs_reach("raw rdata searched");
	free(r);
	done();
}
void drv_meta(void) {
	static const char *const names[] = { "rrset", "rrset_name", "rdata", "rdata_name" };
	struct kb k = { .n = 0 };
	int t = abs_pick("meta query", 3);
	q = q_new(t == 0 ? DNSTABLE_QUERY_TYPE_TIME_RANGE : t == 1 ? DNSTABLE_QUERY_TYPE_SOURCE_INFO : DNSTABLE_QUERY_TYPE_VERSION);
	kb_add(&k, t == 0 ? 254 : t == 1 ? 253 : 255);
	if (t < 2) abs_check(dnstable_query_set_data(q, "rrset") == dnstable_res_failure, "only version queries take an entry type");
	else {
		int v = abs_pick("version type", 6);
		if (v < 4) {
			abs_check(dnstable_query_set_data(q, names[v]) == dnstable_res_success, "the four versioned entry types are accepted");
			kb_add(&k, v);
		} else if (v == 4) {
			static const char *const bad[] = { "time_range", "version", "source_info", "bogus" };
			int b = abs_pick("not versioned", 4);
			abs_check(dnstable_query_set_data(q, bad[b]) == dnstable_res_failure, "other entry types have no version");
		}
	}
	run();
	q_check_search(MDL_PREFIX, &k, "a meta query searches for its type byte and entry type");
	abs_reach("meta searched");
	done();
}

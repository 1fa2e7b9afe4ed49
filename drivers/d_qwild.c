/* wildcard queries: names of every shape up to three labels of up to two bytes */
#include "q_names.h"
static int is_wild(size_t at) { return w_name[at] == 1 && (w_name[at + 1] == '*' || w_name[at + 1] == '+'); }
static void wild(dnstable_query_type t, int first_is_left) {
	struct dnstable_query *q = q_new(t);
	struct mtbl_source *src = mdl_source();
	uint8_t rev[64];
	unsigned nl = w_build("labels", w_name, &w_len, 3, 2);
	int rrset = t == DNSTABLE_QUERY_TYPE_RRSET, left, right, dorr = abs_choice("rrtype given");
	struct kb k = { .n = 0 };
	if (nl == 0) abs_stop();
	left = is_wild(0);
	right = is_wild(w_label(w_name, nl - 1));
	if (left && right && nl > 1) abs_stop();	/* only one end may be a wildcard */
	dnstable_query_set_data(q, "name");
	if (dorr) dnstable_query_set_rrtype(q, "NS");
	if (dorr && wdns_str_to_rrtype("NS") != 2) abs_stop();
	mdl_ncalls = 0; mdl_open_never_null = 1;
	struct dnstable_iter *it = dnstable_query_iter(q, src);
	abs_check(it != NULL, "a wildcard query yields an iterator");
	if (left && right) {
		kb_add(&k, rrset ? 0 : 2);
		q_check_search(MDL_PREFIX, &k, "a lone wildcard searches all of the entries");
		abs_reach("lone wildcard");
	} else if (left) {
		w_reverse(w_name + 2, w_len - 2, rev);
		kb_add(&k, rrset ? 0 : 3);
		kb_bytes(&k, rev, w_len - 3);
		q_check_search(MDL_PREFIX, &k, "a left wildcard searches for the reversed name without its wildcard");
		abs_reach("left wildcard");
	} else if (right) {
		kb_add(&k, rrset ? 1 : 2);
		kb_bytes(&k, w_name, w_len - 3);
		q_check_search(MDL_PREFIX, &k, "a right wildcard searches for the name without its wildcard");
		abs_reach("right wildcard");
	} else {
		w_reverse(w_name, w_len, rev);
		kb_add(&k, rrset ? 0 : 2);
		kb_bytes(&k, rrset ? rev : w_name, w_len);
		if (dorr) kb_add(&k, 2);
		q_check_search(MDL_PREFIX, &k, "a name without a wildcard label is searched exactly");
		abs_reach("no wildcard");
	}
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&src);
	abs_noleak();
}
void drv_rrset(void) { wild(DNSTABLE_QUERY_TYPE_RRSET, 1); }
void drv_rdata(void) { wild(DNSTABLE_QUERY_TYPE_RDATA_NAME, 0); }

/* wildcard lookups through the name index: which entries a query yields, and in which order */
#define TMAX 20
#include "mini.h"
struct dnstable_entry { uint8_t k[40]; size_t n; };
struct dnstable_entry *dnstable_entry_decode(const uint8_t *k, size_t n, const uint8_t *v, size_t m) {
	if (m == 1) return NULL;	/* stands for what cannot be decoded */
	struct dnstable_entry *e = malloc(sizeof(*e));
	abs_check(n <= sizeof(e->k), "key capacity");
	memcpy(e->k, k, n);
	e->n = n;
	return e;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { free(*e); *e = NULL; }
static uint32_t q_rr;
uint16_t wdns_str_to_rrtype(const char *s) { return q_rr; }
/* unions in this driver list rrtypes one per byte; an empty one is unknown */
bool rrtype_test(dnstable_entry_type t, uint16_t rr, const uint8_t *m, size_t n) {
	if (n == 0) return true;
	abs_check(rr == q_rr, "the rrtype of the query is looked for");
	for (size_t i = 0; i < n; i++) if (m[i] == rr) return true;
	return false;
}
static const uint8_t N[5][8] = { { 1, 'a', 0 }, { 1, 'a', 1, 'b', 0 }, { 1, 'a', 1, 'c', 1, 'd', 0 }, { 1, 'a', 1, 'e', 0 }, { 1, 'a', 2, 'f', 'g', 0 } };	/* in index order */
static const uint8_t OUT[] = { 1, 'b', 0 };
static const size_t L[5] = { 3, 5, 7, 5, 6 };
static uint8_t mk[10][40]; static size_t mn[10];
static void main_key(int i, int rrset, int n, int type) {
	struct kb k = { .n = 0 };
	uint8_t rev[64];
	w_reverse(N[n], L[n], rev);
	kb_add(&k, rrset ? 0 : 2);
	kb_bytes(&k, rev, L[n]);
	if (!rrset && type == 6) kb_add(&k, 0);
	kb_add(&k, type);
	kb_add(&k, 0);
	if (rrset) { kb_add(&k, 1); kb_add(&k, 9); }
	else { kb_add(&k, L[n] + (type == 6)); kb_add(&k, 0); }
	memcpy(mk[i], k.b, k.n);
	mn[i] = k.n;
}
static uint8_t ik[7][12];
static void index_key(struct tbl *t, int i, int rrset, const uint8_t *name, size_t n, int have, int bits, const int *types) {
	uint8_t *v = malloc(4); size_t nv = 0;
	ik[i][0] = rrset ? 1 : 3;
	if (n) memcpy(&ik[i][1], name, n);
	if (have) {
		if (bits & 1) v[nv++] = types[0];
		if (bits & 2) v[nv++] = types[1];
		if (nv == 0) v[nv++] = 99;
	}
	t_put(t, ik[i], n + 1, v, nv);
}
static void indirect(int rrset, int bw, int absent) {
	static const int TY[2][2] = { { 6, 2 }, { 1, 28 } };
	const int *types = TY[rrset];
	static const int SETS[3][4] = { { 0, 1, 0, 1 }, { 0, 1, 2, 3 }, { 0, 3, 0, 3 } };
	int bits[5], i, j, k = 0;
	mini_init();
	struct tbl *t = t_new(), *x = t;
	int s = absent ? 5 * abs_pick("which entries exist", 4) : abs_pick("which entries exist", 16);
	bits[0] = SETS[0][s & 1]; bits[1] = SETS[1][s >> 1 & 3]; bits[2] = SETS[2][s >> 3]; bits[3] = 1; bits[4] = 2;
	int with = abs_pick("rrtype unions", 2), plus = abs_pick("single label", 2), given = abs_pick("rrtype asked for", 3), bad = !bw && abs_pick("undecodable entry", 2);
	/* one table holds it all: the index and the entries differ by their first byte */
	struct tbl *ix = t_new();
	for (i = 0; i < 5; i++) index_key(ix, i, rrset, N[i], L[i], with, bits[i], types);
	index_key(ix, 5, rrset, NULL, 0, with, 0, types);
	index_key(ix, 6, rrset, OUT, sizeof(OUT), with, 0, types);
	for (i = 0; i < 5; i++) for (j = 0; j < 2; j++) if (bits[i] >> j & 1) {
		uint8_t *v = malloc(2);
		main_key(k, rrset, i, types[j]);
		t_put(t, mk[k], mn[k], v, bad && i == 1 && j == 0 ? 1 : 2);
		k++;
	}
	struct mtbl_source *both = mdl_source();
	struct mtbl_merger m = { .src = both, .nsrc = 2, .srcs = { t->src, ix->src } };
	both->clos = &m;
	t_of(both)->may_null = 2 * absent;
	struct dnstable_query *q = q_new(rrset ? DNSTABLE_QUERY_TYPE_RRSET : DNSTABLE_QUERY_TYPE_RDATA_NAME);
	static const uint8_t RW[] = { 1, 'a', 1, '*', 0 }, LW[] = { 1, '*', 1, 'a', 0 };
	memcpy(w_name, rrset ? RW : LW, 5); w_len = 5;
	if (plus) w_name[rrset ? 3 : 1] = '+';
	abs_check(dnstable_query_set_data(q, "name") == dnstable_res_success, "a name is accepted");
	if (given) { q_rr = types[given - 1]; dnstable_query_set_rrtype(q, "type"); }
	if (bw) { memcpy(w_name, OUT, 3); w_len = 3; dnstable_query_set_bailiwick(q, "bailiwick"); }
	struct dnstable_iter *it = dnstable_query_iter(q, both);
	abs_check(it != NULL, "an iterator");
	for (i = 0, k = 0; i < 5; i++) for (j = 0; j < 2; j++) if (bits[i] >> j & 1) {
		struct dnstable_entry *e = NULL;
		int mine = k++;
		if (bw || given && given != j + 1 || bad && i == 1 && j == 0 || plus && (i == 0 || i == 2)) continue;
		abs_check(dnstable_iter_next(it, &e) == dnstable_res_success, "every entry of an indexed name is a result");
		abs_check(e->n == mn[mine] && memcmp(e->k, mk[mine], mn[mine]) == 0, "results come in the order of the index");
		dnstable_entry_destroy(&e);
		abs_reach("result");
	}
	struct dnstable_entry *e = NULL;
	abs_check(dnstable_iter_next(it, &e) == dnstable_res_failure, "nothing else is a result");
	dnstable_iter_destroy(&it);
	dnstable_query_destroy(&q);
	mtbl_source_destroy(&both);
	mini_done();
	abs_noleak();
	abs_reach("done");
}
void drv_rrset(void) { indirect(1, 0, 0); }
void drv_rdata(void) { indirect(0, 0, 0); }
void drv_rrset_bailiwick(void) { indirect(1, 1, 0); }
void drv_rrset_absent(void) { indirect(1, 0, 1); }
void drv_rdata_absent(void) { indirect(0, 0, 1); }

#include "dec_ref.h"

static void times(struct dnstable_entry *e, uint64_t t[3]) {
	uint64_t a, b, c;
	abs_check(dnstable_entry_get_time_first(e, &a) == OK && a == t[0], "time_first is the first varint of the value");
	abs_check(dnstable_entry_get_time_last(e, &b) == OK && b == (t[1] == 0 ? t[0] : t[1]), "time_last is the second varint of the value (time_first when it is zero)");
	abs_check(dnstable_entry_get_count(e, &c) == OK && c == (t[2] == 0 ? 1 : t[2]), "count is the third varint of the value (one when it is zero)");
}

void drv_rrset(void) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	abs_assume(k[0] == 0);
	const uint8_t *p = k + 1, *end = k + nk, *nm, *bn, *q;
	uint8_t rev[256], brev[256];
	size_t n, bn_len, nr = 0, ql, i;
	uint32_t t, l;
	uint64_t tr[3];
	uint16_t rt;
	const uint8_t *rd[8]; uint32_t rl[8];
	int ok = ref_name(&p, end, &nm, &n, rev) && ref_varint32(&p, end, &t) && t <= 65535 && ref_name(&p, end, &bn, &bn_len, brev);
	while (ok && p < end && nr < 8) {
		ok = ref_varint32(&p, end, &l) && l <= 65535 && l <= (size_t)(end - p);
		if (ok) { rd[nr] = p; rl[nr] = l; nr++; p += l; }
	}
	ok = ok && ref_triplet(v, nv, tr);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check((e != NULL) == (ok != 0), "an RRset entry decodes exactly when its key and value are well formed");
	if (!e) { abs_reach("rrset rejected"); return; }
	abs_reach("rrset decoded");
	abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RRSET, "type byte 0x00 is an RRset entry");
	abs_check(dnstable_entry_get_rrname(e, &q, &ql) == OK && ql == n && abs_eqbytes(q, rev, n), "the RRset owner is the label-reversed name of the key");
	abs_check(dnstable_entry_get_rrtype(e, &rt) == OK && rt == t, "the rrtype is the varint after the owner name");
	abs_check(dnstable_entry_get_bailiwick(e, &q, &ql) == OK && ql == bn_len && abs_eqbytes(q, brev, bn_len), "the bailiwick is the label-reversed second name of the key");
	abs_check(dnstable_entry_get_num_rdata(e, &ql) == OK && ql == nr, "every length-prefixed rdata of the key is reported");
	for (i = 0; i < nr; i++) {
		const uint8_t *d; size_t dl;
		abs_check(dnstable_entry_get_rdata(e, i, &d, &dl) == OK && dl == rl[i] && (dl == 0 || abs_eqbytes(d, rd[i], dl)), "rdata i is the i-th length-prefixed rdata of the key");
	}
	const uint8_t *d = (const uint8_t *)1; size_t dl = 77;
	abs_check(dnstable_entry_get_rdata(e, nr, &d, &dl) != OK && d == (const uint8_t *)1 && dl == 77, "an rdata index past the end fails and reports nothing");
	times(e, tr);
	dnstable_entry_destroy(&e);
	abs_check(e == NULL, "destroying an entry clears the handle");
}

void drv_rdata(void) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	abs_assume(k[0] == 2);
	const uint8_t *p = k + 1, *end = k + nk, *nm, *q, *data;
	uint8_t rev[256];
	size_t n, ql, ln = 0, sl = 0;
	uint32_t t;
	uint64_t tr[3];
	uint16_t rt;
	int ok = nk - 1 >= 2;
	if (ok) {
		end -= 2;
		ln = end[0] | (size_t)end[1] << 8;
		data = p;
		ok = ln <= (size_t)(end - p);
		if (ok) {
			p += ln;
			ok = ref_varint32(&p, end, &t) && t <= 65535 && ref_name(&p, end, &nm, &n, rev);
			if (ok) { sl = end - p; ok = sl + ln <= 65535; }
		}
	}
	ok = ok && ref_triplet(v, nv, tr);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check((e != NULL) == (ok != 0), "an rdata entry decodes exactly when its key and value are well formed");
	if (!e) { abs_reach("rdata rejected"); return; }
	abs_reach("rdata decoded");
	abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RDATA, "type byte 0x02 is an rdata entry");
	abs_check(dnstable_entry_get_rrname(e, &q, &ql) == OK && ql == n && abs_eqbytes(q, rev, n), "the rdata owner is the label-reversed name of the key");
	abs_check(dnstable_entry_get_rrtype(e, &rt) == OK && rt == t, "the rrtype is the varint after the rdata");
	abs_check(dnstable_entry_get_num_rdata(e, &ql) == OK && ql == 1, "an rdata entry has one rdata");
	abs_check(dnstable_entry_get_rdata(e, 0, &q, &ql) == OK && ql == sl + ln, "the rdata is as long as its slice plus its tail");
	if (sl > 0) abs_check(abs_eqbytes(q, nm + n, sl), "sliced rdata starts with the slice at the end of the key");
	if (ln > 0) abs_check(abs_eqbytes(q + sl, data, ln), "rdata ends with the bytes after the type byte");
	times(e, tr);
	dnstable_entry_destroy(&e);
}

static void name_entry(int rev_) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv), *q;
	abs_assume(k[0] == (rev_ ? 3 : 1));
	size_t n = 0, ql;
	uint8_t rev[256];
	int ok = wdns_len_uname(k + 1, k + nk, &n) == wdns_res_success && n == nk - 1;
	if (rev_) ok = ok && wdns_reverse_name(k + 1, nk - 1, rev) == wdns_res_success;
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check((e != NULL) == (ok != 0), "a name entry decodes exactly when its key is one well-formed name");
	if (!e) { abs_reach("name rejected"); return; }
	abs_reach("name decoded");
	if (rev_) {
		abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV, "type byte 0x03 is an rdata-name entry");
		abs_check(dnstable_entry_get_rdata_name(e, &q, &ql) == OK && ql == n && abs_eqbytes(q, rev, n), "the rdata name is the label-reversed name of the key");
	} else {
		abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, "type byte 0x01 is an RRset-name entry");
		abs_check(dnstable_entry_get_rrname(e, &q, &ql) == OK && ql == n && abs_eqbytes(q, k + 1, n), "the RRset name is the name of the key");
	}
	dnstable_entry_destroy(&e);
}
void drv_rrset_name(void) { name_entry(0); }
void drv_rdata_name(void) { name_entry(1); }

void drv_time_range(void) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv), *p = v;
	uint64_t a, b, x, y;
	abs_assume(k[0] == 254);
	int ok = ref_varint64(&p, v + nv, &a) && ref_varint64(&p, v + nv, &b) && (size_t)(p - v) == nv;
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check((e != NULL) == (ok != 0), "a time-range entry decodes exactly when its value is two varints");
	if (!e) { abs_reach("time range rejected"); return; }
	abs_reach("time range decoded");
	abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_TIME_RANGE, "type byte 0xfe is a time-range entry");
	abs_check(dnstable_entry_get_time_first(e, &x) == OK && x == a, "time_first is the first varint");
	abs_check(dnstable_entry_get_time_last(e, &y) == OK && y == b, "time_last is the second varint");
	dnstable_entry_destroy(&e);
}

void drv_source_info(void) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	const char *s;
	abs_assume(k[0] == 253);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check(e != NULL, "a source-info entry always decodes");
	abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_SOURCE_INFO, "type byte 0xfd is a source-info entry");
	abs_check(dnstable_entry_get_source_info(e, &s) == OK, "a source-info entry has source info");
	if (nk > 1) abs_check(abs_eqbytes(s, k + 1, nk - 1), "the source info is the rest of the key");
	dnstable_entry_destroy(&e);
	abs_reach("source info decoded");
}

void drv_version(void) {
	size_t nk = abs_range("len_key", 1, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv), *p = v;
	uint32_t ver, x;
	dnstable_entry_type ty;
	abs_assume(k[0] == 255);
	int ok = nk == 2 && ref_varint32(&p, v + nv, &ver) && (size_t)(p - v) == nv;
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check((e != NULL) == (ok != 0), "a version entry decodes exactly when its key is two bytes and its value is one varint");
	if (!e) { abs_reach("version rejected"); return; }
	abs_reach("version decoded");
	abs_check(dnstable_entry_get_type(e) == DNSTABLE_ENTRY_TYPE_VERSION, "type byte 0xff is a version entry");
	abs_check(dnstable_entry_get_version(e, &x) == OK && x == ver, "the version is the varint of the value");
	abs_check(dnstable_entry_get_version_type(e, &ty) == OK && (unsigned)ty == k[1], "the version type is the second key byte");
	dnstable_entry_destroy(&e);
}

void drv_unknown(void) {
	size_t nk = abs_range("len_key", 0, KMAX), nv = abs_range("len_val", 0, KMAX);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	if (nk > 0) abs_assume(k[0] > 3 && k[0] < 253);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check(e == NULL, "a key which is empty or has an unknown type byte is not an entry");
	abs_reach("unknown rejected");
}

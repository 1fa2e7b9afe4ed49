/* text and JSON of entries, byte for byte, for known fields */
#include "abs.h"
#include "dnstable-private.h"
#include <wdns.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#define OK dnstable_res_success
static uint64_t tf, tl, tc;
dnstable_res triplet_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l, uint64_t *c) { *f = tf; *l = tl; *c = tc; return OK; }
dnstable_res pair_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l) { *f = tf; *l = tl; return OK; }
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz) {
	size_t o = 0;
	while (p + o < eop && p[o] != 0) o += p[o] + 1;
	*sz = o + 1;
	return wdns_res_success;
}
wdns_res wdns_reverse_name(const uint8_t *n, size_t len, uint8_t *r) { memcpy(r, n, len); return wdns_res_success; }
/* one-label names, as "a."; the root as "." */
size_t wdns_domain_to_str(const uint8_t *d, size_t n, char *s) {
	abs_check(n >= 1, "a name is not empty");
	size_t o = 0;
	if (d[0]) { s[o++] = d[1]; if (d[1] == '"') s[o - 1] = '"'; }
	s[o++] = '.'; s[o] = 0;
	return o + 1;
}
static unsigned rdata_type;
char *wdns_rdata_to_str(const uint8_t *d, uint16_t n, uint16_t rr, uint16_t cls) {
	char *s = malloc(n + 3u); size_t o = 0;
	abs_check(rr == rdata_type && cls == 1, "rdata is formatted as the type and class of the entry");
	s[o++] = '"';
	for (int i = 0; i < n; i++) s[o++] = 'a' + (d[i] & 15);
	s[o++] = '\\'; s[o] = 0;
	return s;
}
const char *wdns_rrtype_to_str(uint16_t rr) { return rr == 1 ? "A" : rr == 2 ? "NS" : NULL; }
unsigned mtbl_varint_length_packed(const uint8_t *p, size_t n) { return p[0] & 128 ? 2 : 1; }
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v) { *v = p[0] & 128 ? (p[0] & 127) | p[1] << 7 : p[0]; return p[0] & 128 ? 2 : 1; }
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) {
	if (v < 128) { p[0] = v; return 1; }
	p[0] = (v & 127) | 128; p[1] = v >> 7; return 2;
}
/* the calendar, for the times of this driver */
static const struct { uint64_t t; int ok, y, m, d, H, M, S; const char *text, *rfc; } D[] = {
	{ 0, 1, 70, 0, 1, 0, 0, 0, "1970-01-01 00:00:00 -0000", "1970-01-01T00:00:00Z" },
	{ 1699517225, 1, 123, 10, 9, 8, 7, 5, "2023-11-09 08:07:05 -0000", "2023-11-09T08:07:05Z" },
	{ 253402300799, 1, 8099, 11, 31, 23, 59, 59, "9999-12-31 23:59:59 -0000", "9999-12-31T23:59:59Z" },
	{ 253402300800, 1, 8100, 0, 1, 0, 0, 0, "10000-01-01 00:00:00 -0000", NULL },
	{ 18446743811307264816ULL, 0, 0, 0, 0, 0, 0, 0, "", NULL },
};
#define ND 5
struct tm *gmtime_r(const time_t *t, struct tm *tm) {
	for (int i = 0; i < ND; i++) if (D[i].t == (uint64_t)*t) {
		if (!D[i].ok) return NULL;
		memset(tm, 0, sizeof(*tm));
		tm->tm_year = D[i].y; tm->tm_mon = D[i].m; tm->tm_mday = D[i].d;
		tm->tm_hour = D[i].H; tm->tm_min = D[i].M; tm->tm_sec = D[i].S;
		return tm;
	}
	abs_check(0, "only the times of the entry are formatted");
	return NULL;
}
size_t strftime(char *s, size_t max, const char *f, const struct tm *tm) {
	abs_check(strcmp(f, "%Y-%m-%d %H:%M:%S -0000") == 0, "times are written as date and time of day in UTC");
	for (int i = 0; i < ND; i++) if (D[i].ok && D[i].y == tm->tm_year && D[i].S == tm->tm_sec && D[i].M == tm->tm_min && D[i].H == tm->tm_hour && D[i].d == tm->tm_mday && D[i].m == tm->tm_mon) {
		size_t n = strlen(D[i].text);
		abs_check(n < max, "there is room for the time");
		memcpy(s, D[i].text, n + 1);
		return n;
	}
	abs_check(0, "only the times of the entry are formatted");
	return 0;
}
/* expected output */
static char ex[6000]; static size_t nex;
static void x(const char *s) { while (*s) ex[nex++] = *s++; }
static void num(uint64_t v) {
	char b[24]; int n = 0;
	do { b[n++] = '0' + v % 10; v /= 10; } while (v);
	while (n) ex[nex++] = b[--n];
}
static void js(const char *s) {	/* a JSON string */
	x("\"");
	for (; *s; s++) {
		if (*s == '"' || *s == '\\') ex[nex++] = '\\';
		ex[nex++] = *s;
	}
	x("\"");
}
static int d_first, d_last, rfc;
static void text_time(int d) { if (!rfc) x(D[d].text); else if (D[d].rfc) x(D[d].rfc); else num(D[d].t); }
static void json_time(int d) { if (!rfc || !D[d].rfc) num(D[d].t); else js(D[d].rfc); }
static char *rr_str;	/* the rrtype as it is to be written */
static const struct { unsigned t; const char *s; } R[] = { { 1, "A" }, { 2, "NS" }, { 300, "TYPE300" }, { 127, "TYPE127" } };
static int is_json, array, raw, zone;
static struct dnstable_formatter *f;
static void formatter(void) {
	f = dnstable_formatter_init();
	abs_check(f != NULL, "a formatter can be made");
	if (!is_json || abs_choice("json chosen")) dnstable_formatter_set_output_format(f, is_json ? dnstable_output_format_json : dnstable_output_format_text);
	rfc = abs_choice("rfc3339");
	if (rfc) dnstable_formatter_set_date_format(f, dnstable_date_format_rfc3339);
	if (is_json) {
		array = abs_choice("always an array"); raw = abs_choice("raw rdata");
		if (array) dnstable_formatter_set_rdata_array(f, true);
		if (raw) dnstable_formatter_set_raw_rdata(f, true);
	}
}
static void dates(int vary) { d_first = vary ? (int)abs_pick("first seen", ND) : 1; d_last = d_first == 1 && vary ? abs_pick("last seen", ND - 1) + 1 : vary ? 1 : 2; tf = D[d_first].t; tl = D[d_last].t; }
static void match(const uint8_t *k, size_t nk, const uint8_t *v, size_t nv) {
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_check(e != NULL, "a well-formed entry decodes");
	if (zone) dnstable_entry_set_iszone(e, true);
	char *s;
	if (!rfc && !array && !raw && abs_choice("plain function")) s = is_json ? dnstable_entry_to_json(e) : dnstable_entry_to_text(e);
	else s = dnstable_entry_format(f, e);
	abs_check(s != NULL, "an entry can be formatted");
	for (size_t i = 0; i < nex; i++) abs_check(s[i] == ex[i], is_json ? "the JSON of an entry is what its fields say" : "the text of an entry is what its fields say");
	abs_check(s[nex] == 0, "the formatted entry ends where it should");
	free(s);
	dnstable_entry_destroy(&e);
	dnstable_formatter_destroy(&f);
	abs_check(f == NULL, "destroying a formatter clears the handle");
	abs_reach(is_json ? "json" : "text");
}
static uint8_t key[1000]; static size_t nkey;
static void kadd(unsigned c) { key[nkey++] = c; }
static void hex(const uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) { ex[nex++] = "0123456789abcdef"[p[i] >> 4]; ex[nex++] = "0123456789abcdef"[p[i] & 15]; } }
static void rrset(void) {
	static const uint8_t RD[3] = { 0xf1, 0x02, 0x90 };
	static const uint8_t OFF[3] = { 0, 1, 2 };
	int r = abs_pick("rrtype", 4), n = abs_pick("rdatas", 3);
	formatter(); dates(r == 0);
	zone = r == 1 ? abs_choice("zone") : 0; tc = r == 2 ? is_json ? 18446744073709551615u : 987 : r == 3 ? 0 : 42;
	rdata_type = R[r].t;
	kadd(0); kadd(1); kadd('a'); kadd(0);
	uint8_t vi[3]; size_t nvi = mtbl_varint_encode32(vi, R[r].t);
	for (size_t i = 0; i < nvi; i++) kadd(vi[i]);
	kadd(1); kadd('"'); kadd(0);
	for (int i = 0; i < n; i++) { kadd(i + 1); for (int j = 0; j <= i; j++) kadd(RD[j]); }
	if (!is_json) {
		x(";;  bailiwick: \".\n;;      count: "); num(tc ? tc : 1); x("\n;; first seen"); x(zone ? " in zone file: " : ": "); text_time(d_first);
		x("\n;;  last seen"); x(zone ? " in zone file: " : ": "); text_time(d_last); x("\n");
		for (int i = 0; i < n; i++) { x("a. IN "); x(R[r].s); x(i == 0 ? " \"b\\\n" : " \"bc\\\n"); }
	} else {
		x("{\"count\":"); num(tc ? tc : 1); x(","); x(zone ? "\"zone_time_first\":" : "\"time_first\":"); json_time(d_first);
		x(zone ? ",\"zone_time_last\":" : ",\"time_last\":"); json_time(d_last);
		x(",\"rrname\":\"a.\",\"rrtype\":"); js(R[r].s); x(",\"bailiwick\":"); js("\"."); x(",\"rdata\":[");
		for (int i = 0; i < n; i++) { if (i) x(","); js(i == 0 ? "\"b\\" : "\"bc\\"); }
		x("]");
		if (raw) {
			x(",\"rdata_raw\":[");
			for (int i = 0; i < n; i++) { if (i) x(","); x("\""); hex(RD, i + 1); hex(vi, nvi); x("\""); }
			x("]");
		}
		x("}");
	}
	(void)OFF;
	match(key, nkey, (const uint8_t *)"v", 1);
}
void drv_rrset_text(void) { rrset(); }
void drv_rrset_json(void) { is_json = 1; rrset(); }
static void rdata(void) {
	int r = abs_pick("rrtype", 4), n = abs_pick("rdata length", 3);
	static const uint8_t RD[2] = { 0x0c, 0xfd };
	formatter(); dates(r == 0);
	zone = r == 1 ? abs_choice("zone") : 0; tc = 1007;
	rdata_type = R[r].t;
	uint8_t vi[3]; size_t nvi = mtbl_varint_encode32(vi, R[r].t);
	kadd(2);
	for (int i = 0; i < n; i++) kadd(RD[i]);
	for (size_t i = 0; i < nvi; i++) kadd(vi[i]);
	kadd(1); kadd('b'); kadd(0); kadd(n); kadd(0);
	const char *s = n == 0 ? "\"\\" : n == 1 ? "\"m\\" : "\"mn\\";
	if (!is_json) { x("b. IN "); x(R[r].s); x(" "); x(s); x("\n"); }
	else {
		x("{\"count\":1007,"); x(zone ? "\"zone_time_first\":" : "\"time_first\":"); json_time(d_first);
		x(zone ? ",\"zone_time_last\":" : ",\"time_last\":"); json_time(d_last);
		x(",\"rrname\":\"b.\",\"rrtype\":"); js(R[r].s); x(",\"rdata\":");
		if (array) x("["); js(s); if (array) x("]");
		if (raw) { x(",\"rdata_raw\":"); if (array) x("["); x("\""); hex(RD, n); x("\""); if (array) x("]"); }
		x("}");
	}
	match(key, nkey, (const uint8_t *)"v", 1);
}
void drv_rdata_text(void) { rdata(); }
void drv_rdata_json(void) { is_json = 1; rdata(); }
/* names with a list of rrtypes */
static void names(void) {
	int rev = abs_choice("rdata name"), n = abs_pick("rrtypes", 4);
	/* one type (2 bytes); 1 and 2 as a bitmap; none known; malformed */
	static const uint8_t V[4][3] = { { 0 }, { 44, 1 }, { 0, 1, 0x60 }, { 0, 9, 1 } };
	static const uint8_t NV[4] = { 0, 2, 3, 3 };
	formatter();
	kadd(rev ? 3 : 1); kadd(1); kadd('c'); kadd(0);
	if (!is_json) {
		x("c. RRtypes=["); x(n == 0 ? "" : n == 1 ? "TYPE300" : n == 2 ? "A NS" : "<failure>");
		x(rev ? "]  ;; rdata name rev\n" : "]  ;; rrset name fwd\n");
	} else {
		x(rev ? "{\"rdata_name\":\"c.\"" : "{\"rrset_name\":\"c.\""); x(",\"rrtypes\":[");
		x(n == 0 ? "" : n == 1 ? "\"TYPE300\"" : n == 2 ? "\"A\",\"NS\"" : "\"<failure>\""); x("]}");
	}
	match(key, nkey, V[n], NV[n]);
}
void drv_names_text(void) { names(); }
void drv_names_json(void) { is_json = 1; names(); }
static void other(void) {
	int t = abs_pick("type", 3);
	formatter();
	if (t == 0) {
		dates(1);
		kadd(254);
		if (!is_json) { x(";; Earliest time_first: "); text_time(d_first); x("\n;; Latest time_last: "); text_time(d_last); x("\n"); }
		else { x("{\"time_first\":"); json_time(d_first); x(",\"time_last\":"); json_time(d_last); x("}"); }
		match(key, nkey, (const uint8_t *)"v", 1);
	} else if (t == 1) {
		static const char S[] = "a \"b\"";
		kadd(253);
		for (int i = 0; i < 5; i++) kadd(S[i]);
		if (!is_json) { x(";; source info: "); x(S); x("\n"); }
		else { x("{\"source info\":"); js(S); x("}"); }
		match(key, nkey, (const uint8_t *)"", 0);
	} else {
		static const struct { unsigned t; const char *text, *json; } VT[] = { { 0, "rrset", "rrset" }, { 3, "rdata_name", "rdata_name" }, { 200, "200", "unknown-200" } };
		int i = abs_pick("version type", 3);
		uint8_t v = abs_split(abs_u8("version") & 3, 0, 3);
		kadd(255); kadd(VT[i].t);
		if (!is_json) { x(";; Version type "); x(VT[i].text); x(": "); num(v); x("\n"); }
		else { x("{\"entry_type\":"); js(VT[i].json); x(",\"version\":"); num(v); x("}"); }
		match(key, nkey, &v, 1);
	}
}
void drv_other_text(void) { other(); }
void drv_other_json(void) { is_json = 1; other(); }
/* entries with many rrtypes, many rdatas, or a long rdata */
static void many_types(void) {
	static uint8_t v[34 + 3];
	memset(v, 255, 34); v[0] = 0; v[1] = 32;
	v[34] = 1; v[35] = 1; v[36] = 0x80;
	f = dnstable_formatter_init();
	dnstable_formatter_set_output_format(f, is_json ? dnstable_output_format_json : dnstable_output_format_text);
	rfc = 1;
	kadd(1); kadd(1); kadd('c'); kadd(0);
	x(is_json ? "{\"rrset_name\":\"c.\",\"rrtypes\":[" : "c. RRtypes=[");
	for (int i = 0; i <= 256; i++) {
		if (i) x(is_json ? "," : " ");
		if (is_json) x("\"");
		if (i == 1) x("A"); else if (i == 2) x("NS"); else { x("TYPE"); num(i); }
		if (is_json) x("\"");
	}
	x(is_json ? "]}" : "]  ;; rrset name fwd\n");
	match(key, nkey, v, 37);
}
void drv_many_types_text(void) { many_types(); }
void drv_many_types_json(void) { is_json = 1; many_types(); }
static void big(int n, int len) {	/* an RRset of n rdatas of the same length */
	f = dnstable_formatter_init();
	dnstable_formatter_set_output_format(f, is_json ? dnstable_output_format_json : dnstable_output_format_text);
	if (is_json) { dnstable_formatter_set_raw_rdata(f, true); raw = 1; }
	rdata_type = 1; tc = 1; d_first = 1; d_last = 2; tf = D[1].t; tl = D[2].t;
	kadd(0); kadd(1); kadd('a'); kadd(0); kadd(1); kadd(1); kadd('"'); kadd(0);
	for (int i = 0; i < n; i++) {
		uint8_t vi[3]; size_t nvi = mtbl_varint_encode32(vi, len);
		for (size_t j = 0; j < nvi; j++) kadd(vi[j]);
		for (int j = 0; j < len; j++) kadd((i + j) & 255);
	}
	if (!is_json) {
		x(";;  bailiwick: \".\n;;      count: 1\n;; first seen: "); text_time(1); x("\n;;  last seen: "); text_time(2); x("\n");
		for (int i = 0; i < n; i++) { x("a. IN A \""); for (int j = 0; j < len; j++) ex[nex++] = 'a' + ((i + j) & 15); x("\\\n"); }
	} else {
		x("{\"count\":1,\"time_first\":"); json_time(1); x(",\"time_last\":"); json_time(2); x(",\"rrname\":\"a.\",\"rrtype\":\"A\",\"bailiwick\":"); js("\"."); x(",\"rdata\":[");
		for (int i = 0; i < n; i++) { if (i) x(","); x("\"\\\""); for (int j = 0; j < len; j++) ex[nex++] = 'a' + ((i + j) & 15); x("\\\\\""); }
		x("],\"rdata_raw\":[");
		for (int i = 0; i < n; i++) { if (i) x(","); x("\""); for (int j = 0; j < len; j++) { uint8_t b = (i + j) & 255; hex(&b, 1); } x("01\""); }
		x("]}");
	}
	match(key, nkey, (const uint8_t *)"v", 1);
}
void drv_many_rdatas_text(void) { big(260, 1); }
void drv_many_rdatas_json(void) { is_json = 1; big(260, 1); }
void drv_longer_rdata_json(void) { is_json = 1; big(1, 900); }
void drv_long_rdata_text(void) { big(2, 300); }
void drv_long_rdata_json(void) { is_json = 1; big(2, 300); }

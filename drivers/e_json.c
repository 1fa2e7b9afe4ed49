/* JSON strings, numbers and members of arbitrary values */
#include "abs.h"
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "dnstable-json.h"
static char out[1400]; static size_t nout;
/* RFC 8259 section 7 */
static void expect(unsigned c) {
	static const char S[] = "\b\f\n\r\t\"\\", L[] = "bfnrt\"\\";
	for (int i = 0; i < 7; i++) if ((unsigned char)S[i] == c) { out[nout++] = '\\'; out[nout++] = L[i]; return; }
	if (c < 32) {
		out[nout++] = '\\'; out[nout++] = 'u'; out[nout++] = '0'; out[nout++] = '0';
		out[nout++] = '0' + c / 16; out[nout++] = "0123456789abcdef"[c % 16];
		return;
	}
	out[nout++] = c;
}
static void same(ubuf *u, const char *what) {
	abs_check(ubuf_size(u) == nout, "JSON is as long as its parts");
	for (size_t i = 0; i < nout; i++) abs_check(ubuf_value(u, i) == (uint8_t)out[i], what);
	ubuf_destroy(&u);
}
static void string(unsigned *c, int n) {
	char *s = malloc(n ? n : 1);	/* exactly as long as claimed: not NUL-terminated */
	ubuf *u = ubuf_init(1);
	out[nout++] = '"';
	for (int i = 0; i < n; i++) { s[i] = c[i]; expect(c[i]); }
	out[nout++] = '"';
	append_json_value_string(u, s, n);
	same(u, "a JSON string has each byte, escaped as required");
	free(s);
	abs_reach("string");
}
void drv_string1(void) { unsigned c[1]; c[0] = abs_split(abs_u8("byte"), 0, 255); string(c, 1); }
/* one byte of each kind, in every order */
static unsigned kind(void) { static const uint8_t K[] = { 0, 1, '\b', '\f', '\n', '\r', '\t', 31, ' ', '"', '/', '\\', 'u', 127, 128, 255 }; return K[abs_pick("byte", 16)]; }
void drv_string2(void) { unsigned c[2]; c[0] = kind(); c[1] = kind(); string(c, 2); }
void drv_string3(void) { static const uint8_t K[] = { 0, '\n', 'a', '"', '\\', 200 }; unsigned c[4]; int n = abs_pick("length", 5); for (int i = 0; i < n; i++) c[i] = K[abs_pick("byte", 6)]; string(c, n); }
/* strings longer than any buffer inside */
void drv_string_long(void) {
	static const int N[] = { 63, 64, 127, 255, 256, 257, 511, 600 };
	unsigned c[600]; int i, n = N[abs_pick("length", 8)], e = abs_pick("escapes", 3);
	for (i = 0; i < n; i++) c[i] = e == 0 ? 'a' + i % 26 : e == 1 ? '"' : i % 16 == 15 ? '\n' : 'x';
	string(c, n);
}
/* arbitrary bytes which need no escape are copied */
void drv_plain(void) {
	int n = abs_pick("length", 7);
	unsigned c[6];
	for (int i = 0; i < n; i++) {
		c[i] = abs_fresh("plain byte", 35, 255);
		abs_assume(c[i] != '\\');
	}
	ubuf *u = ubuf_init(1);
	char *s = malloc(6);
	out[nout++] = '"';
	for (int i = 0; i < n; i++) { s[i] = c[i]; out[nout++] = c[i]; }
	out[nout++] = '"';
	append_json_value_string(u, s, n);
	append_json_value_string_noescape(u, s, n);
	abs_check(ubuf_size(u) == 2 * nout, "JSON is as long as its parts");
	for (size_t i = 0; i < nout; i++) abs_check(ubuf_value(u, i) == (uint8_t)out[i] && ubuf_value(u, nout + i) == (uint8_t)out[i], "a plain JSON string has each byte");
	ubuf_destroy(&u);
	free(s);
	abs_reach("plain");
}
static void number(uint64_t v) {
	char d[24]; int n = 0;
	uint64_t t = v;
	do { d[n++] = '0' + t % 10; t /= 10; } while (t);
	while (n) out[nout++] = d[--n];
	ubuf *u = ubuf_init(1);
	append_json_value_int(u, v);
	same(u, "a JSON number has the decimal digits of the value");
	abs_reach("number");
}
void drv_number(void) { number(abs_u64("value")); }
void drv_number_edges(void) {
	static const uint64_t P[] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000,
		10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000u };
	number(P[abs_pick("power", 20)] * (1 + (uint64_t)abs_pick("times", 2)) - abs_pick("less", 2));
}
void drv_member(void) {
	ubuf *u = ubuf_init(1);
	bool v = abs_choice("value");
	declare_json_value(u, "first", true);
	append_json_value_bool(u, v);
	declare_json_value(u, "second", false);
	append_json_value_null(u);
	const char *w = v ? "\"first\":true,\"second\":null" : "\"first\":false,\"second\":null";
	while (*w) out[nout++] = *w++;
	same(u, "members are named and separated");
	abs_reach("member");
}
/* any text of any length: cut */
void cut_safe(void) {
	size_t n = abs_range("length", 0, 1UL << 32);
	char *s = abs_robuf("text", n);
	ubuf *u = ubuf_init(1);
	append_json_value_string(u, s, n);
	abs_check(ubuf_size(u) >= n + 2, "nothing is left out of a JSON string");
	ubuf_destroy(&u);
}

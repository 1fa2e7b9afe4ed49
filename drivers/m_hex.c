#include "abs.h"
#include <stdio.h>
#include <stdlib.h>
#include "libmy/hex_decode.h"

static int ref(char ch, unsigned *v) {
	unsigned char c = ch;
	if (c >= '0' && c <= '9') { *v = c - '0'; return 1; }
	if (c >= 'a' && c <= 'f') { *v = c - 'a' + 10; return 1; }
	if (c >= 'A' && c <= 'F') { *v = c - 'A' + 10; return 1; }
	return 0;
}
static void hex(int n) {
	char s[8];
	unsigned v[8];
	int i, ok = n > 0 && n % 2 == 0;
	for (i = 0; i < n; i++) {
		static const char *nm[] = { "c0", "c1", "c2", "c3" };
		s[i] = n > 2 && i < 2 ? (i ? '7' : 'e') : (char)abs_u8(nm[i]);
		abs_assume(s[i] != 0);
	}
	s[n] = 0;
	if (ok) for (i = 0; i < n && ok; i++) ok = ref(s[i], &v[i]);
	uint8_t *raw = NULL;
	size_t len = 0;
	bool b = hex_decode(s, &raw, &len);
	abs_check(b == (ok != 0), "a string decodes exactly when it is a non-empty sequence of hexadecimal pairs");
	if (!b) { abs_reach("hex rejected"); return; }
	abs_check(len == (size_t)n / 2, "the decoded length is half of the digits");
	for (i = 0; i < n / 2; i++) abs_check(raw[i] == (v[2 * i] << 4 | v[2 * i + 1]), "byte i is digits 2i and 2i+1, high nibble first");
	free(raw);
	abs_reach("hex decoded");
}
void drv_hex_0(void) { hex(0); }
void drv_hex_1(void) { hex(1); }
void drv_hex_2(void) { hex(2); }
void drv_hex_3(void) { hex(3); }
void drv_hex_4(void) { hex(4); }
/* long strings: unknown digits throughout, and one unknown character anywhere */
static void longs(size_t n) {
	char *s = abs_buf("text", n + 1);
	static const char D[] = "0123456789abcdefABCDEF";
	for (size_t i = 0; i < n; i++) s[i] = D[(i * 7 + i / 22) % 22];
	s[n] = 0;
	static const int P[] = { 0, 1, 2, 5, 8, 17, 30, 31 };
	size_t at = P[abs_pick("place", 8)] * (n - 1) / 31;
	s[at] = (char)abs_u8("character");
	abs_assume(s[at] != 0);
	unsigned v, w;
	int ok = n % 2 == 0 && ref(s[at], &v);
	uint8_t *raw = NULL;
	size_t len = 0;
	bool b = hex_decode(s, &raw, &len);
	abs_check(b == ok, "a long string decodes exactly when it is a sequence of hexadecimal pairs");
	if (!b) { abs_reach("long rejected"); return; }
	abs_check(len == n / 2, "the decoded length is half of the digits");
	for (size_t i = 0; i < n / 2; i++) {
		ref(s[2 * i], &v); ref(s[2 * i + 1], &w);
		abs_check(raw[i] == (v << 4 | w), "byte i of a long string is digits 2i and 2i+1");
	}
	free(raw);
	abs_reach("long decoded");
}
void drv_hex_long_40(void) { longs(40); }
void drv_hex_long_129(void) { longs(129); }
void drv_hex_long_130(void) { longs(130); }
void drv_hex_long_520(void) { longs(520); }

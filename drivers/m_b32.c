#include "abs.h"
#include <stdlib.h>
#include <string.h>
#include "libmy/b32_encode.h"
#include <stdbool.h>
#include "libmy/b32_decode.h"

static const char AL[] = "0123456789ABCDEFGHIJKLMNOPQRSTUV";
static int bit(const uint8_t *a, unsigned n, unsigned i) { return i / 8 < n ? (a[i / 8] >> (7 - i % 8)) & 1 : 0; }

static void enc(unsigned n) {
	uint8_t *d = abs_robuf("data", n);
	unsigned m = (n * 8 + 4) / 5;
	char *out = abs_buf("out", m);
	size_t l = base32_encode(out, m, d, n);
	abs_check(l == m, "n bytes encode to ceil(8n/5) base32 digits");
	for (unsigned i = 0; i < m; i++) {
		unsigned v = 0;
		for (unsigned j = 0; j < 5; j++) v = v << 1 | bit(d, n, 5 * i + j);
		abs_check(out[i] == AL[v], "digit i is the extended-hex digit of bits 5i..5i+4");
	}
	uint8_t *back = abs_buf("back", n);
	abs_check(base32_decode(back, n, out, m) == n && abs_eqbytes(back, d, n), "decoding an encoding gives the bytes back");
	abs_reach("base32 round trip");
}
void drv_b32_enc1(void) { enc(1); }
void drv_b32_enc2(void) { enc(2); }
void drv_b32_enc3(void) { enc(3); }
void drv_b32_enc4(void) { enc(4); }
void drv_b32_enc5(void) { enc(5); }
void drv_b32_enc6(void) { enc(6); }
void drv_b32_enc10(void) { enc(10); }
void drv_b32_enc12(void) { enc(12); }
void drv_b32_enc20(void) { enc(20); }
void drv_b32_enc33(void) { enc(33); }
void drv_b32_enc64(void) { enc(64); }
void drv_b32_enc256(void) { enc(256); }
void drv_b32_enc0(void) {
	char out[8];
	abs_check(base32_encode(out, sizeof(out), "", 0) == 0, "no bytes encode to no digits");
}
/* a buffer too small is filled, never overrun */
void drv_b32_enc_small(void) {
	unsigned n = 1 + abs_pick("bytes", 6), m = (n * 8 + 4) / 5, sz = abs_pick("size", 11);
	uint8_t *d = abs_robuf("data", n);
	char *full = abs_buf("full", m), *out = abs_buf("out", sz);
	base32_encode(full, m, d, n);
	size_t l = base32_encode(out, sz, d, n);
	abs_check(l == (sz < m ? sz : m), "an encoder given a small buffer stops at its end");
	abs_check(abs_eqbytes(out, full, l), "what is written is a prefix of the encoding");
}
static int val(uint8_t c) {
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'A' && c <= 'V') return c - 'A' + 10;
	if (c >= 'a' && c <= 'v') return c - 'a' + 10;
	return -1;
}
/* any digit string: upper and lower case digits, nothing else */
void drv_b32_dec_char(void) {
	uint8_t c = abs_u8("c"), out[1];
	char s[2] = { c, '0' };
	int v = val(c);
	abs_assume(c != '=');
	size_t l = base32_decode(out, 1, s, 2);
	if (v < 0) abs_check(l == (size_t)-1, "a character outside the alphabet is rejected");
	else {
		abs_check(l == 1, "upper and lower case digits are accepted");
		abs_check(out[0] == v << 3, "a digit has its value in either case");
	}
	abs_reach(v < 0 ? "base32 rejected" : "base32 accepted");
}
void drv_b32_dec_small(void) {
	unsigned n = abs_pick("digits", 10), sz = abs_pick("size", 8);
	char *s = abs_robuf("text", n);
	uint8_t *out = abs_buf("out", sz);
	for (unsigned i = 0; i < n; i++) abs_assume(s[i] >= '0' && s[i] <= '9');
	size_t l = base32_decode(out, sz, s, n);
	abs_check(l <= sz, "a decoder never reports more than the buffer holds");
}

#include "abs.h"
#include <string.h>
#include "libmy/b64_encode.h"
#include "libmy/b64_decode.h"

static const char AL[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int bit(const uint8_t *a, unsigned n, unsigned i) { return i / 8 < n ? (a[i / 8] >> (7 - i % 8)) & 1 : 0; }

static void rt(unsigned n, unsigned cut, unsigned tcut) {
	uint8_t *d = abs_robuf("data", n);
	unsigned digits = (n * 8 + 5) / 6, m = (n + 2) / 3 * 4;
	char *out = abs_buf("out", m);
	base64_encodestate es;
	base64_decodestate ds;
	base64_init_encodestate(&es);
	int l = base64_encode_block((const char *)d, cut, out, &es);
	l += base64_encode_block((const char *)d + cut, n - cut, out + l, &es);
	l += base64_encode_blockend(out + l, &es);
	abs_check(l == (int)m, "n bytes encode to 4*ceil(n/3) characters, however the input is split");
	for (unsigned i = 0; i < digits; i++) {
		unsigned v = 0;
		for (unsigned j = 0; j < 6; j++) v = v << 1 | bit(d, n, 6 * i + j);
		abs_check(out[i] == AL[v], "character i is the base64 digit of bits 6i..6i+5");
	}
	for (unsigned i = digits; i < m; i++) abs_check(out[i] == '=', "the last group is padded with '='");
	char *back = abs_buf("back", n + 1);
	base64_init_decodestate(&ds);
	if (tcut > m) tcut = m;
	l = base64_decode_block(out, tcut, back, &ds);
	l += base64_decode_block(out + tcut, m - tcut, back + l, &ds);
	abs_check(l == (int)n, "an encoding decodes to as many bytes as were encoded, however it is split");
	abs_check(n == 0 || abs_eqbytes(back, d, n), "decoding an encoding gives the bytes back");
	abs_reach("base64 round trip");
}
void drv_b64_0(void) { rt(0, 0, 0); }
void drv_b64_1(void) { rt(1, 0, abs_pick("text cut", 5)); }
void drv_b64_2(void) { rt(2, abs_pick("cut", 3), abs_pick("text cut", 5)); }
void drv_b64_3(void) { rt(3, abs_pick("cut", 4), abs_pick("text cut", 5)); }
void drv_b64_4(void) { rt(4, abs_pick("cut", 5), abs_pick("text cut", 9)); }
void drv_b64_5(void) { rt(5, abs_pick("cut", 6), 0); }
void drv_b64_7(void) { rt(7, abs_pick("cut", 8), abs_pick("text cut", 13)); }
/* white space and other characters between the digits are skipped */
void drv_b64_skip(void) {
	uint8_t *d = abs_robuf("data", 3);
	char out[4], s[5], back[5];
	unsigned at = abs_pick("position", 5);
	base64_encodestate es;
	base64_decodestate ds;
	base64_init_encodestate(&es);
	base64_encode_block((const char *)d, 3, out, &es);
	memcpy(s, out, at);
	memcpy(s + at + 1, out + at, 4 - at);
	uint8_t c = abs_u8("foreign");
	abs_assume(strchr(AL, c) == NULL || c == 0);
	s[at] = c;
	base64_init_decodestate(&ds);
	int l = base64_decode_block(s, 5, back, &ds);
	abs_check(l == 3 && abs_eqbytes(back, d, 3), "a character which is no base64 digit is skipped");
	abs_reach("foreign character skipped");
}
/* longer inputs in one piece and in two */
static unsigned cuts(unsigned n) { static const int C[] = { 0, 1, 5, 8 }; return C[abs_pick("eighths", 4)] * n / 8; }
void drv_b64_57(void) { rt(57, cuts(57), 30); }
void drv_b64_100(void) { rt(100, cuts(100), 77); }
void drv_b64_260(void) { rt(260, cuts(260), 256); }
/* pieces of one byte and of one character */
void drv_b64_bytes(void) {
	unsigned n = 4 + abs_pick("bytes", 3), m = (n + 2) / 3 * 4;
	uint8_t *d = abs_robuf("data", n);
	char *out = abs_buf("out", m), *all = abs_buf("all", m), *back = abs_buf("back", n + 1);
	base64_encodestate es;
	base64_decodestate ds;
	int l = 0;
	base64_init_encodestate(&es);
	for (unsigned i = 0; i < n; i++) {
		if (abs_pick("empty piece", 2)) l += base64_encode_block((const char *)d + i, 0, out + l, &es);
		l += base64_encode_block((const char *)d + i, 1, out + l, &es);
	}
	l += base64_encode_blockend(out + l, &es);
	base64_init_encodestate(&es);
	int k = base64_encode_block((const char *)d, n, all, &es);
	k += base64_encode_blockend(all + k, &es);
	abs_check(l == (int)m && k == l && abs_eqbytes(out, all, m), "bytes encoded one at a time give the same text");
	l = 0;
	base64_init_decodestate(&ds);
	for (unsigned i = 0; i < m; i++) l += base64_decode_block(out + i, 1, back + l, &ds);
	abs_check(l == (int)n && abs_eqbytes(back, d, n), "characters decoded one at a time give the bytes back");
	abs_reach("one at a time");
}

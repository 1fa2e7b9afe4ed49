#include "abs.h"
#include <string.h>
#include "libmy/varint.h"

static unsigned ref_len(uint64_t v) {
	for (unsigned n = 1; n < 10; n++)
		if ((v >> (7 * n)) == 0) return n;
	return 10;
}
void drv_varint64(void) {
	uint64_t v = abs_u64("v"), w = 1;
	unsigned n = ref_len(v);
	uint8_t *b = abs_buf("out", 16);
	size_t l = varint_encode64(b, v);
	abs_check(l == n, "a 64-bit varint is as long as its value needs");
	abs_check(varint_length(v) == n, "varint_length is the length of the encoding");
	for (unsigned i = 0; i < n; i++) {
		abs_check((b[i] >> 7) == (i + 1 < n), "every byte but the last carries the continuation bit");
		abs_check((b[i] & 0x7f) == ((v >> (7 * i)) & 0x7f), "byte i carries bits 7i..7i+6, least significant first");
	}
	abs_check(varint_length_packed(b, 10) == n, "the packed length is the encoded length");
	if (n < 10) abs_check(varint_length_packed(b, n) == n, "the packed length is found within the encoding itself");
	if (n > 1) abs_check(varint_length_packed(b, n - 1) == 0, "an encoding cut short has no packed length");
	abs_check(varint_decode64(b, &w) == n && w == v, "decoding a 64-bit varint gives the value back");
	abs_reach(n == 1 ? "one byte" : n == 10 ? "ten bytes" : "more");
}
void drv_varint32(void) {
	uint32_t v = abs_u32("v"), w = 1;
	uint64_t w64 = 1;
	unsigned n = ref_len(v);
	uint8_t *b = abs_buf("out", 16), *c = abs_buf("out2", 16);
	size_t l = varint_encode32(b, v);
	abs_check(l == n, "a 32-bit varint is as long as its value needs");
	abs_check(varint_encode64(c, v) == n && abs_eqbytes(b, c, n), "the 32-bit and 64-bit encoders agree");
	abs_check(varint_decode32(b, &w) == n && w == v, "decoding a 32-bit varint gives the value back");
	abs_check(varint_decode64(b, &w64) == n && w64 == v, "the 64-bit decoder reads 32-bit varints");
}
/* the decoders read no byte past the end of the varint */
void drv_varint_bounds(void) {
	int n = 1 + abs_pick("bytes", 10), i;
	uint8_t *b = abs_buf("in", n);
	uint64_t v = 0, ref = 0;
	uint32_t v32 = 0;
	for (i = 0; i < n; i++) {
		abs_assume((b[i] >> 7) == (i + 1 < n));
		ref |= (uint64_t)(b[i] & 0x7f) << (7 * i);
	}
	abs_check(varint_length_packed(b, n) == (unsigned)n, "packed length of an n byte varint");
	abs_check(varint_decode64(b, &v) == (size_t)n && v == ref, "a decoded 64-bit varint is the sum of its 7-bit groups");
	if (n <= 5) abs_check(varint_decode32(b, &v32) == (size_t)n && v32 == (uint32_t)ref, "a decoded 32-bit varint is the sum of its 7-bit groups");
}
void drv_varint_unterminated(void) {
	uint8_t *b = abs_buf("in", 10), *c = abs_buf("in5", 5);
	uint64_t v;
	uint32_t w;
	for (int i = 0; i < 10; i++) abs_assume(b[i] >= 128);
	for (int i = 0; i < 5; i++) abs_assume(c[i] >= 128);
	abs_check(varint_decode64(b, &v) == 0, "ten continuation bytes are not a 64-bit varint");
	abs_check(varint_decode32(c, &w) == 0, "five continuation bytes are not a 32-bit varint");
	abs_reach("unterminated");
}
/* unbounded buffers */
void drv_varint_packed_any(void) {
	size_t n = abs_range("n", 0, 1UL << 31);
	uint8_t *b = abs_robuf("in", n);
	unsigned l = varint_length_packed(b, n);
	abs_check(l <= n, "a packed length never exceeds the buffer");
}

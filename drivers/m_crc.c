#include "abs.h"
#include <string.h>
#include "libmy/crc32c.h"
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);

/* CRC-32C one bit at a time */
static uint32_t ref(const uint8_t *p, unsigned n) {
	uint32_t crc = 0xffffffff;
	for (unsigned i = 0; i < n; i++)
		for (unsigned j = 0; j < 8; j++) {
			uint32_t fb = (crc ^ (p[i] >> j)) & 1;
			crc >>= 1;
			for (unsigned k = 0; k < 32; k++)
				if (0x82f63b78u >> k & 1) crc ^= fb << k;
		}
	return crc ^ 0xffffffff;
}
static void one(unsigned off, unsigned n) {
	uint8_t *b = abs_robuf("data", off + n);
	uint32_t want = ref(b + off, n);
	abs_check(my_crc32c_slicing(b + off, n) == want, "the table checksum is the CRC-32C of the bytes");
	abs_check(my_crc32c_sse42(b + off, n) == want, "the instruction checksum is the CRC-32C of the bytes");
	abs_check(my_crc32c(b + off, n) == want, "the checksum is the CRC-32C of the bytes");
	abs_check(my_crc32c(b + off, n) == want, "the checksum does not change from call to call");
	abs_reach("checksummed");
}
#define D(n) void drv_crc_##n(void) { one(abs_pick("alignment", 4), n); }
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7) D(8) D(9) D(10) D(11) D(12) D(13) D(14) D(15) D(16) D(17) D(19) D(22) D(24)
#define L(n) void drv_crc_##n(void) { one(n % 4 == 1 ? 3 : n % 8 / 4, n); }
L(31) L(32) L(40) L(63) L(64) L(100)
/* long inputs of fixed contents */
static uint32_t fast(const uint8_t *p, unsigned n) {
	uint32_t crc = 0xffffffff;
	while (n--) {
		crc ^= *p++;
		for (int j = 0; j < 8; j++) crc = crc & 1 ? crc >> 1 ^ 0x82f63b78u : crc >> 1;
	}
	return ~crc;
}
static void far(unsigned n) {
	uint8_t *b = abs_buf("data", n + 8);
	for (unsigned i = 0; i < n + 8; i++) b[i] = i * 37 + i / 7 * 101 + 13;
	for (unsigned off = 0; off < 8; off += 1 + n / 400) {
		uint32_t want = fast(b + off, n);
		abs_check(my_crc32c_slicing(b + off, n) == want, "the table checksum is the CRC-32C of a long input");
		abs_check(my_crc32c_sse42(b + off, n) == want, "the instruction checksum is the CRC-32C of a long input");
		abs_check(my_crc32c(b + off, n) == want, "the checksum is the CRC-32C of a long input");
	}
	abs_reach("long input");
}
void drv_crc_far_127(void) { far(127); }
void drv_crc_far_256(void) { far(256); }
void drv_crc_far_513(void) { far(513); }
void drv_crc_far_1025(void) { far(1025); }
/* no byte outside the buffer is read, whatever its length and address */
void wid_crc_any_sse(void) {
	size_t n = abs_range("length", 0, 1UL << 40), off = abs_range("offset", 0, 64);
	uint8_t *b = abs_robuf("data", off + n);
	my_crc32c_sse42(b + off, n);
}

#include "abs.h"
#include <endian.h>
#define HAVE_ENDIAN_H 1
#include "libmy/ip_arith.h"

static int bit(const uint8_t *a, unsigned i) { return (a[i / 8] >> (7 - i % 8)) & 1; }

static void chk(const uint8_t *a, const uint8_t *lo, const uint8_t *hi, unsigned n, unsigned p) {
	for (unsigned i = 0; i < n; i++) {
		if (i < p) {
			abs_check(bit(lo, i) == bit(a, i), "the lowest address keeps the prefix bits");
			abs_check(bit(hi, i) == bit(a, i), "the highest address keeps the prefix bits");
		} else {
			abs_check(bit(lo, i) == 0, "the lowest address has zero host bits");
			abs_check(bit(hi, i) == 1, "the highest address has one host bits");
		}
	}
}
void drv_ip4_prefix(void) {
	unsigned p = abs_pick("prefix", 33);
	uint8_t *a = abs_robuf("address", 4), lo[4], hi[4];
	ip4_lower(a, p, lo);
	ip4_upper(a, p, hi);
	chk(a, lo, hi, 32, p);
	abs_reach("ip4");
}
void drv_ip6_prefix(void) {
	unsigned p = abs_pick("prefix", 129);
	uint8_t *a = abs_robuf("address", 16), lo[16], hi[16];
	ip6_lower(a, p, lo);
	ip6_upper(a, p, hi);
	chk(a, lo, hi, 128, p);
	abs_reach("ip6");
}
void drv_ip_alias(void) {	/* in place */
	uint8_t *a = abs_buf("address", 16), lo[16];
	unsigned p = abs_pick("prefix", 129);
	ip6_lower(a, p, lo);
	ip6_lower(a, p, a);
	abs_check(abs_eqbytes(a, lo, 16), "a prefix may be masked in place");
}
/* the lowest zero bit of the address is bit k (k == n: all ones) */
static void incr(unsigned n, void (*f)(void *)) {
	unsigned k = abs_pick("lowest zero bit", n + 1), bytes = n / 8;
	uint8_t *a = abs_buf("address", bytes), b[16];
	for (unsigned i = 0; i < k; i++) abs_assume(bit(a, n - 1 - i) == 1);
	if (k < n) abs_assume(bit(a, n - 1 - k) == 0);
	memcpy(b, a, bytes);
	f(a);
	for (unsigned i = 0; i < n; i++) {
		if (i < k) abs_check(bit(a, n - 1 - i) == 0, "the increment clears the ones below the lowest zero bit");
		else if (i == k) abs_check(bit(a, n - 1 - i) == 1, "the increment sets the lowest zero bit");
		else abs_check(bit(a, n - 1 - i) == bit(b, n - 1 - i), "the increment keeps the bits above the lowest zero bit");
	}
	abs_reach("incremented");
}
void drv_ip4_incr(void) { incr(32, ip4_incr); }
void drv_ip6_incr(void) { incr(128, ip6_incr); }

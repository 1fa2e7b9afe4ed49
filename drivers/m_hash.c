/* Bob Jenkins' lookup3: the hash depends on the bytes, their number and the seed only */
#include "abs.h"
#include <stdlib.h>
#include <string.h>
#include "libmy/lookup3.h"
#define R(x, k) (((x) << (k)) | ((x) >> (32 - (k))))
static uint32_t a, b, c;
static void ref_mix(void) {
	a -= c; a ^= R(c, 4); c += b;
	b -= a; b ^= R(a, 6); a += c;
	c -= b; c ^= R(b, 8); b += a;
	a -= c; a ^= R(c, 16); c += b;
	b -= a; b ^= R(a, 19); a += c;
	c -= b; c ^= R(b, 4); b += a;
}
static void ref_final(void) {
	c ^= b; c -= R(b, 14);
	a ^= c; a -= R(c, 11);
	b ^= a; b -= R(a, 25);
	c ^= b; c -= R(b, 16);
	a ^= c; a -= R(c, 4);
	b ^= a; b -= R(a, 14);
	c ^= b; c -= R(b, 24);
}
static int big;
static uint32_t word(const uint8_t *k) {
	return big ? (uint32_t)k[0] << 24 | (uint32_t)k[1] << 16 | (uint32_t)k[2] << 8 | k[3]
		: k[0] | (uint32_t)k[1] << 8 | (uint32_t)k[2] << 16 | (uint32_t)k[3] << 24;
}
static void ref(const uint8_t *k, size_t n, uint32_t len, uint32_t seed, uint32_t seed2) {
	a = b = c = 0xdeadbeef + len + seed;
	c += seed2;
	while (n > 12) {
		a += word(k); b += word(k + 4); c += word(k + 8);
		ref_mix();
		n -= 12; k += 12;
	}
	if (n == 0) return;
	uint8_t t[12];
	for (size_t i = 0; i < 12; i++) t[i] = i < n ? k[i] : 0;
	a += word(t); b += word(t + 4); c += word(t + 8);
	ref_final();
}
/* n unknown bytes; whole words may be read */
static uint8_t *key(size_t n, int al) {
	size_t sz = al + n + 4 - (al + n) % 4;
	uint8_t *buf = malloc(sz);
	for (size_t i = 0; i < sz; i++) buf[i] = abs_fresh("byte", 0, 255);
	return buf + al;
}
static void bytes(int lo, int hi) {
	size_t n = lo + abs_pick("length", hi - lo + 1);
	int al = abs_pick("alignment", 4);
	uint8_t *k = key(n, al);
	uint32_t seed = abs_fresh("seed", 0, UINT32_MAX), s2 = abs_fresh("seed", 0, UINT32_MAX), pc = seed, pb = s2;
	ref(k, n, n, seed, 0);
	abs_check(my_hashlittle(k, n, seed) == c, "the hash is lookup3 of the bytes, at any alignment");
	ref(k, n, n, seed, s2);
	my_hashlittle2(k, n, &pc, &pb);
	abs_check(pc == c && pb == b, "the two hashes are lookup3 of the bytes, at any alignment");
	big = 1;
	ref(k, n, n, seed, 0);
	abs_check(my_hashbig(k, n, seed) == c, "the big-endian hash is lookup3 of the bytes, at any alignment");
	free(k - al);
	abs_reach("hashed");
}
void drv_short(void) { bytes(0, 6); }
void drv_mid(void) { bytes(7, 12); }
void drv_long(void) { bytes(13, 18); }
void drv_longer(void) { bytes(19, 26); }
static void long_key(size_t n, int al) {
	size_t sz = al + n + 4 - (al + n) % 4;
	uint8_t *k = malloc(sz);
	for (size_t i = 0; i < sz; i++) k[i] = i * 37 + i / 7 * 101 + 13;
	k += al;
	uint32_t seed = 0x8badf00d + n, s2 = 0x600df00d, pc = seed, pb = s2;
	big = 0;
	ref(k, n, n, seed, s2);
	my_hashlittle2(k, n, &pc, &pb);
	abs_check(pc == c && pb == b, "the two hashes are lookup3 of a long key");
	ref(k, n, n, seed, 0);
	abs_check(my_hashlittle(k, n, seed) == c, "the hash is lookup3 of a long key");
	big = 1;
	ref(k, n, n, seed, 0);
	abs_check(my_hashbig(k, n, seed) == c, "the big-endian hash is lookup3 of a long key");
	free(k - al);
	abs_reach("long key");
}
void drv_hash_64(void) { long_key(64, abs_pick("alignment", 4)); }
void drv_hash_255(void) { long_key(255, abs_pick("alignment", 4)); }
void drv_hash_256(void) { long_key(256, abs_pick("alignment", 4)); }
void drv_hash_300(void) { long_key(300, abs_pick("alignment", 4)); }
void drv_words(void) {
	size_t n = abs_pick("length", 8);
	uint8_t *k = key(4 * n, 0);
	uint32_t seed = abs_fresh("seed", 0, UINT32_MAX), s2 = abs_fresh("seed", 0, UINT32_MAX), pc = seed, pb = s2;
	ref(k, 4 * n, 4 * n, seed, 0);
	abs_check(my_hashword((uint32_t *)k, n, seed) == c, "the hash of words is lookup3 of them");
	ref(k, 4 * n, 4 * n, seed, s2);
	my_hashword2((uint32_t *)k, n, &pc, &pb);
	abs_check(pc == c && pb == b, "the two hashes of words are lookup3 of them");
	free(k);
	abs_reach("words");
}

/* three (or two) numbers packed after one another */
#include "abs.h"
#include "dnstable-private.h"
#include <string.h>
#include <stdlib.h>
#define OK dnstable_res_success
/* varints, written out once more: 7 bits per byte, least significant first, the top bit says that more follow */
size_t mtbl_varint_encode64(uint8_t *b, uint64_t v) {
	size_t n = 0;
	for (; v >= 128; v >>= 7) b[n++] = (uint8_t)(v | 128);
	b[n++] = (uint8_t)v;
	return n;
}
size_t mtbl_varint_decode64(const uint8_t *b, uint64_t *v) {
	uint64_t r = 0;
	size_t n = 0;
	do r |= (uint64_t)(b[n] & 127) << (7 * n); while (b[n++] >= 128 && n < 10);
	*v = r;
	return n;
}
unsigned mtbl_varint_length_packed(const uint8_t *b, size_t len) {
	for (size_t i = 0; i < len; i++) if (b[i] < 128) return i + 1;
	return 0;
}
static int width(uint64_t v) {	/* splits on the length of v */
	for (int n = 1; n < 10; n++) if ((v >> (7 * n)) == 0) return n;
	return 10;
}
static uint64_t v[3], w[3];
static uint8_t ref[40];
static size_t refn;
static void put(uint64_t x, int n) { for (int i = 0; i < n; i++) ref[refn + i] = (uint8_t)(((x >> (7 * i)) & 127) | (i + 1 < n ? 128 : 0)); refn += n; }
static size_t pack(int n, uint8_t *b) { return n == 3 ? triplet_pack(b, v[0], v[1], v[2]) : pair_pack(b, v[0], v[1]); }
static dnstable_res unpack(int n, const uint8_t *b, size_t l) { return n == 3 ? triplet_unpack(b, l, &w[0], &w[1], &w[2]) : pair_unpack(b, l, &w[0], &w[1]); }
static void round_trip(int n) {
	refn = 0;
	for (int i = 0; i < n; i++) { v[i] = abs_fresh("value", 0, UINT64_MAX); put(v[i], width(v[i])); }
	uint8_t *b = malloc(refn + 1);
	b[refn] = 0x55;
	size_t l = pack(n, b);
	abs_check(l == refn, "packed numbers are as long as their varints");
	abs_check(abs_eqbytes(b, ref, refn), "packed numbers are their varints in order");
	abs_check(b[refn] == 0x55, "nothing is written behind packed numbers");
	free(b);
	uint8_t *c = malloc(refn);
	memcpy(c, ref, refn);
	abs_check(unpack(n, c, refn) == OK, "packed numbers unpack");
	for (int i = 0; i < n; i++) abs_check(w[i] == v[i], "unpacking gives the packed numbers back, in order");
	free(c);
	abs_reach("round trip");
}
void drv_triplet(void) { round_trip(3); }
void drv_pair(void) { round_trip(2); }
/* any bytes: accepted exactly if they are that many varints and nothing else */
static void any(int n) {
	size_t len = abs_pick("length", 8), at = 0;
	int k = 0, ok = 1;
	uint8_t *b = malloc(len);
	for (size_t i = 0; i < len; i++) {
		b[i] = abs_fresh("byte", 0, 255);
		if (b[i] < 128) { k++; at = i + 1; }
	}
	ok = k == n && at == len;
	abs_check((unpack(n, b, len) == OK) == ok, "bytes unpack exactly if they are that many varints");
	abs_reach(ok ? "well formed" : "malformed");
	free(b);
}
void drv_triplet_any(void) { any(3); }
void drv_pair_any(void) { any(2); }
/* a varint of more than ten bytes is none */
static void longer(int n) {
	int which = abs_pick("which", n), m = 11 + abs_pick("more", 2);
	size_t len = n - 1 + m, j = 0;
	uint8_t *b = malloc(len);
	for (int i = 0; i < n; i++) {
		if (i == which) for (int k = 1; k < m; k++) b[j++] = 128 | abs_fresh("byte", 0, 255);
		b[j++] = abs_fresh("last", 0, 127);
	}
	abs_check(unpack(n, b, len) != OK, "a number longer than any varint does not unpack");
	abs_reach("overlong");
	free(b);
}
void drv_triplet_long(void) { longer(3); }
void drv_pair_long(void) { longer(2); }

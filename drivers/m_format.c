/* numbers and bytes as text: digits, termination, bounds, truncation */
#include "abs.h"
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/my_format.h"
static void hex(int n, int room) {
	uint8_t *b = malloc(n);
	for (int i = 0; i < n; i++) b[i] = abs_fresh("byte", 0, 255);
	bool up = abs_pick("upper case", 2);
	char *d = malloc(room);
	int want = 2 * n > room - 1 ? (room - 1) / 2 : n;
	size_t r = my_bytes_to_hex_str(b, n, up, d, room);
	abs_check(r == (size_t)(2 * want), "the size is that of the digits which fit");
	const char *D = up ? "0123456789ABCDEF" : "0123456789abcdef";
	for (int i = 0; i < want; i++)
		abs_check(d[2 * i] == D[b[i] >> 4] && d[2 * i + 1] == D[b[i] & 15], "every byte is two hexadecimal digits");
	abs_check(d[2 * want] == 0, "hexadecimal text is terminated");
	free(d); free(b);
	abs_reach(want < n ? "hex truncated" : "hex");
}
void drv_hex(void) { int n = abs_pick("bytes", 4); hex(n, 1 + abs_pick("room", 8)); }
void drv_hex16(void) {
	uint16_t v = abs_u16("number");
	int room = 1 + abs_pick("room", 6);
	char *d = malloc(room);
	size_t r = my_uint16_to_hex_str(v, false, d, room);
	size_t want = room >= 5 ? 4 : room >= 3 ? 2 : 0;
	abs_check(r == want && d[r] == 0, "as many digits as fit");
	for (size_t i = 0; i < want; i++) abs_check(d[i] == "0123456789abcdef"[v >> (12 - 4 * i) & 15], "a number is written from its highest digit");
	free(d);
	abs_reach("hex16");
}
static void dec(uint64_t v, int room) {
	char *d = malloc(room);
	for (int i = 0; i < room; i++) d[i] = '#';
	const char *s = NULL;
	int digits = 0;
	char want[24];
	uint64_t x = v;
	for (int i = 0; i < room - 1; i++) { want[i] = '0' + x % 10; digits++; x /= 10; if (x == 0) break; }
	size_t r = my_uint64_to_str(v, d, room, abs_pick("start wanted", 2) ? &s : NULL);
	abs_check(r == (size_t)digits, "the number of digits is of those written");
	abs_check(d[room - 1] == 0, "decimal text is terminated at the end of the buffer");
	abs_check(s == NULL || s == d + room - 1 - digits, "the text starts at its first digit");
	for (int i = 0; i < digits; i++) abs_check(d[room - 2 - i] == want[i], "every decimal digit is right");
	for (int i = 0; i < room - 1 - digits; i++) abs_check(d[i] == '#', "nothing is written before the first digit");
	free(d);
	abs_reach("dec");
}
void drv_dec(void) { dec(abs_u64("number"), 21); }
void drv_dec_short(void) { dec(abs_u64("number"), 1 + abs_pick("room", 6)); }

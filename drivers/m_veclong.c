/* long histories of growable vectors, with known contents */
#include "abs.h"
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/ubuf.h"
struct big { uint64_t a; uint32_t b; char c[12]; };
VECTOR_GENERATE(vb, struct big);
VECTOR_GENERATE(v32, uint32_t);
static unsigned mix(unsigned i) { return i * 2654435761u >> 7; }
#define N 1300
static uint32_t src[N];
static void holds(v32 *v, unsigned n) {
	abs_check(v32_size(v) == n && v32_bytes(v) == n * 4, "the vector holds as many elements as were put in");
	abs_check(v32_ptr(v) == v32_data(v) + n, "the write position is one past the last element");
	for (unsigned i = 0; i < n; i++) abs_check(v32_data(v)[i] == mix(i), "element i is the element put in i-th");
}
static void v_long(unsigned hint, unsigned chunk) {
	v32 *v = v32_init(hint), *w = v32_init(3);
	unsigned n = 0, i, k;
	for (i = 0; i < N; i++) src[i] = mix(i);
	while (n < N - chunk) {
		k = n % 3;
		if (k == 0) { v32_append(v, src + n, chunk); n += chunk; }
		else if (k == 1) { v32_add(v, src[n]); n++; }
		else {
			v32_reserve(v, chunk + 2);
			memcpy(v32_ptr(v), src + n, chunk * 4);
			v32_advance(v, chunk);
			n += chunk;
			if (n < N) { v32_add(v, src[n]); n++; }
		}
	}
	holds(v, n);
	v32_extend(w, v);
	holds(w, n);
	v32_clip(v, n);
	holds(v, n);
	v32_clip(v, n / 2 + 3);
	holds(v, n / 2 + 3);
	for (i = n / 2 + 3; i < n; i++) v32_add(v, src[i]);
	holds(v, n);
	v32_reset(w);
	holds(w, 0);
	for (i = 0; i < 70; i++) v32_add(w, src[i]);
	holds(w, 70);
	uint32_t *out;
	size_t len;
	v32_detach(v, &out, &len);
	abs_check(len == n, "detach hands over every element");
	for (i = 0; i < n; i++) abs_check(out[i] == mix(i), "detached element i is element i");
	free(out);
	holds(v, 0);
	v32_append(v, src, 200);
	holds(v, 200);
	v32_extend(v, w);
	abs_check(v32_size(v) == 270 && v32_value(v, 200) == mix(0) && v32_value(v, 269) == mix(69), "one vector follows the other");
	v32_clip(v, 0);
	holds(v, 0);
	v32_destroy(&v);
	v32_destroy(&w);
	abs_reach("long history");
}
void drv_long_1(void) { v_long(1, 9); }
void drv_long_2(void) { v_long(2, 100); }
void drv_long_5(void) { v_long(5, 257); }
void drv_long_10(void) { v_long(10, 64); }
void drv_long_64(void) { v_long(64, 33); }
/* elements of many bytes */
void drv_large_elements(void) {
	vb *v = vb_init(1 + abs_pick("hint", 3));
	struct big e;
	memset(&e, 0, sizeof(e));
	for (unsigned i = 0; i < 150; i++) {
		e.a = mix(i); e.b = ~mix(i); e.c[0] = e.c[11] = i;
		vb_add(v, e);
	}
	abs_check(vb_size(v) == 150 && vb_bytes(v) == 150 * sizeof(e), "the vector holds as many elements as were put in");
	for (unsigned i = 0; i < 150; i++) {
		e = vb_value(v, i);
		abs_check(e.a == mix(i) && e.b == ~mix(i) && e.c[0] == (char) i && e.c[11] == (char) i, "element i is the element put in i-th");
	}
	vb_destroy(&v);
}
/* text appended by a format: this formatter writes as many letters as it was told to */
static int flen;
int vsnprintf(char *s, size_t n, const char *f, va_list ap) {
	abs_check(f[0] == '%' && f[1] == 'Q', "the format is handed on");
	for (int i = 0; i < flen && (size_t) i + 1 < n; i++) s[i] = 'a' + i % 26;
	if (n) s[(size_t) flen < n ? (size_t) flen : n - 1] = 0;
	return flen;
}
void drv_ubuf_fmt_text(void) {
	static const int L[] = { 0, 1, 2, 14, 15, 16, 31, 62, 63, 64, 65, 127, 128, 300 }, H[] = { 1, 2, 16, 64 }, S[] = { 0, 1, 2, 15, 63, 64, 65, 200 };
	ubuf *u = ubuf_init(H[abs_pick("hint", 4)]);
	int s = S[abs_pick("before", 8)], z = abs_pick("terminated", 2);
	for (int i = 0; i < s; i++) ubuf_add(u, '0' + i % 10);
	if (z) ubuf_cterm(u);
	flen = L[abs_pick("formatted", 14)];
	ubuf_add_fmt(u, "%Q", 1);
	abs_check(ubuf_size(u) == (size_t) (s + flen), "formatted text follows what was there, a terminator apart");
	for (int i = 0; i < s; i++) abs_check(ubuf_value(u, i) == '0' + i % 10, "what was there stays");
	for (int i = 0; i < flen; i++) abs_check(ubuf_value(u, s + i) == 'a' + i % 26, "the formatted text is appended whole");
	int l2 = flen;
	flen = 3;
	ubuf_add_fmt(u, "%Q", 2);
	abs_check(ubuf_size(u) == (size_t) (s + l2 + 3), "more formatted text follows");
	for (int i = 0; i < 3; i++) abs_check(ubuf_value(u, s + l2 + i) == 'a' + i, "more formatted text is appended whole");
	for (int i = 0; i < l2; i++) abs_check(ubuf_value(u, s + i) == 'a' + i % 26, "earlier formatted text stays");
	char *c = ubuf_cstr(u);
	abs_check(c[s + l2 + 3] == 0 && ubuf_size(u) == (size_t) (s + l2 + 4), "the text is terminated");
	ubuf_destroy(&u);
	abs_reach("formatted");
}
/* long strings */
void drv_ubuf_long(void) {
	static const int S[] = { 63, 64, 65, 127, 128, 129, 255, 256, 400 };
	static char t[401];
	int n = S[abs_pick("length", 9)], m = S[abs_pick("length", 9)];
	for (int i = 0; i < n; i++) t[i] = '!' + i % 90;
	t[n] = 0;
	ubuf *u = abs_pick("fresh", 2) ? ubuf_dup_cstr(t) : ubuf_new();
	if (ubuf_size(u) == 0) ubuf_add_cstr(u, t);
	abs_check(ubuf_size(u) == (size_t) n, "the buffer is as long as its text");
	if (abs_pick("terminated", 2)) ubuf_cterm(u);
	for (int i = 0; i < m; i++) t[i] = '#' + i % 80;
	t[m] = 0;
	ubuf_add_cstr(u, t);
	abs_check(ubuf_size(u) == (size_t) (n + m), "text follows text");
	ubuf_rstrip(u, '#' + (m - 1) % 80);
	abs_check(ubuf_size(u) == (size_t) (n + m - 1), "one character is stripped");
	ubuf_add(u, '~');
	char *c = ubuf_cstr(u);
	for (int i = 0; i < n; i++) abs_check(c[i] == '!' + i % 90, "the first text stays");
	for (int i = 0; i + 1 < m; i++) abs_check(c[n + i] == '#' + i % 80, "the second text is whole");
	abs_check(c[n + m - 1] == '~' && c[n + m] == 0, "the text ends with what was put last");
	ubuf_destroy(&u);
	abs_reach("long text");
}

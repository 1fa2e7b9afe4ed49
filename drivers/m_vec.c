#include "abs.h"
#include <stdlib.h>
#include <string.h>
#include "libmy/ubuf.h"

typedef uint32_t elem;
VECTOR_GENERATE(v32, elem);

static elem ref[64];
static size_t nref;
static int deep;

static void same(v32 *v) {
	abs_check(v32_size(v) == nref, "the vector holds as many elements as were put in");
	abs_check(v32_bytes(v) == nref * sizeof(elem), "the byte count is the element count times the element size");
	abs_check(v32_ptr(v) == v32_data(v) + nref, "the write position is one past the last element");
	for (size_t i = 0; i < nref; i++) {
		abs_check(v32_value(v, i) == ref[i], "element i is the element put in i-th");
		abs_check(v32_data(v)[i] == ref[i], "the data is contiguous");
	}
}
static void put(elem e) { ref[nref++] = e; }

static void step(v32 *v, int i) {
	elem src[6];
	size_t k;
	switch (abs_pick("operation", 8)) {
	case 0: {
		elem e = abs_fresh("element", 0, 0xffffffff);
		v32_add(v, e);
		put(e);
		abs_reach("add");
		break;
	}
	case 1:
		k = deep ? 2 * abs_pick("elements", 3) : abs_pick("elements", 6);
		for (size_t j = 0; j < k; j++) { src[j] = abs_fresh("element", 0, 0xffffffff); put(src[j]); }
		v32_append(v, src, k);
		abs_reach("append");
		break;
	case 2:
		k = abs_pick("clip to", deep ? 2 : 4);
		v32_clip(v, k);
		if (k < nref) nref = k;
		abs_reach("clip");
		break;
	case 3:
		v32_reset(v);
		nref = 0;
		abs_reach("reset");
		break;
	case 4: {
		elem *p; size_t n;
		v32_detach(v, &p, &n);
		abs_check(n == nref, "detach hands over every element");
		for (size_t j = 0; j < n; j++) abs_check(p[j] == ref[j], "detached element i is element i");
		free(p);
		nref = 0;
		abs_reach("detach");
		break;
	}
	case 5:
		k = deep ? 2 * abs_pick("elements", 3) : abs_pick("elements", 6);
		v32_reserve(v, k);
		for (size_t j = 0; j < k; j++) { v32_ptr(v)[j] = abs_fresh("element", 0, 0xffffffff); put(v32_ptr(v)[j]); }
		v32_advance(v, k);
		abs_reach("reserve");
		break;
	case 6: {
		v32 *w = v32_init(1);
		k = deep ? 1 : abs_pick("elements", 3);
		for (size_t j = 0; j < k; j++) { elem e = abs_fresh("element", 0, 0xffffffff); v32_add(w, e); put(e); }
		v32_extend(v, w);
		abs_check(v32_size(w) == k, "extend leaves the second vector alone");
		v32_destroy(&w);
		abs_check(w == NULL, "destroy clears the pointer");
		abs_reach("extend");
		break;
	}
	case 7:
		k = abs_pick("hint", deep ? 2 : 3);
		free(v32_data(v));
		v32_reinit(k, v);
		nref = 0;
		abs_reach("reinit");
		break;
	}
	same(v);
}
static void seq(int steps) {
	v32 *v = v32_init(deep ? 2 : abs_pick("hint", 4));
	nref = 0;
	same(v);
	for (int i = 0; i < steps; i++) step(v, i);
	v32_destroy(&v);
	abs_check(v == NULL, "destroy clears the pointer");
}
void drv_vec1(void) { seq(1); }
void drv_vec2(void) { seq(2); }
void drv_vec3(void) { deep = 1; seq(3); }
void drv_vec_destroy_null(void) {
	v32 *v = NULL;
	v32_destroy(&v);
}
/* any sizes */
void drv_vec_any(void) {
	v32 *v = v32_init(abs_range("hint", 0, 1 << 10));
	size_t n = abs_range("n", 0, 1UL << 16), m = abs_range("m", 0, 1UL << 16), c = abs_range("c", 0, 1UL << 20);
	elem *src = abs_robuf("src", n * sizeof(elem)), *src2 = abs_robuf("src2", m * sizeof(elem));
	v32_append(v, src, n);
	abs_check(v32_size(v) == n, "append adds n elements");
	abs_check(abs_eqbytes(v32_data(v), src, n * sizeof(elem)), "append copies n elements");
	v32_append(v, src2, m);
	abs_check(v32_size(v) == n + m, "append adds m elements");
	v32_clip(v, c);
	abs_check(v32_size(v) == (c < n + m ? c : n + m), "clip never grows a vector");
	v32_destroy(&v);
}
/* byte buffers */
static void ubuf_is(ubuf *u, const uint8_t *p, size_t n) {
	abs_check(ubuf_size(u) == n, "the buffer is as long as what was written");
	abs_check(abs_eqbytes(ubuf_data(u), p, n), "the buffer holds what was written");
}
void drv_ubuf_text(void) {
	uint8_t buf[64];
	size_t n = abs_pick("bytes", 3), l, k = abs_pick("string", 3);
	const char *s = k == 0 ? "" : k == 1 ? "a" : "bcd";
	uint8_t *in = abs_robuf("in", n);
	ubuf *u = ubuf_new();
	ubuf_append(u, in, n);
	memcpy(buf, in, n);
	l = n > 0 && buf[n - 1] == 0 ? n - 1 : n;
	switch (abs_pick("operation", 6)) {
	case 0:
		ubuf_add_cstr(u, s);
		memcpy(buf + l, s, strlen(s));
		ubuf_is(u, buf, l + strlen(s));
		abs_reach("add_cstr");
		break;
	case 1:
		ubuf_cterm(u);
		buf[l] = 0;
		ubuf_is(u, buf, l + 1);
		abs_reach("cterm");
		break;
	case 2: {
		char *c = ubuf_cstr(u);
		buf[l] = 0;
		abs_check(abs_eqbytes(c, buf, l + 1), "ubuf_cstr gives the terminated contents");
		break;
	}
	case 3: {
		char c = abs_u8("strip");
		ubuf_rstrip(u, c);
		ubuf_is(u, buf, n > 0 && buf[n - 1] == (uint8_t) c ? n - 1 : n);
		abs_reach("rstrip");
		break;
	}
	case 4: {
		ubuf *w = ubuf_dup_cstr(s);
		ubuf_is(w, (const uint8_t *) s, strlen(s));
		ubuf_destroy(&w);
		break;
	}
	case 5:
		ubuf_append_cstr_lit(u, "xyz");
		memcpy(buf + n, "xyz", 3);
		ubuf_is(u, buf, n + 3);
		break;
	}
	ubuf_destroy(&u);
}
/* formatted text of any length fits */
void drv_ubuf_fmt(void) {
	ubuf *u = ubuf_init(abs_range("hint", 1, 64));
	size_t n = abs_range("n", 0, 1UL << 10);
	uint8_t *in = abs_robuf("in", n);
	char *s = abs_str("s");
	abs_assume(strlen(s) < 1UL << 30);
	ubuf_append(u, in, n);
	ubuf_add_fmt(u, "%s:%u", s, abs_u32("v"));
	abs_check(ubuf_size(u) >= n - (n > 0 ? 1 : 0), "formatted text is appended");
	ubuf_destroy(&u);
}

#include "abs.h"
#include <stdlib.h>
#include "libmy/heap.h"

/* items are pointers into keys[]; keys are unknown */
static uint32_t keys[8];
static int popped[8];

static int cmp(const void *a, const void *b) {
	uint32_t x = *(const uint32_t *) a, y = *(const uint32_t *) b;
	return x < y ? -1 : x > y;
}
static int idx(const void *p) {
	for (int i = 0; i < 8; i++) if (p == &keys[i]) return i;
	return -1;
}
/* everything comes out once, smallest first */
static void drain(struct heap *h, int lo, int n) {
	uint32_t last = 0;
	int seen = 0;
	abs_check(heap_size(h) == (size_t) n, "the heap holds every item put in");
	for (int i = 0; i < n; i++) {
		void *top = heap_peek(h), *p = heap_pop(h);
		abs_check(p != NULL && p == top, "pop returns the item peek showed");
		int k = idx(p);
		abs_check(k >= lo && k < lo + n && !(seen >> k & 1), "each item comes out once");
		seen |= 1 << k;
		if (i) abs_check(last <= keys[k], "items come out smallest first");
		last = keys[k];
	}
	abs_check(heap_size(h) == 0 && heap_pop(h) == NULL && heap_peek(h) == NULL, "an empty heap has no first item");
}
static void fill(int n) {
	for (int i = 0; i < n; i++) keys[i] = abs_fresh("key", 0, 0xffffffff);
}
static void pushes(int n) {
	struct heap *h = heap_init(cmp);
	fill(n);
	for (int i = 0; i < n; i++) heap_push(h, &keys[i]);
	drain(h, 0, n);
	abs_reach("pushed and popped");
	heap_destroy(&h);
	abs_check(h == NULL, "destroy clears the pointer");
}
void drv_heap_push0(void) { pushes(0); }
void drv_heap_push1(void) { pushes(1); }
void drv_heap_push2(void) { pushes(2); }
void drv_heap_push3(void) { pushes(3); }
void drv_heap_push4(void) { pushes(4); }
void drv_heap_push5(void) { pushes(5); }
static void heapify(int n) {
	struct heap *h = heap_init(cmp);
	fill(n);
	for (int i = 0; i < n; i++) heap_add(h, &keys[i]);
	for (int i = 0; i < n; i++) abs_check(heap_get(h, i) == &keys[i], "add appends, get reads the i-th slot");
	abs_check(heap_get(h, n) == NULL, "there is no item past the last");
	heap_heapify(h);
	drain(h, 0, n);
	abs_reach("heapified");
	heap_destroy(&h);
}
void drv_heap_heapify0(void) { heapify(0); }
void drv_heap_heapify1(void) { heapify(1); }
void drv_heap_heapify2(void) { heapify(2); }
void drv_heap_heapify3(void) { heapify(3); }
void drv_heap_heapify4(void) { heapify(4); }
void drv_heap_heapify5(void) { heapify(5); }
static void replace(int n) {
	struct heap *h = heap_init(cmp);
	fill(n + 1);
	for (int i = 0; i < n; i++) heap_push(h, &keys[i]);
	void *top = heap_peek(h), *p = heap_replace(h, &keys[n]);
	abs_check(p == top, "replace returns the smallest item");
	if (n == 0) {
		abs_check(p == NULL && heap_size(h) == 0, "replacing in an empty heap does nothing");
	} else {
		uint32_t last = 0;
		abs_check(heap_size(h) == (size_t) n, "replace keeps the number of items");
		int seen = 1 << idx(p);
		for (int i = 0; i < n; i++) {
			int k = idx(heap_pop(h));
			abs_check(k >= 0 && !(seen >> k & 1), "each item comes out once");
			seen |= 1 << k;
			if (i) abs_check(last <= keys[k], "items come out smallest first");
			last = keys[k];
		}
	}
	abs_reach("replaced");
	heap_destroy(&h);
}
void drv_heap_replace0(void) { replace(0); }
void drv_heap_replace1(void) { replace(1); }
void drv_heap_replace2(void) { replace(2); }
void drv_heap_replace3(void) { replace(3); }
void drv_heap_replace4(void) { replace(4); }
void drv_heap_push6(void) { pushes(6); }
void drv_heap_heapify6(void) { heapify(6); }
void drv_heap_replace6(void) { replace(6); }
/* many items */
static uint32_t mk[310];
static int from_, to_;
static void heap_of(int f, int t);
void drv_heap_many(void) { heap_of(0, 7); }
void drv_heap_hundreds(void) { heap_of(7, 8); }
void drv_heap_largest(void) { heap_of(8, 9); }
static void heap_of(int f, int t) {
	from_ = f; to_ = t;
	static const int N[] = { 9, 15, 16, 17, 33, 64, 100, 135, 300 };
	int n = N[from_ + abs_pick("items", to_ - from_)], how = abs_pick("order", 5), fill = abs_pick("how filled", 3), seen[310] = { 0 };
	struct heap *h = heap_init(cmp);
	for (int i = 0; i < n; i++) mk[i] = how == 0 ? i : how == 1 ? n - i : how == 2 ? (i * 37u + 11) % 101 : how == 3 ? i / 3 : ((i * 53u) ^ (i >> 2)) % 64;
	if (fill == 0) for (int i = 0; i < n; i++) heap_push(h, &mk[i]);
	else if (fill == 1) { for (int i = 0; i < n; i++) heap_add(h, &mk[i]); heap_heapify(h); }
	else {
		for (int i = 0; i < n - 5; i++) heap_push(h, &mk[i]);
		for (int i = n - 5; i < n; i++) {
			uint32_t *top = heap_peek(h), *p = heap_replace(h, &mk[i]);
			abs_check(p == top && p >= mk && p < mk + i && !seen[p - mk], "replace returns the smallest item");
			for (int j = 0; j < i; j++) abs_check(seen[j] || mk[j] >= *p, "replace returns the smallest item");
			seen[p - mk] = 1;
		}
	}
	uint32_t last = 0;
	int m = fill == 2 ? n - 5 : n;
	abs_check(heap_size(h) == (size_t)m, "the heap holds every item put in");
	for (int i = 0; i < m; i++) {
		uint32_t *p = heap_pop(h);
		abs_check(p >= mk && p < mk + n && !seen[p - mk], "each item comes out once");
		seen[p - mk] = 1;
		abs_check(last <= *p, "items come out smallest first");
		last = *p;
	}
	abs_check(heap_pop(h) == NULL, "an empty heap has no first item");
	abs_reach("many");
	heap_destroy(&h);
}
/* pop, then push again */
void drv_heap_mixed(void) {
	struct heap *h = heap_init(cmp);
	fill(5);
	for (int i = 0; i < 3; i++) heap_push(h, &keys[i]);
	void *a = heap_pop(h);
	heap_push(h, &keys[3]);
	void *b = heap_pop(h);
	abs_check(a != b, "each item comes out once");
	heap_push(h, &keys[4]);
	int seen = 1 << idx(a) | 1 << idx(b);
	uint32_t last = 0;
	for (int i = 0; i < 3; i++) {
		int k = idx(heap_pop(h));
		abs_check(k >= 0 && !(seen >> k & 1), "each item comes out once");
		seen |= 1 << k;
		if (i) abs_check(last <= keys[k], "items come out smallest first");
		last = keys[k];
	}
	heap_destroy(&h);
}
void drv_heap_clip(void) {
	struct heap *h = heap_init(cmp);
	fill(4);
	for (int i = 0; i < 4; i++) heap_push(h, &keys[i]);
	int n = abs_pick("clip to", 6);
	if (n == 5) { heap_reset(h); n = 0; } else heap_clip(h, n);
	abs_check(heap_size(h) == (size_t) n, "clip keeps the first n slots, reset keeps none");
	uint32_t last = 0;
	for (int i = 0; i < n; i++) {
		int k = idx(heap_pop(h));
		abs_check(k >= 0, "clipped heap");
		if (i) abs_check(last <= keys[k], "items come out smallest first");
		last = keys[k];
	}
	heap_destroy(&h);
	heap_destroy(&h);
}

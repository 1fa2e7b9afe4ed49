#include "abs.h"
#include <string.h>
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mutex_ops, my_queue_mb_ops;

static uint8_t vals[16][4];
static unsigned nin, nout, cap;
static const struct my_queue_ops *o;

static void ins(struct my_queue *q, int watch) {
	unsigned space = 77;
	uint8_t item[4];
	uint32_t v = abs_fresh("element", 0, 0xffffffff);
	memcpy(item, &v, 4);
	memcpy(vals[nin], &v, 4);
	bool full = nin - nout == cap - 1;
	abs_end("queue_begin", 0, 0);
	bool r = o->insert(q, item, &space);
	abs_endp("queue_end", q, 0);
	abs_check(r == !full, "insert succeeds exactly while fewer than size - 1 elements are queued");
	if (r) nin++;
	abs_check(space == cap - 1 - (nin - nout), "insert reports the space left");
	abs_reach(r ? "inserted" : "full");
}
static void rem(struct my_queue *q) {
	unsigned count = 77;
	uint8_t item[4] = {0};
	bool empty = nin == nout;
	abs_end("queue_begin", 0, 0);
	bool r = o->remove(q, item, &count);
	abs_endp("queue_end", q, 1);
	abs_check(r == !empty, "remove succeeds exactly while elements are queued");
	if (r) {
		abs_check(abs_eqbytes(item, vals[nout], 4), "elements come out in the order they went in");
		nout++;
	}
	abs_check(count == nin - nout, "remove reports the number of elements left");
	abs_reach(r ? "removed" : "empty");
}
static void seq(int mutex, unsigned c, unsigned steps) {
	cap = c;
	o = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	struct my_queue *q = o->init(cap, 4);
	abs_check(q != NULL, "a power of two of at least two slots is accepted");
	unsigned rot = abs_pick("rotation", cap);
	for (unsigned i = 0; i < rot; i++) { ins(q, 0); rem(q); }
	for (unsigned i = 0; i < steps; i++) {
		if (abs_pick("operation", 2)) ins(q, 1); else rem(q);
	}
	abs_endp("queue_check", q, mutex);
	o->destroy(&q);
	abs_check(q == NULL, "destroy clears the pointer");
	o->destroy(&q);
	abs_reach("sequence done");
}
static void fill(int mutex, unsigned c) {
	cap = c;
	o = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	struct my_queue *q = o->init(cap, 4);
	for (unsigned i = 0; i < cap; i++) ins(q, 1);
	for (unsigned i = 0; i < cap; i++) rem(q);
	o->destroy(&q);
}
void drv_queue_mutex2(void) { seq(1, 2, 5); }
void drv_queue_mutex4(void) { seq(1, 4, 6); }
void drv_queue_mb2(void) { seq(0, 2, 5); }
void drv_queue_mb4(void) { seq(0, 4, 6); }
void drv_queue_mutex8(void) { fill(1, 8); }
void drv_queue_mb8(void) { fill(0, 8); }
static void sizes(int mutex) {
	o = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	unsigned n = abs_pick("slots", 18);
	struct my_queue *q = o->init(n, 1 + abs_pick("bytes", 3));
	abs_check((q != NULL) == (n == 2 || n == 4 || n == 8 || n == 16), "the slot count must be a power of two of at least two");
	o->destroy(&q);
	abs_check(strlen(o->impl_type()) > 0, "the implementation has a name");
}
void drv_queue_sizes_mutex(void) { sizes(1); }
void drv_queue_sizes_mb(void) { sizes(0); }
/* no counters wanted, elements of any size */
static void anysize(int mutex) {
	o = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	unsigned sz = abs_range("element size", 1, 1 << 20);
	struct my_queue *q = o->init(4, sz);
	uint8_t *a = abs_robuf("a", sz), *b = abs_robuf("b", sz), *c = abs_buf("c", sz);
	abs_check(o->insert(q, a, NULL) && o->insert(q, b, NULL), "two elements fit");
	abs_check(o->remove(q, c, NULL), "an element comes out");
	abs_check(abs_eqbytes(c, a, sz), "the first element comes out first");
	abs_check(o->remove(q, c, NULL), "an element comes out");
	abs_check(abs_eqbytes(c, b, sz), "the second element comes out second");
	abs_check(!o->remove(q, c, NULL), "the queue is empty");
	o->destroy(&q);
}
void drv_queue_any_mutex(void) { anysize(1); }
void drv_queue_any_mb(void) { anysize(0); }
/* many rounds through larger queues, items of several sizes */
static void rounds(int mutex, unsigned slots, unsigned size, unsigned lead) {
	static uint8_t a[64], b[64];
	o = mutex ? &my_queue_mutex_ops : &my_queue_mb_ops;
	struct my_queue *q = o->init(slots, size);
	unsigned in = 0, out = 0, x, i;
	for (unsigned step = 0; step < 3 * slots; step++) {
		unsigned k = step % 5 < 2 ? lead : step % 5 == 4 ? slots : 1;
		for (; k; k--) {
			for (i = 0; i < size; i++) a[i] = in * 31 + i * 7;
			x = 77;
			bool full = in - out == slots - 1;
			abs_check(o->insert(q, a, k & 1 ? &x : NULL) == !full, "insert succeeds exactly while fewer than size - 1 elements are queued");
			in += !full;
			if (k & 1) abs_check(x == slots - 1 - (in - out), "insert reports the space left");
			if (full) break;
		}
		k = step % 7 == 6 ? slots : step % 3 + 1;
		for (; k; k--) {
			x = 77;
			bool empty = in == out;
			abs_check(o->remove(q, b, k & 1 ? &x : NULL) == !empty, "remove succeeds exactly while elements are queued");
			if (!empty) {
				for (i = 0; i < size; i++) abs_check(b[i] == (uint8_t)(out * 31 + i * 7), "elements come out in the order they went in");
				out++;
			}
			if (k & 1) abs_check(x == in - out, "remove reports the number of elements left");
			if (empty) break;
		}
	}
	o->destroy(&q);
	abs_reach("rounds");
}
void drv_queue_rounds_mb(void) { rounds(0, 16, 12, 9); }
void drv_queue_rounds_mb2(void) { rounds(0, 64, 8, 40); }
void drv_queue_rounds_mb3(void) { rounds(0, 32, 33, 20); }
void drv_queue_rounds_mutex(void) { rounds(1, 16, 12, 9); }
void drv_queue_rounds_mutex2(void) { rounds(1, 64, 8, 40); }
void drv_queue_rounds_mutex3(void) { rounds(1, 32, 33, 20); }
/* large powers of two, and their neighbours */
void drv_queue_slots(void) {
	static const unsigned S[] = { 0, 1, 31, 32, 33, 96, 128, 255, 256, 257, 768, 1024, 4095, 4096, 65536, 65537, 98304 };
	for (unsigned m = 0; m < 2; m++) {
		o = m ? &my_queue_mutex_ops : &my_queue_mb_ops;
		for (unsigned i = 0; i < sizeof(S) / sizeof(S[0]); i++) {
			unsigned n = S[i];
			struct my_queue *q = o->init(n, 1);
			abs_check((q != NULL) == (n > 1 && (n & (n - 1)) == 0), "the slot count must be a power of two of at least two");
			o->destroy(&q);
		}
	}
}

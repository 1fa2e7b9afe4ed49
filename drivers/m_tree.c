/* red-black and splay trees: order, membership, balance */
#include "abs.h"
#include <stdlib.h>
#include "libmy/tree.h"
struct node { int key; RB_ENTRY(node) rb; SPLAY_ENTRY(node) sp; };
static int cmp(struct node *a, struct node *b) { return a->key < b->key ? -1 : a->key > b->key; }
RB_HEAD(rbt, node);
RB_PROTOTYPE(rbt, node, rb, cmp)
RB_GENERATE(rbt, node, rb, cmp)
SPLAY_HEAD(spt, node);
SPLAY_PROTOTYPE(spt, node, sp, cmp)
SPLAY_GENERATE(spt, node, sp, cmp)
#define MAX 40
static struct node nd[MAX];
static int in[MAX];	/* key i is in the tree */
static struct rbt rb = RB_INITIALIZER(&rb);
/* black height of a subtree; every rule of the colours on the way */
static int height(struct node *n, struct node *up) {
	if (n == NULL) return 1;
	abs_check(RB_PARENT(n, rb) == up, "a node knows its parent");
	abs_check(!(RB_COLOR(n, rb) == RB_RED && up && RB_COLOR(up, rb) == RB_RED), "no red node has a red child");
	int l = height(RB_LEFT(n, rb), n), r = height(RB_RIGHT(n, rb), n);
	abs_check(l == r, "every path down has as many black nodes");
	return l + (RB_COLOR(n, rb) == RB_BLACK);
}
static void rb_look(int n) {
	struct node *x = RB_MIN(rbt, &rb), *last = NULL, k;
	int first = -1, prev = -1;
	height(RB_ROOT(&rb), NULL);
	abs_check(RB_EMPTY(&rb) || RB_COLOR(RB_ROOT(&rb), rb) == RB_BLACK, "the root is black");
	for (int i = 0; i < n; i++) {
		k.key = i;
		struct node *f = RB_FIND(rbt, &rb, &k);
		abs_check(f == (in[i] ? &nd[i] : NULL), "exactly what is in the tree is found");
		if (!in[i]) continue;
		abs_check(x == &nd[i], "the tree is walked in order, each element once");
		abs_check(RB_PREV(rbt, &rb, x) == last, "walking back leads to the element before");
		last = x;
		x = RB_NEXT(rbt, &rb, x);
		for (int j = prev + 1; j <= i; j++) { k.key = j; abs_check(RB_NFIND(rbt, &rb, &k) == &nd[i], "the first element not below a key is found"); }
		prev = i;
	}
	abs_check(x == NULL, "the walk ends after the last element");
	abs_check(RB_MAX(rbt, &rb) == last, "the last element is the maximum");
	k.key = n;
	abs_check(RB_NFIND(rbt, &rb, &k) == NULL, "nothing is beyond the last element");
}
static void rb_put(int i) {
	nd[i].key = i;
	abs_check(RB_INSERT(rbt, &rb, &nd[i]) == NULL, "a new element goes in");
	in[i] = 1;
	struct node dup = { .key = i };
	abs_check(RB_INSERT(rbt, &rb, &dup) == &nd[i], "an element equal to one in the tree is refused");
}
static void rb_del(int i) {
	abs_check(RB_REMOVE(rbt, &rb, &nd[i]) == &nd[i], "an element is taken out");
	in[i] = 0;
}
static void rb_orders(int n, int first, int del) {
	for (int c = 0; c < n; c++) {
		int r = c == 0 ? first : abs_pick("insert", n - c), i = 0;
		for (i = 0; i < n; i++) if (!in[i] && r-- == 0) break;
		rb_put(i);
	}
	rb_look(n);
	for (int c = 0; c < del; c++) {
		int r = abs_pick("remove", n - c), i;
		for (i = 0; i < n; i++) if (in[i] && r-- == 0) break;
		rb_del(i);
	}
	rb_look(n);
	abs_reach("red-black");
}
void drv_rb_5_0(void) { rb_orders(5, 0, 1); }
void drv_rb_5_1(void) { rb_orders(5, 1, 1); }
void drv_rb_5_2(void) { rb_orders(5, 2, 1); }
void drv_rb_5_3(void) { rb_orders(5, 3, 1); }
void drv_rb_5_4(void) { rb_orders(5, 4, 1); }
void drv_rb_4(void) { rb_orders(4, abs_pick("first", 4), 2); }
void drv_rb_3(void) { rb_orders(3, abs_pick("first", 3), 3); }
/* larger trees, built in one of three orders, and any elements taken out */
static void rb_large(int how) {
	static const int Z[10] = { 4, 8, 2, 6, 0, 9, 5, 1, 7, 3 };
	for (int i = 0; i < 10; i++) rb_put(how == 0 ? i : how == 1 ? 10 - 1 - i : Z[i]);
	rb_look(10);
	int a = abs_pick("remove", 10);
	rb_del(a);
	int b = abs_pick("remove", 10);
	if (b != a) rb_del(b);
	int c = abs_pick("remove all but", 3);
	for (int i = 0; i < 10; i++) if (in[i] && i % 3 != c) rb_del(i);
	rb_look(10);
	rb_put(a);
	rb_look(10);
	abs_reach("large");
}
void drv_rb_large_0(void) { rb_large(0); }
void drv_rb_large_1(void) { rb_large(1); }
void drv_rb_large_2(void) { rb_large(2); }
/* the same of splay trees */
static struct spt sp = SPLAY_INITIALIZER(&sp);
static void sp_look(int n) {
	struct node *x = SPLAY_MIN(spt, &sp), k, *last = NULL;
	for (int i = 0; i < n; i++) {
		if (!in[i]) continue;
		abs_check(x == &nd[i], "the tree is walked in order, each element once");
		last = x;
		x = SPLAY_NEXT(spt, &sp, x);
	}
	abs_check(x == NULL, "the walk ends after the last element");
	abs_check(SPLAY_MAX(spt, &sp) == last, "the last element is the maximum");
	for (int i = 0; i < n; i++) {
		k.key = i;
		abs_check(SPLAY_FIND(spt, &sp, &k) == (in[i] ? &nd[i] : NULL), "exactly what is in the tree is found");
	}
}
void drv_splay(void) {
	int n = 4;
	for (int c = 0; c < n; c++) {
		int r = abs_pick("insert", n - c), i;
		for (i = 0; i < n; i++) if (!in[i] && r-- == 0) break;
		nd[i].key = i;
		abs_check(SPLAY_INSERT(spt, &sp, &nd[i]) == NULL, "a new element goes in");
		in[i] = 1;
		struct node dup = { .key = i };
		abs_check(SPLAY_INSERT(spt, &sp, &dup) == &nd[i], "an element equal to one in the tree is refused");
	}
	sp_look(n);
	for (int c = 0; c < 2; c++) {
		int r = abs_pick("remove", n - c), i;
		for (i = 0; i < n; i++) if (in[i] && r-- == 0) break;
		abs_check(SPLAY_REMOVE(spt, &sp, &nd[i]) == &nd[i], "an element is taken out");
		in[i] = 0;
		sp_look(n);
	}
	abs_reach("splay");
}
/* trees of forty elements in several orders, emptied in several orders */
static int nth(int how, int i) {
	return how == 0 ? i : how == 1 ? MAX - 1 - i : how == 2 ? (i * 17 + 5) % MAX : how == 3 ? (i & 1 ? MAX - 1 - i / 2 : i / 2) : (i * 23 + 11) % MAX;
}
static void rb_big(int how) {
	struct node *x;
	int out = abs_pick("order of removal", 5), c = 0;
	for (int i = 0; i < MAX; i++) rb_put(nth(how, i));
	rb_look(MAX);
	RB_FOREACH(x, rbt, &rb) { abs_check(x == &nd[c], "a walk visits every element in order"); c++; }
	abs_check(c == MAX, "a walk visits every element");
	RB_FOREACH_REVERSE(x, rbt, &rb) { c--; abs_check(x == &nd[c], "a walk back visits every element in order"); }
	abs_check(c == 0, "a walk back visits every element");
	for (int i = 0; i < MAX; i++) {
		rb_del(nth(out, i));
		height(RB_ROOT(&rb), NULL);
		if (i % 8 == 7) rb_look(MAX);
	}
	abs_check(RB_EMPTY(&rb), "a tree all of whose elements are removed is empty");
	abs_reach("big tree");
}
void drv_rb_big_0(void) { rb_big(0); }
void drv_rb_big_1(void) { rb_big(1); }
void drv_rb_big_2(void) { rb_big(2); }
void drv_rb_big_3(void) { rb_big(3); }
void drv_rb_big_4(void) { rb_big(4); }
static void sp_big(int how) {
	struct node *x;
	int out = abs_pick("order of removal", 5), c = 0;
	for (int i = 0; i < MAX; i++) {
		int k = nth(how, i);
		nd[k].key = k;
		abs_check(SPLAY_INSERT(spt, &sp, &nd[k]) == NULL, "a new element goes in");
		in[k] = 1;
	}
	sp_look(MAX);
	SPLAY_FOREACH(x, spt, &sp) { abs_check(x == &nd[c], "a walk visits every element in order"); c++; }
	abs_check(c == MAX, "a walk visits every element");
	for (int i = 0; i < MAX; i++) {
		int k = nth(out, i);
		struct node dup = { .key = k };
		abs_check(SPLAY_INSERT(spt, &sp, &dup) == &nd[k], "an element equal to one in the tree is refused");
		abs_check(SPLAY_REMOVE(spt, &sp, &nd[k]) == &nd[k], "an element is taken out");
		in[k] = 0;
		abs_check(SPLAY_REMOVE(spt, &sp, &nd[k]) == NULL, "an element taken out cannot be taken out again");
		if (i % 8 == 7 && i + 1 < MAX) sp_look(MAX);
	}
	abs_check(SPLAY_EMPTY(&sp), "a tree all of whose elements are removed is empty");
	abs_check(SPLAY_FIND(spt, &sp, &nd[0]) == NULL && SPLAY_MIN(spt, &sp) == NULL, "nothing is in an empty tree");
	abs_reach("big splay");
}
void drv_splay_big_0(void) { sp_big(0); }
void drv_splay_big_1(void) { sp_big(1); }
void drv_splay_big_2(void) { sp_big(2); }
void drv_splay_big_3(void) { sp_big(3); }

#include "abs.h"
#include "libmy/list.h"
struct item { int v; ISC_LINK(struct item) link; };
typedef ISC_LIST(struct item) list;
static struct item it[6], it2[3];
static struct item *ref[12];
static int n;

static void ins_at(int i, struct item *e) {
	for (int j = n; j > i; j--) ref[j] = ref[j - 1];
	ref[i] = e;
	n++;
}
static void del_at(int i) {
	for (int j = i; j + 1 < n; j++) ref[j] = ref[j + 1];
	n--;
}
static void same(list *l) {
	struct item *p = ISC_LIST_HEAD(*l), *prev = NULL;
	for (int i = 0; i < n; i++) {
		abs_check(p == ref[i], "walking forwards gives the elements in order");
		abs_check(ISC_LIST_PREV(p, link) == prev, "each element knows the one before it");
		abs_check(ISC_LINK_LINKED(p, link), "an element of a list is linked");
		prev = p;
		p = ISC_LIST_NEXT(p, link);
	}
	abs_check(p == NULL, "the walk ends after the last element");
	abs_check(ISC_LIST_TAIL(*l) == prev, "the tail is the last element");
	abs_check(!!ISC_LIST_EMPTY((*l)) == (n == 0), "only a list without elements is empty");
}
static void seq(int steps) {
	list l, m;
	ISC_LIST_INIT(l);
	n = 0;
	same(&l);
	for (int i = 0; i < 6; i++) ISC_LINK_INIT(&it[i], link);
	for (int i = 0; i < steps; i++) {
		struct item *e = &it[i];
		int k;
		abs_check(!ISC_LINK_LINKED(e, link), "an element starts unlinked");
		switch (abs_pick("operation", 6)) {
		case 0: ISC_LIST_APPEND(l, e, link); ins_at(n, e); abs_reach("append"); break;
		case 1: ISC_LIST_PREPEND(l, e, link); ins_at(0, e); abs_reach("prepend"); break;
		case 2:
			if (!n) { abs_stop(); }
			k = abs_pick("position", n);
			ISC_LIST_INSERTBEFORE(l, ref[k], e, link); ins_at(k, e); abs_reach("before"); break;
		case 3:
			if (!n) { abs_stop(); }
			k = abs_pick("position", n);
			ISC_LIST_INSERTAFTER(l, ref[k], e, link); ins_at(k + 1, e); abs_reach("after"); break;
		case 4: {
			if (!n) { abs_stop(); }
			k = abs_pick("position", n);
			struct item *d = ref[k];
			ISC_LIST_UNLINK(l, d, link); del_at(k);
			abs_check(!ISC_LINK_LINKED(d, link), "an element taken out is not linked");
			abs_reach("unlink");
			break;
		}
		case 5: {
			ISC_LIST_INIT(m);
			k = abs_pick("elements", 3);
			for (int j = 0; j < k; j++) {
				struct item *x = &it2[j];
				for (int q = 0; q < n; q++) if (ref[q] == x) abs_stop();
				ISC_LIST_INITANDAPPEND(m, x, link);
			}
			ISC_LIST_APPENDLIST(l, m, link);
			for (int j = 0; j < k; j++) ins_at(n, &it2[j]);
			abs_check(ISC_LIST_EMPTY(m), "appending a list empties it");
			abs_reach("appendlist");
			break;
		}
		}
		same(&l);
	}
}
void drv_list1(void) { seq(1); }
void drv_list2(void) { seq(2); }
void drv_list3(void) { seq(3); }
void drv_list4(void) { seq(4); }
/* a longer list, taken apart from any place and put together again */
struct two { int v; ISC_LINK(struct two) a, b; };
typedef ISC_LIST(struct two) list2;
static void walk2(list2 *l, int cnt, int first, int step) {
	struct two *p = ISC_LIST_HEAD(*l), *prev = NULL;
	for (int i = 0; i < cnt; i++) {
		abs_check(p != NULL && p->v == first + i * step, "a list holds its elements in order");
		abs_check(ISC_LIST_PREV(p, b) == prev, "each element knows the one before it");
		prev = p;
		p = ISC_LIST_NEXT(p, b);
	}
	abs_check(p == NULL && ISC_LIST_TAIL(*l) == prev, "a list ends with its last element");
}
void drv_list_two(void) {
	static struct two e[12];
	list2 x, y;
	ISC_LIST_INIT(x);
	ISC_LIST_INIT(y);
	for (int i = 0; i < 12; i++) {
		e[i].v = i;
		ISC_LINK_INIT(&e[i], a);
		ISC_LINK_INIT_TYPE(&e[i], b, struct two);
		ISC_LIST_ENQUEUE(y, &e[i], b);
		ISC_LIST_INITANDPREPEND(x, &e[i], a);
	}
	walk2(&y, 12, 0, 1);
	struct two *p = ISC_LIST_HEAD(x);
	for (int i = 11; i >= 0; i--) { abs_check(p == &e[i], "two lists of the same elements are independent"); p = ISC_LIST_NEXT(p, a); }
	int k = abs_pick("taken out", 12);
	ISC_LIST_DEQUEUE_TYPE(y, &e[k], b, struct two);
	abs_check(!ISC_LINK_LINKED(&e[k], b) && ISC_LINK_LINKED(&e[k], a), "taking an element from one list leaves it in the other");
	p = ISC_LIST_HEAD(y);
	for (int i = 0; i < 12; i++) if (i != k) { abs_check(p == &e[i], "the others stay in order"); p = ISC_LIST_NEXT(p, b); }
	abs_check(p == NULL, "nothing else is in the list");
	if (k == 0) ISC_LIST_PREPEND(y, &e[k], b);
	else if (k == 11) ISC_LIST_APPEND(y, &e[k], b);
	else if (k & 1) ISC_LIST_INSERTBEFORE(y, &e[k + 1], &e[k], b);
	else ISC_LIST_INSERTAFTER(y, &e[k - 1], &e[k], b);
	walk2(&y, 12, 0, 1);
	for (int i = 0; i < 12; i += 2) ISC_LIST_DEQUEUE(y, &e[i], b);
	walk2(&y, 6, 1, 2);
	list2 z;
	ISC_LIST_INIT(z);
	for (int i = 0; i < 12; i += 2) ISC_LIST_APPEND(z, &e[i], b);
	walk2(&z, 6, 0, 2);
	ISC_LIST_APPENDLIST(z, y, b);
	abs_check(ISC_LIST_HEAD(y) == NULL && ISC_LIST_TAIL(y) == NULL, "a list appended to another is empty");
	p = ISC_LIST_TAIL(z);
	for (int i = 11; i >= 0; i--) { abs_check(p == &e[i < 6 ? 2 * i : 2 * i - 11], "a list appended keeps its order"); p = ISC_LIST_PREV(p, b); }
	abs_check(p == NULL, "the walk back ends at the head");
	for (int i = 0; i < 12; i++) ISC_LIST_UNLINK_TYPE(z, &e[i], b, struct two);
	abs_check(ISC_LIST_EMPTY((z)) && ISC_LIST_TAIL(z) == NULL, "a list all of whose elements are taken out is empty");
	abs_reach("two lists");
}

#include "abs.h"
#include "libmy/my_time.h"

static struct timespec any(const char *s, const char *n) {
	struct timespec t;
	t.tv_sec = abs_fresh(s, 0, 1UL << 40);
	t.tv_nsec = abs_fresh(n, 0, 999999999);
	return t;
}
void drv_time_add(void) {
	struct timespec a = any("a.sec", "a.nsec"), b = any("b.sec", "b.nsec"), c = b;
	my_timespec_add(&a, &c);
	abs_check(c.tv_nsec >= 0 && c.tv_nsec < 1000000000, "a sum is normalised");
	if (a.tv_nsec + b.tv_nsec < 1000000000) {
		abs_check(c.tv_sec == a.tv_sec + b.tv_sec && c.tv_nsec == a.tv_nsec + b.tv_nsec, "add without carry");
		abs_reach("no carry");
	} else {
		abs_check(c.tv_sec == a.tv_sec + b.tv_sec + 1 && c.tv_nsec == a.tv_nsec + b.tv_nsec - 1000000000, "add with carry");
		abs_reach("carry");
	}
}
void drv_time_sub(void) {
	struct timespec a = any("a.sec", "a.nsec"), b = any("b.sec", "b.nsec"), c = b;
	my_timespec_sub(&a, &c);
	abs_check(c.tv_nsec >= 0 && c.tv_nsec < 1000000000, "a difference is normalised");
	if (b.tv_nsec >= a.tv_nsec) {
		abs_check(c.tv_sec == b.tv_sec - a.tv_sec && c.tv_nsec == b.tv_nsec - a.tv_nsec, "subtract without borrow");
		abs_reach("no borrow");
	} else {
		abs_check(c.tv_sec == b.tv_sec - a.tv_sec - 1 && c.tv_nsec == b.tv_nsec - a.tv_nsec + 1000000000, "subtract with borrow");
		abs_reach("borrow");
	}
	my_timespec_add(&a, &c);
	abs_check(c.tv_sec == b.tv_sec && c.tv_nsec == b.tv_nsec, "adding back what was subtracted gives the time back");
}
void drv_time_cmp(void) {
	struct timespec a = any("a.sec", "a.nsec"), b = any("b.sec", "b.nsec");
	int r = my_timespec_cmp(&a, &b);
	bool lt = a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec);
	bool eq = a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec;
	abs_check((r < 0) == lt, "an earlier time compares below");
	abs_check((r == 0) == eq, "equal times compare equal");
	abs_check((r > 0) == (!lt && !eq), "a later time compares above");
	abs_check(my_timespec_cmp(&b, &a) == -r, "comparison is antisymmetric");
}
/* a sleep interrupted by signals goes on with the time that remains */
static int naps;
static struct timespec asked, left;
int nanosleep(const struct timespec *rq, struct timespec *rm) {
	abs_check(rq->tv_sec == asked.tv_sec && rq->tv_nsec == asked.tv_nsec, "each nap asks for the time that remains");
	naps++;
	if (naps < 4 && abs_nondet("interrupted")) {
		left = any("left.sec", "left.nsec");
		*rm = asked = left;
		errno = EINTR;
		return -1;
	}
	if (abs_nondet("invalid")) { errno = EINVAL; return -1; }
	abs_reach("slept");
	return 0;
}
void drv_time_nanosleep(void) {
	struct timespec t = any("t.sec", "t.nsec"), u = t;
	asked = t;
	naps = 0;
	my_nanosleep(&t);
	abs_check(t.tv_sec == u.tv_sec && t.tv_nsec == u.tv_nsec, "the request is left alone");
}
/* times before the epoch and differences below zero */
void drv_time_negative(void) {
	struct timespec a = { .tv_sec = (long)abs_fresh("a", 0, 1UL << 33) - (1L << 32), .tv_nsec = abs_fresh("a.nsec", 0, 999999999) };
	struct timespec b = { .tv_sec = (long)abs_fresh("b", 0, 1UL << 33) - (1L << 32), .tv_nsec = abs_fresh("b.nsec", 0, 999999999) };
	struct timespec c = b, d = b;
	my_timespec_add(&a, &c);
	bool carry = a.tv_nsec + b.tv_nsec >= 1000000000;
	abs_check(c.tv_sec == a.tv_sec + b.tv_sec + carry && c.tv_nsec == a.tv_nsec + b.tv_nsec - (carry ? 1000000000 : 0), "times before the epoch add up");
	my_timespec_sub(&a, &d);
	bool borrow = b.tv_nsec < a.tv_nsec;
	abs_check(d.tv_sec == b.tv_sec - a.tv_sec - borrow && d.tv_nsec == b.tv_nsec - a.tv_nsec + (borrow ? 1000000000 : 0), "differences below zero are normalised");
	int r = my_timespec_cmp(&a, &b);
	abs_check((r < 0) == (a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec)), "times before the epoch are ordered");
	c = a;
	abs_check(my_timespec_cmp(&a, &c) == 0, "a time equals itself");
	my_timespec_sub(&a, &c);
	abs_check(c.tv_sec == 0 && c.tv_nsec == 0, "the difference of a time and itself is nothing");
	abs_reach("negative");
}
void drv_time_gettime(void) {
	struct timespec t;
	my_gettime(CLOCK_MONOTONIC, &t);
	abs_check(t.tv_sec >= 0, "the clock is read");
}

/* Driver intrinsics of the static analyser.  A driver is analysed, never compiled to an
 * executable: every abs_*() value is an abstract unknown over its whole range. */
#ifndef ABS_H
#define ABS_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
extern uint64_t abs_u64(const char *);
extern uint32_t abs_u32(const char *);
extern uint16_t abs_u16(const char *);
extern uint8_t abs_u8(const char *);
extern int abs_bool(const char *);
extern int32_t abs_i32(const char *);
extern int64_t abs_i64(const char *);
extern int abs_choice(const char *);		/* named, resolved at once (forks) */
extern int abs_nondet(const char *);		/* fresh non-deterministic choice */
extern uint64_t abs_range(const char *, uint64_t lo, uint64_t hi);
extern uint64_t abs_fresh(const char *, uint64_t lo, uint64_t hi);	/* new unknown at every call */
extern int abs_pick(const char *, int n);	/* forks into 0..n-1 */
extern uint64_t abs_split(uint64_t v, uint64_t lo, uint64_t hi);	/* forks on lo..hi; value known after */
extern size_t abs_size(const char *);
extern void *abs_buf(const char *, size_t);	/* input bytes of unknown contents */
extern void *abs_robuf(const char *, size_t);	/* same, writes are violations */
extern char *abs_str(const char *);		/* NUL-terminated unknown string */
extern void *abs_ptr(const char *);		/* opaque external object */
extern void *abs_fn(const char *);
extern void *abs_uninit(size_t);		/* stack object, uninitialised */
extern void abs_assume(int);
extern void abs_check(int, const char *);
extern void abs_reach(const char *);
extern void abs_stop(void);
extern void abs_note(const char *, uint64_t);
extern void abs_event_ptr(const char *, const void *, uint64_t);
extern void abs_leak_ok(const void *);
extern void abs_noleak(void);
extern int abs_same(const void *, const void *);
extern int abs_samev(uint64_t, uint64_t);
extern int abs_alive(const void *);
extern size_t abs_objsize(const void *);
extern void abs_make_const(void *);
extern void abs_print(const char *, uint64_t);
extern int abs_eqbytes(const void *, const void *, size_t);
extern void *abs_va(int);	/* i-th variable argument of the calling driver function */
extern void abs_end(const char *hook, uint64_t, uint64_t);	/* call a Python end hook now */
extern void abs_endp(const char *hook, const void *, uint64_t);
#endif

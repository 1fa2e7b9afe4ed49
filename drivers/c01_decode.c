#include "abs.h"
#include <dnstable.h>
void drv_any_entry(void) {
	size_t nk = abs_range("len_key", 0, 1UL << 32), nv = abs_range("len_val", 0, 1UL << 32);
	uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	abs_reach(e ? "decoded" : "rejected");
	dnstable_entry_destroy(&e);
}

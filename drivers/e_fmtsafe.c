/* formatting whatever decodes: memory safety and ownership */
#include "abs.h"
#include "dnstable-private.h"
#include <stdlib.h>
#include <wdns.h>
#include <string.h>
/* varints of values: any time, any count (that they are read safely is C01) */
dnstable_res triplet_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l, uint64_t *c) { *f = abs_u64("time_first"); *l = 1; *c = 2; return dnstable_res_success; }
dnstable_res pair_unpack(const uint8_t *v, size_t n, uint64_t *f, uint64_t *l) { *f = abs_u64("time_first"); *l = 1; return dnstable_res_success; }
#include <time.h>
struct tm *gmtime_r(const time_t *t, struct tm *tm) {
	static const int Y[] = { 0, 70, 8099, 8100, -1900, -1901, 0x7fffffff, -0x7fffffff - 1 };
#ifdef SHORT
	int i = *t == 1 ? 1 : abs_nondet("year unknown") ? 8 : 2;
#else
	int i = *t == 1 ? 1 : abs_pick("year", 9);
#endif
	if (i == 8) return NULL;
	memset(tm, 0, sizeof(*tm));
	tm->tm_year = Y[i]; tm->tm_mon = 11; tm->tm_mday = 31; tm->tm_hour = 23; tm->tm_min = 59; tm->tm_sec = 60;
	return tm;
}
#ifdef SHORT
const char *wdns_rrtype_to_str(uint16_t rr) { return rr == 65535 ? NULL : "A"; }
/* short texts, so that their escaping does not multiply the paths; the space they may take is touched */
size_t wdns_domain_to_str(const uint8_t *d, size_t n, char *s) {
	abs_check(n >= 1 && d[n - 1] == d[n - 1], "a name which is formatted is there");
	s[n > 255 ? 4 * 255 : 4 * n] = 0;
	s[0] = '.'; s[1] = 0;
	return 2;
}
char *wdns_rdata_to_str(const uint8_t *d, uint16_t n, uint16_t rr, uint16_t cls) {
	if (n) abs_check(d[n - 1] == d[n - 1], "rdata which is formatted is there");
	char *s = malloc(2);
	s[0] = 'x'; s[1] = 0;
	return s;
}
#endif
static void go(int type) {
	size_t nk = abs_range("len_key", 1, 1UL << 32), nv = abs_range("len_val", 0, 1UL << 32);
	const uint8_t *k = abs_robuf("key", nk), *v = abs_robuf("val", nv);
	abs_assume(k[0] == type);
	struct dnstable_entry *e = dnstable_entry_decode(k, nk, v, nv);
	if (!e) return;
	struct dnstable_formatter *f = dnstable_formatter_init();
#ifndef SHORT
	dnstable_formatter_set_output_format(f, dnstable_output_format_text);
#endif
	if (abs_choice("rfc3339")) dnstable_formatter_set_date_format(f, dnstable_date_format_rfc3339);
	if (type != 0 && type != 2) ;
#ifdef SHORT
	else if (abs_choice("raw rdata")) dnstable_formatter_set_raw_rdata(f, true);
#endif
	char *s = dnstable_entry_format(f, e);
	free(s);
	dnstable_formatter_destroy(&f);
	dnstable_entry_destroy(&e);
	abs_reach("formatted");
}
void drv_rrset(void) { go(0); }
void drv_name_fwd(void) { go(1); }
void drv_rdata(void) { go(2); }
void drv_name_rev(void) { go(3); }
void drv_source_info(void) { go(253); }
void drv_time_range(void) { go(254); }
void drv_version(void) { go(255); }

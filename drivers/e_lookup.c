/* dnstable_lookup: arguments to query, query to output, deadlines, times */
#include "cli.h"
#include <dnstable.h>
#include <mtbl.h>
#include <sys/time.h>
#include <errno.h>
#define OK dnstable_res_success
#define NO dnstable_res_failure
extern int main(int, char **);
/* ---- numbers and times */
static uint64_t T[5];	/* what "T1".."T4" stand for */
static int64_t now;
long long strtoll(const char *s, char **e, int base) {
	uint64_t v = 0;
	int neg = 0, big = 0;
	const char *p = s;
	if (s[0] == 'T' && s[1] > '0' && s[1] < '5') { if (e) *e = (char *)s + 2; return T[s[1] - '0']; }
	while (*p == ' ') p++;
	if (*p == '-' || *p == '+') neg = *p++ == '-';
	if (*p < '0' || *p > '9') { if (e) *e = (char *)s; return 0; }
	for (; *p >= '0' && *p <= '9'; p++) {
		if (v > (INT64_MAX - (uint64_t)(*p - '0')) / 10) big = 1;
		else v = v * 10 + (*p - '0');
	}
	if (e) *e = (char *)p;
	if (big) { errno = ERANGE; return neg ? INT64_MIN : INT64_MAX; }
	return neg ? -(int64_t)v : (int64_t)v;
}
long strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
int atoi(const char *s) { return (int)strtoll(s, NULL, 10); }
static int two(const char **p, int *v) { *v = 0; for (int i = 0; i < 2; i++, ++*p) { if (**p < '0' || **p > '9') return i > 0; *v = *v * 10 + **p - '0'; } return 1; }
char *strptime(const char *s, const char *f, struct tm *t) {
	for (; *f; f++) {
		int v = 0, n = 0;
		if (*f == ' ') { while (*s == ' ') s++; continue; }
		if (*f != '%') { if (*s++ != *f) return NULL; continue; }
		switch (*++f) {
		case 'F':
			for (; n < 4 && *s >= '0' && *s <= '9'; n++) v = v * 10 + *s++ - '0';
			if (n == 0 || *s++ != '-') return NULL;
			t->tm_year = v - 1900;
			if (!two(&s, &v) || v < 1 || v > 12 || *s++ != '-') return NULL;
			t->tm_mon = v - 1;
			if (!two(&s, &v) || v < 1 || v > 31) return NULL;
			t->tm_mday = v;
			break;
		case 'T':
			if (!two(&s, &v) || v > 23 || *s++ != ':') return NULL;
			t->tm_hour = v;
			if (!two(&s, &v) || v > 59 || *s++ != ':') return NULL;
			t->tm_min = v;
			if (!two(&s, &v) || v > 61) return NULL;
			t->tm_sec = v;
			break;
		default: abs_check(0, "a conversion of strptime known to the model"); abs_stop();
		}
	}
	return (char *)s;
}
time_t timegm(struct tm *t) {
	static const int M[] = { 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334 };
	int64_t y = t->tm_year + 1900, d = 0;
	for (int64_t i = 1970; i < y; i++) d += 365 + ((i % 4 == 0 && i % 100) || i % 400 == 0);
	for (int64_t i = 1969; i >= y; i--) d -= 365 + ((i % 4 == 0 && i % 100) || i % 400 == 0);
	d += M[t->tm_mon] + t->tm_mday - 1 + (t->tm_mon > 1 && ((y % 4 == 0 && y % 100) || y % 400 == 0));
	return d * 86400 + t->tm_hour * 3600 + t->tm_min * 60 + t->tm_sec;
}
time_t mktime(struct tm *t) { return timegm(t) + 3600; }	/* a time zone which is not that of the times */
static int64_t mono = 5000, mono_n = 5, run_clock;
static void clock_read(void);
int clock_gettime(clockid_t c, struct timespec *t) {
	if (c == CLOCK_REALTIME) { t->tv_sec = now; t->tv_nsec = 0; return 0; }
	mono += abs_fresh("time passed", 0, 1000);
	t->tv_sec = mono; t->tv_nsec = mono_n;
	clock_read();
	return 0;
}
time_t time(time_t *t) { if (t) *t = now; return now; }
/* ---- the library: what is asked of it is kept */
static char Rd, Sr, Mr, Fm, Q_, It, Src;
static struct { int qinit, qdead, rd, rdead, mr, mrdead, it, itdead, fm, fmdead; } live;
static dnstable_query_type qt;
static int bad_set, set_data, set_rr, set_bw, cs, agg = 1, ran, setfile;
static const char *v_data, *v_rr, *v_bw, *v_file;
static uint64_t P[4], off;
static int fail_at = -1, nset, iter_null;
static dnstable_res may_fail(void) { return nset++ == fail_at ? NO : OK; }
struct mtbl_reader *mtbl_reader_init(const char *f, const struct mtbl_reader_options *o) { v_file = f; if (fail_at == 100) return NULL; live.mr++; return (void *)&Mr; }
void mtbl_reader_destroy(struct mtbl_reader **r) { if (*r) { abs_check((void *)*r == &Mr && live.rdead == live.rd && !live.mrdead, "the file is closed last, and once"); live.mrdead++; *r = NULL; } }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { abs_check((void *)r == &Mr, "the source of the file"); return (void *)&Src; }
struct dnstable_reader *dnstable_reader_init(const struct mtbl_source *s) { abs_check((void *)s == &Src, "a reader of the file"); live.rd++; return (void *)&Rd; }
struct dnstable_reader *dnstable_reader_init_setfile(const char *f) { v_file = f; setfile = 1; live.rd++; return (void *)&Rd; }
void dnstable_reader_destroy(struct dnstable_reader **r) { if (*r) { abs_check(!live.rdead && live.itdead == live.it, "a reader goes after its iterators"); live.rdead++; *r = NULL; } }
struct dnstable_query *dnstable_query_init(dnstable_query_type t) { qt = t; live.qinit++; return (void *)&Q_; }
void dnstable_query_destroy(struct dnstable_query **q) { if (*q) { live.qdead++; *q = NULL; } }
const char *dnstable_query_get_error(struct dnstable_query *q) { return "why"; }
dnstable_res dnstable_query_set_data(struct dnstable_query *q, const char *s) { set_data++; v_data = s; return may_fail(); }
dnstable_res dnstable_query_set_rrtype(struct dnstable_query *q, const char *s) { set_rr++; v_rr = s; return may_fail(); }
dnstable_res dnstable_query_set_bailiwick(struct dnstable_query *q, const char *s) { set_bw++; v_bw = s; return may_fail(); }
dnstable_res dnstable_query_set_case_sensitive(struct dnstable_query *q, bool b) { cs = b; return OK; }
dnstable_res dnstable_query_set_aggregated(struct dnstable_query *q, bool b) { agg = b; return may_fail(); }
dnstable_res dnstable_query_set_offset(struct dnstable_query *q, uint64_t o) { off = o; return may_fail(); }
dnstable_res dnstable_query_set_filter_parameter(struct dnstable_query *q, dnstable_filter_parameter_type p, const void *v, size_t n) {
	int i = p == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_BEFORE ? 0 : p == DNSTABLE_FILTER_PARAMETER_TIME_FIRST_AFTER ? 1 :
		p == DNSTABLE_FILTER_PARAMETER_TIME_LAST_BEFORE ? 2 : p == DNSTABLE_FILTER_PARAMETER_TIME_LAST_AFTER ? 3 : -1;
	abs_check(i >= 0 && n == 8, "a time bound is given as one");
	P[i] = *(const uint64_t *)v;
	return OK;
}
static int64_t dl, ndl, limit, ival, first_clock = -1, round_clock;
static int rounds, timing;
static int64_t lo(int64_t at) { int64_t d = first_clock + limit, i = at + ival; return ival && (!limit || i < d) ? i : d; }
/* the deadline in force when the query goes on */
static void deadline_ok(void) {
	if (!limit && !ival) { abs_check(ndl == 0, "a query without a limit has no deadline"); return; }
	abs_check(ndl > 0, "a query with a limit has a deadline");
	if (!rounds && limit) abs_check(dl <= run_clock + limit, "a query is stopped in time");
	if (rounds && limit) abs_check(dl <= run_clock + limit, "a query is stopped in time however often it reports");
	if (ival) abs_check(dl <= mono + ival, "a report is due within the interval");
	abs_check(dl >= lo(rounds ? round_clock : first_clock), "a query is not interrupted too soon");
}
dnstable_res dnstable_query_set_deadline(struct dnstable_query *q, const struct timespec *t) {
	abs_check(t->tv_nsec == mono_n, "a deadline is exact to the nanosecond");
	dl = t->tv_sec; ndl++;
	return may_fail();
}
struct dnstable_iter *dnstable_reader_query(struct dnstable_reader *r, struct dnstable_query *q) {
	abs_check((void *)r == &Rd && (void *)q == &Q_, "the query is run on the reader");
	ran++;
	run_clock = mono;
	if (timing) deadline_ok();
	if (iter_null) return NULL;
	live.it++;
	return (void *)&It;
}
void dnstable_iter_destroy(struct dnstable_iter **i) { if (*i) { live.itdead++; *i = NULL; } }
struct dnstable_entry { dnstable_entry_type t; int id; };
static int n_ent, at_ent, ended;
static dnstable_entry_type etype = DNSTABLE_ENTRY_TYPE_RRSET;
static dnstable_res (*next_hook)(void);
dnstable_res dnstable_iter_next(struct dnstable_iter *i, struct dnstable_entry **e) {
	abs_check((void *)i == &It && !live.itdead, "entries are read from a live iterator");
	abs_check(!ended, "a finished iterator is not asked again");
	if (at_ent < n_ent) {
		struct dnstable_entry *n = malloc(sizeof(*n));
		n->t = etype; n->id = at_ent++;
		*e = n;
		return OK;
	}
	if (next_hook) return next_hook();
	ended = 1;
	return NO;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { if (*e) { free(*e); *e = NULL; } }
dnstable_entry_type dnstable_entry_get_type(struct dnstable_entry *e) { return e->t; }
static int f_json, f_date, f_raw = -1;
struct dnstable_formatter *dnstable_formatter_init(void) { live.fm++; f_json = f_date = -1; f_raw = 0; return (void *)&Fm; }
void dnstable_formatter_set_output_format(struct dnstable_formatter *f, dnstable_output_format_type t) { f_json = t == dnstable_output_format_json; }
void dnstable_formatter_set_date_format(struct dnstable_formatter *f, dnstable_date_format_type t) { f_date = t == dnstable_date_format_unix ? 'j' : t == dnstable_date_format_rfc3339 ? 'J' : 0; }
void dnstable_formatter_set_raw_rdata(struct dnstable_formatter *f, bool b) { f_raw = b; }
void dnstable_formatter_destroy(struct dnstable_formatter **f) { if (*f) { live.fmdead++; *f = NULL; } }
static char *give(char a, char b, char c, int nl) {
	char *s = malloc(6);
	int n = 0;
	s[n++] = a; s[n++] = b; s[n++] = c;
	if (nl) s[n++] = '\n';
	s[n] = 0;
	return s;
}
char *dnstable_entry_format(const struct dnstable_formatter *f, const struct dnstable_entry *e) {
	abs_check(live.fm == live.fmdead + 1, "a live formatter is used");
	return give(f_json ? f_date : '?', f_raw ? 'R' : 'r', '0' + e->id, 0);
}
char *dnstable_entry_to_text(const struct dnstable_entry *e) { return give('t', 't', '0' + e->id, 1); }
char *dnstable_entry_to_json(const struct dnstable_entry *e) { return give('j', 'r', '0' + e->id, 0); }
/* statistics: every stage and category may have a counter of its own */
static const char *const ST[] = { "one", "two", "three" }, *const CA[] = { "seeks", "filtered" };
static int has[3][2];
static uint64_t cnt[3][2];
const char *dnstable_stat_stage_to_str(dnstable_stat_stage s) { return s < 3 ? ST[s] : NULL; }
const char *dnstable_stat_category_to_str(dnstable_stat_category c) { return c < 2 ? CA[c] : NULL; }
dnstable_res dnstable_iter_get_count(struct dnstable_iter *i, dnstable_stat_stage s, dnstable_stat_category c, bool *e, uint64_t *v) {
	abs_check((void *)i == &It && !live.itdead && s < 3 && c < 2, "counters of the query are read");
	*e = has[s][c];
	if (*e) *v = cnt[s][c];
	return *e ? OK : NO;
}
/* ---- running it */
static const char *expect_exit;	/* why it must refuse, or NULL */
static int must_run, may_refuse, code;
void exit(int c) {
	abs_check(c != 0, "giving up is reported in the exit status");
	abs_check(!must_run || may_refuse, "what the arguments ask for is done");
	abs_check(ran == iter_null, "nothing is searched for a command which is refused");
	abs_check(Out.n == 0, "nothing is printed for a command which is refused");
	abs_check(Err.n > 0, "a refusal is explained");
	abs_reach("refused");
	abs_stop();
	for (;;) ;
}
static void clock_read(void) { if (first_clock < 0) first_clock = mono; if (rounds && round_clock < 0) round_clock = mono; }
static char *av[16];
static int ac;
static void arg(const char *s) { av[ac++] = (char *)s; }
static void run(void) {
	av[ac] = NULL;
	int r = main(ac, av);
	abs_check(must_run, "a command which makes no sense is refused");
	abs_check(r == 0, "a command which ran is a success");
	abs_check(ran == 1, "one query is run");
	abs_check(live.it == live.itdead && live.qinit == live.qdead && live.rd == live.rdead && live.mr == live.mrdead && live.fm == live.fmdead, "everything opened is closed");
	abs_noleak();
}
static void env_set(void) { env_name[0] = "DNSTABLE_SETFILE"; env_val[0] = "/set"; }
static void env_file(void) { env_name[0] = "DNSTABLE_FNAME"; env_val[0] = "/file"; }
static int same(const char *a, const char *b) { return a == b || (a && b && strcmp(a, b) == 0); }

/* the words of a command */
static void words(const char *const *w, int n) {
	static const char *const SUB[] = { "ip", "raw", "name" };
	int k = -1;
	dnstable_query_type t = 0;
	const char *data = NULL, *rr = NULL, *bw = NULL;
	must_run = 0;
	if (n >= 1 && strcmp(w[0], "rrset") == 0) {
		t = DNSTABLE_QUERY_TYPE_RRSET;
		must_run = n >= 2 && n <= 4 && strchr(w[1], '/') == NULL;
		data = n > 1 ? w[1] : NULL; rr = n > 2 ? w[2] : NULL; bw = n > 3 ? w[3] : NULL;
	} else if (n >= 2 && strcmp(w[0], "rdata") == 0) {
		for (int i = 0; i < 3; i++) if (strcmp(w[1], SUB[i]) == 0) k = i;
		t = k == 0 ? DNSTABLE_QUERY_TYPE_RDATA_IP : k == 1 ? DNSTABLE_QUERY_TYPE_RDATA_RAW : DNSTABLE_QUERY_TYPE_RDATA_NAME;
		must_run = k >= 0 && (n == 3 || (n == 4 && k > 0));
		data = n > 2 ? w[2] : NULL; rr = n > 3 ? w[3] : NULL;
	} else if (n >= 1 && strcmp(w[0], "version") == 0) {
		t = DNSTABLE_QUERY_TYPE_VERSION;
		must_run = n <= 2;
		data = n > 1 ? w[1] : NULL;
	} else if (n >= 1 && strcmp(w[0], "time_range") == 0) {
		t = DNSTABLE_QUERY_TYPE_TIME_RANGE;
		must_run = n == 1;
	}
	int want = must_run;
	for (int i = 0; i < n; i++) arg(w[i]);
	run();
	abs_check(qt == t, "each command runs its kind of query");
	abs_check(same(v_data, data), "the query searches the data of the command line");
	abs_check(same(v_rr, rr) && same(v_bw, bw), "the rrtype and bailiwick of the command line are asked for");
	abs_reach("ran");
}
static const char *const WORD[] = { "rrset", "rdata", "version", "time_range", "nonsense", "ip", "raw", "name", "a/b" };
static void command(int c, int third) {
	const char *w[5];
	int n = c < 0 ? 0 : 1 + (int)abs_pick("words", 5);
	if (n > 0) w[0] = WORD[c];
	if (n > 1) w[1] = WORD[abs_pick("second word", 5) + 4];
	if (n > 2) w[2] = third && abs_pick("third word", 2) ? "ANY" : "x/y";
	if (n > 3) w[3] = third && abs_pick("fourth word", 2) ? "ANY" : "A";
	if (n > 4) w[4] = "B";
	env_set();
	arg("lookup");
	words(w, n);
}
void drv_words_none(void) { command(-1, 0); }
void drv_words_rrset(void) { command(0, 1); }
void drv_words_rdata(void) { command(1, 1); }
void drv_words_version(void) { command(2, 0); }
void drv_words_time_range(void) { command(3, 0); }
void drv_words_nonsense(void) { command(4, 0); }
void drv_words_ip(void) { command(5, 0); }
/* switches, and which of them go together */
static void modes(int cmd) {
	static const char *const W[4][3] = { { "rrset", "n" }, { "version" }, { "time_range" }, { "rdata", "ip", "1.2.3.4" } };
	static const char *const OFF[] = { NULL, "2000000007", "0", "-3" };
	int j = abs_pick("-j", 2), J = abs_pick("-J", 2), n = abs_pick("-n", 2), R = abs_pick("-R", 2), u = abs_pick("-u", 2);
	int O = abs_pick("-O", 4), set = abs_pick("DNSTABLE_SETFILE", 2), C = n;
	int meta = cmd == 1 || cmd == 2;
	must_run = O < 2 && !(meta && (O || R)) && !(n && (J || j || R)) && !(J && j) && !(R && !J && !j) && !(u && !set);
	if (set) env_set(); else env_file();
	arg("lookup");
	if (j) arg("-j");
	if (J) arg("-J");
	if (n) { arg("-n"); arg("-C"); }
	if (R) arg("-R");
	if (u) arg("-u");
	if (O) { arg("-O"); arg(OFF[O]); }
	for (int i = 0; i < 3 && W[cmd][i]; i++) arg(W[cmd][i]);
	n_ent = 2;
	etype = cmd == 0 ? DNSTABLE_ENTRY_TYPE_RRSET : cmd == 1 ? DNSTABLE_ENTRY_TYPE_VERSION : cmd == 2 ? DNSTABLE_ENTRY_TYPE_TIME_RANGE : DNSTABLE_ENTRY_TYPE_RDATA;
	run();
	abs_check(cs == C, "matching is case sensitive if asked for");
	abs_check(agg == !u, "results are aggregated unless told otherwise");
	abs_check(off == (O ? 2000000007 : 0), "the offset of the command line is used");
	abs_check(setfile == set && same(v_file, set ? "/set" : "/file"), "the file the environment names is read");
	size_t k = 0;
	if (!n) for (int i = 0; i < 2; i++) {
		int js = j || J;
		abs_check(Out.b[k] == (j ? 'j' : J ? 'J' : 't') && Out.b[k + 1] == (js ? R ? 'R' : 'r' : 't') && Out.b[k + 2] == '0' + i, "each entry is printed in the form asked for");
		abs_check(Out.b[k + 3] == '\n', "each entry ends its line");
		k += 4;
		if (!js && cmd == 0) { abs_check(Out.b[k] == '\n', "an empty line follows each rrset"); k++; }
	}
	abs_check(Out.n == k, "nothing else is printed");
	int said = 0;
	for (int i = 0; i < Err.nnum; i++) if (Err.num[i] == 2) said = 1;
	abs_check(said || j || J, "the number of entries is reported");
	abs_reach("printed");
}
void drv_modes_rrset(void) { modes(0); }
void drv_modes_version(void) { modes(1); }
void drv_modes_time_range(void) { modes(2); }
void drv_modes_ip(void) { modes(3); }
/* the environment: exactly one of the two */
void drv_environment(void) {
	int f = abs_pick("DNSTABLE_FNAME", 2), s = abs_pick("DNSTABLE_SETFILE", 2);
	if (f) env_file();
	if (s) { env_name[1] = "DNSTABLE_SETFILE"; env_val[1] = "/set"; }
	int gone = abs_pick("the file cannot be opened", 2);
	if (gone) fail_at = 100;
	must_run = f != s && !(f && gone);
	arg("lookup"); arg("time_range");
	run();
	abs_reach("environment");
}
/* a setting the library refuses ends the command, and so does a query which cannot be run */
void drv_refused_setting(void) {
	int c = abs_pick("command", 3);
	fail_at = abs_pick("setting", 8) - 1;
	iter_null = fail_at < 0;
	int have = c == 0 ? 7 : c == 1 ? 6 : 1 + 1;	/* data, rrtype, bailiwick, offset, deadline, interval, aggregation */
	if (c == 2) must_run = 0;
	env_set();
	arg("lookup");
	if (c != 2) { arg("-O"); arg("3"); arg("-t"); arg("90000"); arg("-i"); arg("2"); }
	if (c == 0) { arg("rrset"); arg("n"); arg("A"); arg("b"); }
	else if (c == 1) { arg("rdata"); arg("name"); arg("n"); arg("A"); }
	else { arg("version"); arg("rrset"); }
	if (fail_at >= have) { must_run = 1; }
	run();
	abs_reach("all settings accepted");
}
/* numbers: taken as they are, or refused, but never taken for another number */
struct number { const char *s; int64_t v; int must; };	/* v 0: must be refused */
static const struct number NUMBERS[] = {
	{ "1", 1, 1 }, { "300", 300, 1 }, { "70000", 70000, 1 }, { "16777217", 16777217, 1 }, { "2147483647", 2147483647, 1 },
	{ "2147483648", 2147483648LL, 0 }, { "4294967297", 4294967297LL, 0 }, { "9223372036854775807", INT64_MAX, 0 },
	{ "9223372036854775808", 0, 0 }, { "18446744073709551617", 0, 0 }, { "340282366920938463463374607431768211457", 0, 0 },
	{ "0", 0, 0 }, { "-1", 0, 0 }, { "-4294967295", 0, 0 }, { "-18446744073709551615", 0, 0 }, { "x", 0, 0 }, { "", 0, 0 },
};
static dnstable_res timeout_or_end(void);
static int max_rounds;
static void number(const char *opt, int lo, int hi) {
	const struct number *n = &NUMBERS[lo + abs_pick("number", hi - lo)];
	env_set();
	arg("lookup"); arg(opt); arg(n->s); arg("rrset"); arg("n");
	may_refuse = n->v && !n->must;
	must_run = n->v != 0;
	if (opt[1] == 't') limit = n->v;
	if (opt[1] == 'i') ival = n->v;
	if (opt[1] != 'O') { timing = 1; max_rounds = 1; next_hook = timeout_or_end; }
	run();
	if (opt[1] == 'O') abs_check(off == (uint64_t)n->v, "the number of entries to skip is the one given");
	abs_reach("number");
}
void drv_number_O_a(void) { number("-O", 0, 8); }
void drv_number_O_b(void) { number("-O", 8, 17); }
void drv_seconds_t_a(void) { number("-t", 0, 7); }
void drv_seconds_t_b(void) { number("-t", 8, 17); }
void drv_seconds_i_a(void) { number("-i", 0, 7); }
void drv_seconds_i_b(void) { number("-i", 8, 17); }
/* bounds on times */
static void bounds(int strict, const char *o1, const char *o2, const char *o3, const char *o4) {
	static const char *const N[] = { "", "T1", "T2", "T3", "T4" };
	const char *o[] = { o1, o2, o3, o4 };
	uint64_t first = abs_u64("time_first"), last = abs_u64("time_last");
	int want = 1;
	abs_assume(first <= last);
	env_set();
	arg("lookup");
	if (strict) arg("-c");
	for (int i = 0; i < 4 && o[i]; i++) {
		T[i + 1] = abs_fresh("bound", 1, INT64_MAX);
		arg(o[i]); arg(N[i + 1]);
		uint64_t v = T[i + 1];
		switch (o[i][1]) {
		case 'a': want = want && first >= v; break;
		case 'A': want = want && (strict ? first : last) >= v; break;
		case 'b': want = want && last <= v; break;
		case 'B': want = want && (strict ? last : first) <= v; break;
		}
	}
	arg("rrset"); arg("n");
	must_run = 1;
	run();
	int got = (P[0] == 0 || first <= P[0]) && first >= P[1] && (P[2] == 0 || last <= P[2]) && last >= P[3];
	abs_check(got == want, "the query has the time bounds of the command line");
	abs_reach("bounded");
}
void drv_bounds_0(void) { bounds(0, "-a", "-A", NULL, NULL); }
void drv_bounds_1(void) { bounds(0, "-b", "-B", NULL, NULL); }
void drv_bounds_2(void) { bounds(1, "-a", "-A", NULL, NULL); }
void drv_bounds_3(void) { bounds(1, "-B", "-b", NULL, NULL); }
void drv_bounds_4(void) { bounds(1, "-A", "-B", NULL, NULL); }
void drv_bounds_5(void) { bounds(1, "-a", "-A", "-b", "-B"); }
void drv_bounds_6(void) { bounds(0, "-a", "-A", "-b", "-B"); }
void drv_bounds_7(void) { bounds(abs_pick("-c", 2), NULL, NULL, NULL, NULL); }
void drv_bounds_8(void) { static const char *const O[] = { "-a", "-A", "-b", "-B" }; bounds(abs_pick("-c", 2), O[abs_pick("option", 4)], NULL, NULL, NULL); }
/* counters */
static void stats(int level) {
	int cats = abs_pick("which counters exist", 8);
	for (int s = 0; s < 3; s++) for (int c = 0; c < 2; c++) { has[s][c] = (cats >> s) & 1; cnt[s][c] = 1 << (s * 2 + c); }
	if (abs_pick("a counter which is zero", 2)) cnt[1][1] = 0;
	int quiet = abs_pick("-n", 2);
	if (cats == 5) has[0][0] = 0;
	env_set();
	must_run = 1;
	n_ent = abs_pick("entries", 3);
	arg("lookup"); arg(quiet ? "-n" : "-j");
	if (level == 1) arg("-s");
	if (level == 2) arg("-ss");
	if (level == 3) { arg("-i"); arg("5"); }	/* implies -s */
	arg("rrset"); arg("n");
	run();
	abs_check(quiet ? Out.n == 0 : Out.n == 4u * n_ent, "entries are printed, unless they are only counted");
	if (level == 0 && !quiet) abs_check(Err.n == 0, "JSON output has no report beside it");
	if (level == 1 || level == 3) for (int c = 0; c < 2; c++) {
		uint64_t want = 0, v = 0;
		for (int s = 0; s < 3; s++) if (has[s][c]) want += cnt[s][c];
		abs_check(tx_find(&Err, CA[c], &v) == 1 && v == want, "the counters of a category are added up over its stages");
	}
	if (level == 2) for (int s = 0; s < 3; s++) for (int c = 0; c < 2; c++) {
		uint64_t v = 0;
		char l[40];
		size_t k = 0;
		for (const char *q = ST[s]; *q; q++) l[k++] = *q;
		l[k++] = ' ';
		for (const char *q = CA[c]; *q; q++) l[k++] = *q;
		l[k] = 0;
		int f = tx_find(&Err, l, &v);
		abs_check(f == has[s][c] && (!f || v == cnt[s][c]), "each counter which exists is reported, and no other");
	}
	if (level) {
		uint64_t v = 0;
		abs_check(tx_find(&Err, "entries", &v) == 1 && v == (uint64_t)n_ent, "the number of entries is reported");
	}
	abs_reach("statistics");
}
void drv_stats_none(void) { stats(0); }
void drv_stats_total(void) { stats(1); }
void drv_stats_each(void) { stats(2); }
void drv_stats_interval(void) { stats(3); }
/* deadlines: a query is given up at the end of its time and not before, and reports in between */
static int last_timeout;
static dnstable_res timeout_or_end(void) {
	if (rounds) {
		abs_check(ival, "a query without reports in between is not resumed");
		deadline_ok();
		if (limit) abs_check(mono <= run_clock + limit, "a query whose time is over is not resumed");
	}
	last_timeout = 0;
	if ((!limit && !ival) || rounds == max_rounds || abs_pick("timed out", 2) == 0) { ended = 1; return NO; }
	rounds++;
	round_clock = -1;
	if (mono < dl) mono = dl;	/* a timeout is noticed at or after the deadline */
	mono += abs_fresh("late", 0, 5);
	last_timeout = 1;
	return dnstable_res_timeout;
}
static void deadlines(int with_t, int with_i) {
	limit = with_t ? 10 : 0; ival = with_i ? 3 : 0;
	if (with_t && with_i && abs_pick("limit below the interval", 2)) limit = 2;
	max_rounds = 2;
	env_set();
	must_run = 1;
	next_hook = timeout_or_end;
	arg("lookup");
	if (with_t) { arg("-t"); arg(limit == 2 ? "2" : "10"); }
	if (with_i) { arg("-i"); arg("3"); }
	else if (abs_pick("-s", 2)) arg("-s");
	arg("rrset"); arg("n");
	timing = 1;
	run();
	if (last_timeout && ival) abs_check(limit && mono > first_clock + limit, "a query which reports at intervals goes on until its time is over");
	abs_check(!last_timeout || Err.n > 0, "a timeout is reported");
	abs_reach(rounds ? "timed out" : "in time");
}
void drv_deadline_none(void) { deadlines(0, 0); }
void drv_deadline_limit(void) { deadlines(1, 0); }
void drv_deadline_interval(void) { deadlines(0, 1); }
void drv_deadline_both(void) { deadlines(1, 1); }
/* times as the manual has them */
static void when(const char *s, int ok, int64_t want) {
	env_set();
	must_run = ok;
	arg("lookup"); arg("-a"); arg(s); arg("rrset"); arg("n");
	run();
	abs_check(P[1] == (uint64_t)want, "a time means what the manual says");
	abs_reach("time");
}
static void clock_set(void) { now = abs_fresh("now", 1500000000, 5000000000); }
void drv_time_dates(void) {
	static const struct { const char *s; int64_t t; } D[] = {
		{ "2020-01-01", 1577836800 }, { "2020-02-29", 1582934400 }, { "2020-01-01 12:34:56", 1577882096 }, { "2020-01-01T12:34:56", 1577882096 },
		{ "2020-01-01T12:34:56Z", 1577882096 }, { "1970-01-02", 86400 }, { "1970-01-01T00:00:01Z", 1 }, { "2020-12-31 23:59:59", 1609459199 },
		{ "2400-01-01", 13569465600 },
		{ "1970-01-01", 0 }, { "1970-01-01T00:00:00Z", 0 }, { "1969-12-31", 0 }, { "1969-12-31 23:59:59", 0 }, { "1901-01-01T00:00:00Z", 0 },
		{ "2020-13-01", 0 }, { "2020-01-01T25:00:00", 0 }, { "2020-01-01x", 0 }, { "2020-01-01T12:34:56ZZ", 0 }, { "x", 0 }, { "", 0 }, { "-", 0 } };
	clock_set();
	int i = abs_pick("date", sizeof(D) / sizeof(D[0]));
	when(D[i].s, D[i].t != 0, D[i].t);
}
void drv_time_numbers(void) {
	static const struct { const char *s; int64_t t; int rel; } D[] = {
		{ "1577880000", 1577880000, 0 }, { "1", 1, 0 }, { "9223372036854775807", INT64_MAX, 0 }, { "0", 0, 0 }, { "-0", 0, 0 }, { "-1", -1, 1 }, { "-300", -300, 1 },
		{ "-1400000000", -1400000000, 1 }, { "-9000000000", 0, 0 }, { "-9223372036854775808", 0, 0 } };
	clock_set();
	int i = abs_pick("number", sizeof(D) / sizeof(D[0]));
	int64_t t = D[i].rel ? now + D[i].t : D[i].t;
	when(D[i].s, t != 0, t);
}
#define WK 604800
#define DY 86400
void drv_time_mnemonics(void) {
	static const struct { const char *s; int64_t t; } D[] = {
		{ "1w", WK }, { "1W", WK }, { "1d", DY }, { "2D", 2 * DY }, { "3h", 10800 }, { "3H", 10800 }, { "4m", 240 }, { "4M", 240 }, { "5s", 5 }, { "5S", 5 },
		{ "52w3d", 52 * WK + 3 * DY }, { "4H30M", 16200 }, { "1w2d3h4m5s", WK + 2 * DY + 10800 + 240 + 5 }, { "10w3", 10 * WK + 3 }, { "1s1s", 2 },
		{ "0w", 0 }, { "-1w", 0 }, { "1w-1d", 0 }, { "1x", 0 }, { "1wx", 0 }, { "w", 0 }, { "1ww", 0 },
		{ "9223372036854775807w", 0 }, { "30500568904944w", 0 }, { "9223372036854775807s1s", 0 }, { "9223372036854775807s9223372036854775807s3s", 0 }, { "153722867280912931m", 0 }, { "99999999999w", 0 }, { "5000w5000w", 0 }, { "30000d30000d30000d", 0 } };
	clock_set();
	int i = abs_pick("mnemonic", sizeof(D) / sizeof(D[0]));
	when(D[i].s, D[i].t != 0, D[i].t ? now - D[i].t : 0);
}

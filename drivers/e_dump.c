/* dnstable_dump: options to the part of the file which is read, and its entries to the output */
#include "cli.h"
#include <dnstable.h>
#include <mtbl.h>
#include "libmy/argv.h"
#define OK dnstable_res_success
#define NO dnstable_res_failure
extern int main(int, char **);
static int must_run, errors;
static char *av[12];
static int ac;
static void arg(const char *s) { av[ac++] = (char *)s; }
void exit(int c) {
	abs_check(c != 0, "giving up is reported in the exit status");
	abs_check(!must_run, "what the arguments ask for is done");
	abs_check(Out.n == 0, "nothing is printed for a command which is refused");
	abs_check(Err.n > 0 || errors, "a refusal is explained");
	abs_reach("refused");
	abs_stop();
	for (;;) ;
}
#ifndef REAL_ARGV
/* the option parser, as its manual has it */
static int used[24];
static int wanted(const argv_t *a, const char *s) {
	return s[0] == '-' && ((s[1] != '-' && s[2] == 0 && a->ar_short_arg == s[1] && s[1] != 0) || (s[1] == '-' && a->ar_long_arg && strcmp(a->ar_long_arg, s + 2) == 0));
}
static int group(const argv_t *a, int first, int last) {	/* exactly one out of a group */
	int n = 0;
	for (int i = first; i <= last; i++) if (a[i].ar_short_arg != ARGV_ONE_OF) n += used[i];
	return n == 1;
}
int argv_process(argv_t *a, const int argc, char **argv) {
	int n = 0, mand = 0, need = 0;
	for (; a[n].ar_short_arg != ARGV_LAST; n++) { abs_check(n < 24, "the list of options ends"); if (a[n].ar_short_arg == ARGV_MAND) need++; }
	for (int k = 1; k < argc; k++) {
		int hit = 0;
		for (int i = 0; i < n; i++) {
			if (a[i].ar_short_arg == ARGV_ONE_OF) continue;
			if (a[i].ar_short_arg == ARGV_MAND) {
				if (argv[k][0] != '-' && !hit && !used[i]) { abs_check(ARGV_TYPE(a[i].ar_type) == ARGV_CHAR_P, "a file name is a string"); *(char **)a[i].ar_variable = argv[k]; used[i] = hit = 1; mand++; }
			} else if (wanted(&a[i], argv[k])) {
				abs_check(!hit, "each option means one thing");
				abs_check(ARGV_TYPE(a[i].ar_type) == ARGV_BOOL, "switches take no argument");
				*(char *)a[i].ar_variable = 1;
				used[i] = hit = 1;
			}
		}
		if (!hit) { errors = 1; exit(1); }
	}
	if (mand < need) { errors = 1; exit(1); }
	for (int i = 0; i < n; i++) {
		if (a[i].ar_short_arg != ARGV_ONE_OF) continue;
		int j = i + 1;
		while (j + 1 < n && a[j + 1].ar_short_arg == ARGV_ONE_OF) j += 2;
		if (!group(a, i - 1, j)) { errors = 1; exit(1); }
		i = j;
	}
	return 0;
}
void argv_cleanup(const argv_t *a) { }
#endif
/* the library */
static char Mr, Src, Rd, It, Fm;
static int mr, rd, it, fm, part = -1, open_fail, n_ent, at, ended, etype;
static int f_json, f_date, f_raw;
static const char *file;
static char fname[16];
struct mtbl_reader *mtbl_reader_init(const char *f, const struct mtbl_reader_options *o) { size_t l = strlen(f); abs_check(l < sizeof(fname), "a file name of the command line"); memcpy(fname, f, l + 1); file = fname; if (open_fail) return NULL; mr++; return (void *)&Mr; }
void mtbl_reader_destroy(struct mtbl_reader **r) { if (*r) { abs_check(rd == 0, "the file is closed last"); mr--; *r = NULL; } }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return (void *)&Src; }
struct dnstable_reader *dnstable_reader_init(const struct mtbl_source *s) { abs_check((void *)s == &Src, "a reader of the file"); rd++; return (void *)&Rd; }
void dnstable_reader_destroy(struct dnstable_reader **r) { if (*r) { abs_check(it == 0, "a reader goes after its iterators"); rd--; *r = NULL; } }
#define PART(n, i) struct dnstable_iter *n(struct dnstable_reader *r) { abs_check((void *)r == &Rd && part < 0, "one part is read"); part = i; it++; return (void *)&It; }
PART(dnstable_reader_iter_rrset, 0) PART(dnstable_reader_iter_rdata, 1) PART(dnstable_reader_iter_rrset_names, 2) PART(dnstable_reader_iter_rdata_names, 3)
PART(dnstable_reader_iter_time_range, 4) PART(dnstable_reader_iter_version, 5) PART(dnstable_reader_iter_source_info, 6) PART(dnstable_reader_iter, 7)
void dnstable_iter_destroy(struct dnstable_iter **i) { if (*i) { it--; *i = NULL; } }
struct dnstable_entry { dnstable_entry_type t; int id; };
dnstable_res dnstable_iter_next(struct dnstable_iter *i, struct dnstable_entry **e) {
	abs_check((void *)i == &It && it == 1 && !ended, "entries are read from a live iterator until it ends");
	if (at == n_ent) { ended = 1; return NO; }
	struct dnstable_entry *n = malloc(sizeof(*n));
	n->t = etype; n->id = at++;
	*e = n;
	return OK;
}
void dnstable_entry_destroy(struct dnstable_entry **e) { if (*e) { free(*e); *e = NULL; } }
dnstable_entry_type dnstable_entry_get_type(struct dnstable_entry *e) { return e->t; }
struct dnstable_formatter *dnstable_formatter_init(void) { fm++; f_json = f_date = -1; f_raw = 0; return (void *)&Fm; }
void dnstable_formatter_set_output_format(struct dnstable_formatter *f, dnstable_output_format_type t) { f_json = t == dnstable_output_format_json; }
void dnstable_formatter_set_date_format(struct dnstable_formatter *f, dnstable_date_format_type t) { f_date = t == dnstable_date_format_unix ? 'j' : 'J'; }
void dnstable_formatter_set_raw_rdata(struct dnstable_formatter *f, bool b) { f_raw = b; }
void dnstable_formatter_destroy(struct dnstable_formatter **f) { if (*f) { fm--; *f = NULL; } }
static int unprintable = -1;
static char *give(char a, char b, int id, int nl) {
	if (id == unprintable) return NULL;
	char *s = malloc(6);
	int n = 0;
	s[n++] = a; s[n++] = b; s[n++] = '0' + id;
	if (nl) s[n++] = '\n';
	s[n] = 0;
	return s;
}
char *dnstable_entry_format(const struct dnstable_formatter *f, const struct dnstable_entry *e) {
	abs_check(fm == 1, "a live formatter is used");
	return give(f_json ? f_date : '?', f_raw ? 'R' : 'r', e->id, 0);
}
char *dnstable_entry_to_text(const struct dnstable_entry *e) { return give('t', 't', e->id, 1); }
char *dnstable_entry_to_json(const struct dnstable_entry *e) { return give('j', 'r', e->id, 0); }
static const dnstable_entry_type TY[7] = { DNSTABLE_ENTRY_TYPE_RRSET, DNSTABLE_ENTRY_TYPE_RDATA, DNSTABLE_ENTRY_TYPE_RRSET_NAME_FWD, DNSTABLE_ENTRY_TYPE_RDATA_NAME_REV,
	DNSTABLE_ENTRY_TYPE_TIME_RANGE, DNSTABLE_ENTRY_TYPE_VERSION, DNSTABLE_ENTRY_TYPE_SOURCE_INFO };
static const char *const SHORT[7] = { "-r", "-d", NULL, NULL, "-t", "-v", "-s" };
static const char *const LONG[7] = { "--rrset_full", "--rdata_full", "--rrset_names", "--rdata_names", "--time_range", "--version_entries", "--source_info_entries" };
static void dump(int p, int lng, int json, int raw, int extra) {
	arg("dump");
	if (json) arg(lng ? "--json" : "-j");
	if (raw) arg(lng ? "--raw" : "-R");
	if (p >= 0) arg(lng || !SHORT[p] ? LONG[p] : SHORT[p]);
	if (extra >= 0) arg(LONG[extra]);
	if (file == NULL) arg("/file");
	etype = p >= 0 ? TY[p] : 0;
	must_run = p >= 0 && extra < 0 && !open_fail && !(raw && (!json || p > 1));
	if (must_run) n_ent = abs_pick("entries", 4);
	if (n_ent == 3) n_ent = 60;
	av[ac] = NULL;
	int r = main(ac, av);
	abs_check(must_run, "a command which makes no sense is refused");
	abs_check(r == 0, "a command which ran is a success");
	abs_check(part == p, "each option dumps its part of the file");
	abs_check(strcmp(file, "/file") == 0, "the file of the command line is read");
	abs_check(mr == 0 && rd == 0 && it == 0 && fm == 0, "everything opened is closed");
	size_t k = 0;
	for (int i = 0; i < n_ent; i++) {
		if (i == unprintable) continue;
		abs_check(Out.b[k] == (json ? 'j' : 't') && Out.b[k + 1] == (json ? raw ? 'R' : 'r' : 't') && Out.b[k + 2] == '0' + i, "each entry is printed in the form asked for");
		abs_check(Out.b[k + 3] == '\n', "each entry ends its line");
		k += 4;
		if (!json && p != 1) { abs_check(Out.b[k] == '\n', "an empty line follows each entry but those of rdata"); k++; }
	}
	abs_check(Out.n == k, "nothing else is printed");
	abs_noleak();
	abs_reach("dumped");
}
void drv_parts(void) { int lng = abs_pick("long options", 2), json = abs_pick("--json", 2), raw = abs_pick("--raw", 2); dump(abs_pick("part", 7), lng, json, raw, -1); }
void drv_one_part(void) { int p = abs_pick("part", 8) - 1, e = abs_pick("another part", 8) - 1; dump(p, 1, 0, 0, p >= 0 && e != p ? e : -1); }
void drv_unprintable(void) { unprintable = abs_pick("unprintable entry", 2); dump(abs_pick("part", 2), 0, abs_pick("--json", 2), 0, -1); }
void drv_no_file(void) { int p = abs_pick("part", 7); if (abs_pick("how", 2)) file = ""; else open_fail = 1; int f = file != NULL; if (f) { must_run = 0; arg("dump"); arg(LONG[p]); av[ac] = NULL; main(ac, av); abs_check(0, "a command without a file is refused"); } dump(p, 0, 0, 0, -1); }

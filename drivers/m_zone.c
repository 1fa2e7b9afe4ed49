/* reading a zone file: which records are handed out, what they are relative to, who frees them */
#include "abs.h"
#include <ldns/ldns.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/zonefile.h"
enum { A, SOA, EMPTY, TTL, ORIGIN, BAD, KINDS };
#define MAX 700
static int line[MAX], nlines, at, feof_, late_eof;
static int is_open, is_pipe, open_fails;
static char fobj;
static const char *name;
static char apex[] = "apex", ohdr[MAX + 4] = "origin";
static int live_rr;
/* the parser: one line at a time */
static ldns_rdf *rdf(const char *what) {
	ldns_rdf *r = malloc(sizeof(*r));
	r->_size = 0; r->_type = LDNS_RDF_TYPE_DNAME; r->_data = (void *)what;
	return r;
}
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r) { return r ? rdf(r->_data) : NULL; }
void ldns_rdf_deep_free(ldns_rdf *r) { free(r); }
ldns_rr_type ldns_rr_get_type(const ldns_rr *r) { return r->_rr_type; }
ldns_rdf *ldns_rr_owner(const ldns_rr *r) { return r->_owner; }
void ldns_rr_free(ldns_rr *r) { if (r) { free(r->_owner); free(r->_rdata_fields); free(r); live_rr--; } }
static ldns_rdf serial; static uint32_t serial_nr = 2026;
ldns_rdf *ldns_rr_rdf(const ldns_rr *r, size_t n) {
	abs_check(r != NULL && r->_rr_type == LDNS_RR_TYPE_SOA && n == 2, "the serial number is that of the start of authority");
	if (r == NULL) abs_stop();
	return &serial;
}
uint32_t ldns_rdf2native_int32(const ldns_rdf *r) { abs_check(r == &serial, "the serial number is converted"); return serial_nr; }
/* at which line, relative to what and with which default time to live each record was read */
static uint32_t want_ttl; static const char *want_origin;
static int wrong_end;
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **out, FILE *f, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *ln) {
	(void)ln;
	abs_check(f == (FILE *)&fobj && is_open, "the open file is read");
	if (at >= nlines) {
		abs_check(!feof_ || wrong_end < 2, "reading stops at the end of the file");
		if (feof_ && ++wrong_end > 2) abs_stop();
		feof_ = 1;
		return LDNS_STATUS_SYNTAX_EMPTY;
	}
	int k = line[at++];
	if (at == nlines && !late_eof) feof_ = 1;
	switch (k) {
	case EMPTY: return LDNS_STATUS_SYNTAX_EMPTY;
	case TTL: *ttl = want_ttl = 60 + at; return LDNS_STATUS_SYNTAX_TTL;
	case ORIGIN:
		if (*origin) ldns_rdf_deep_free(*origin);
		*origin = rdf(want_origin = ohdr + at);
		return LDNS_STATUS_SYNTAX_ORIGIN;
	case BAD: return LDNS_STATUS_SYNTAX_RDATA_ERR;
	}
	ldns_rr *r = calloc(1, sizeof(*r));
	r->_owner = rdf(k == SOA ? apex : "www");
	r->_rr_type = k == SOA ? LDNS_RR_TYPE_SOA : LDNS_RR_TYPE_A;
	r->_ttl = at - 1;	/* which line it was */
	live_rr++;
	abs_check(*ttl == want_ttl, "the default time to live of the file holds for its records");
	const char *o = *origin ? (const char *)(*origin)->_data : NULL;
	abs_check(o == want_origin, "names are relative to what the file says last, or else to the zone");
	if (k == SOA && want_origin == NULL) want_origin = apex;
	if (*prev) ldns_rdf_deep_free(*prev);
	*prev = rdf("www");
	*out = r;
	return LDNS_STATUS_OK;
}
#undef feof
int feof(FILE *f) { abs_check(f == (FILE *)&fobj && is_open, "the open file is asked for its end"); return feof_; }
FILE *fopen(const char *n, const char *m) {
	abs_check(strcmp(n, name) == 0 && m[0] == 'r', "the given file is read");
	if (open_fails) return NULL;
	is_open = 1; is_pipe = 0;
	return (FILE *)&fobj;
}
/* what the shell makes of the command */
FILE *popen(const char *c, const char *m) {
	char tok[64]; int n = 0, q = 0, words = 0, matched = 0, any = 0, safe = 0;
	abs_check(m[0] == 'r', "the output of the program is read");
	for (;; c++) {
		if (!q && (*c == ' ' || *c == 0)) {
			tok[n] = 0;
			if (any || n) { words++; matched = words > 1 && strcmp(tok, name) == 0 && (safe || name[0] != '-'); safe = strcmp(tok, "--") == 0 || strcmp(tok, "<") == 0; }
			n = 0; any = 0;
			if (*c == 0) break;
			continue;
		}
		if (*c == 0) { abs_check(0, "the command is one the shell can read"); break; }
		if (q == 0 && *c == '\'') { q = 1; any = 1; continue; }
		if (q == 0 && *c == '"') { q = 2; any = 1; continue; }
		if ((q == 1 && *c == '\'') || (q == 2 && *c == '"')) { q = 0; continue; }
		if (q != 1 && *c == '\\' && c[1]) { c++; }
		else if (q != 1) abs_check(*c != '$' && *c != '`' && (q == 2 || (*c != ';' && *c != '&' && *c != '|' && *c != '*' && *c != '(')), "the name of the file is no command for the shell");
		if (n < 63) tok[n++] = *c;
	}
	abs_check(matched, "the given compressed file is read");
	if (open_fails) return NULL;
	is_open = 1; is_pipe = 1;
	return (FILE *)&fobj;
}
int fclose(FILE *f) { abs_check(f == (FILE *)&fobj && is_open && !is_pipe, "a file is closed once"); is_open = 0; return 0; }
int pclose(FILE *f) { abs_check(f == (FILE *)&fobj && is_open && is_pipe, "a program is waited for once"); is_open = 0; return 0; }
static void zone(void) {
	int i = 0, k, expect = 0, n = 0;
	/* the start: the first record decides */
	while (i < nlines && (line[i] == EMPTY || line[i] == TTL || line[i] == ORIGIN)) i++;
	struct zonefile *z = zonefile_init_fname(name);
	if (open_fails || i >= nlines || line[i] != SOA) {
		abs_check(z == NULL, "a file which does not begin with its start of authority is no zone");
		abs_check(!is_open, "the file is closed");
		abs_noleak();
		abs_reach(open_fails ? "not there" : i >= nlines ? "empty" : "no zone");
		return;
	}
	abs_check(z != NULL, "a file which begins with its start of authority is a zone");
	int done = 0;
	for (k = 0; k < nlines + 3 && !done; k++) {
		abs_check(strcmp((const char *)zonefile_get_domain(z)->_data, apex) == 0, "the zone is that of its start of authority");
		if (k != 1 && k != 3) ; else abs_check(zonefile_get_serial(z) == serial_nr, "the zone has its serial number");
		if (n > 0) {
			i++;
			while (i < nlines && (line[i] == EMPTY || line[i] == TTL || line[i] == ORIGIN)) i++;
		}
		if (i >= nlines || (n > 0 && line[i] == SOA)) { i = nlines; expect = -1; }
		else expect = line[i] == BAD ? -2 : i;
		ldns_rr *rr = NULL;
		ldns_status s = zonefile_read(z, &rr);
		if (expect == -1) {
			abs_check(s == LDNS_STATUS_OK && rr == NULL, "a zone ends with its file or where it starts again");
			if (s == LDNS_STATUS_OK && rr) ldns_rr_free(rr);
			if (++n > 40) done = 1;
			if (k > 0 && expect == -1 && n > 0) { if (wrong_end++ > 6) done = 1; }
		} else if (expect == -2) {
			abs_check(s != LDNS_STATUS_OK, "a record which cannot be read is an error");
			abs_reach("error");
			done = 1;
		} else {
			abs_check(s == LDNS_STATUS_OK && rr != NULL, "every record of the zone is read");
			if (s != LDNS_STATUS_OK || rr == NULL) abs_stop();
			abs_check(rr->_ttl == (uint32_t)expect, "records are read in order, each once");
			n++;
			abs_check(zonefile_get_count(z) == (size_t)n, "the number of records is of those read");
			ldns_rr_free(rr);
		}
	}
	if (abs_pick("read to the end", 2) == 0) abs_reach("read");
	zonefile_destroy(&z);
	abs_check(z == NULL && !is_open && live_rr == 0, "a zone which is closed holds nothing");
	zonefile_destroy(&z);
	abs_noleak();
	abs_reach("closed");
}
static void lines(int n) { nlines = n; for (int i = 0; i < n; i++) line[i] = abs_pick("line", KINDS); late_eof = abs_pick("the end is seen late", 2); }
void drv_open(void) {
	static const char *const N[] = { "z", "zone.gz", ".gz", "a b.gz", "z.gz.txt", "gz", "", "$(x);'y'\"`.gz", "-d.gz" };
	name = N[abs_pick("name", 9)];
	open_fails = abs_pick("cannot be opened", 2);
	nlines = 1 + abs_pick("lines", 2); line[0] = SOA; line[1] = A;
	zone();
}
void drv_serial(void) { name = "z"; serial_nr = abs_u32("serial number"); nlines = 3; line[0] = SOA; line[1] = A; line[2] = A; zone(); }
void drv_empty(void) { name = "z"; lines(abs_pick("lines", 3)); zone(); }
void drv_three(void) { name = "z"; lines(3); zone(); }
void drv_after(void) { name = "z"; nlines = 5; line[0] = SOA; for (int i = 1; i < 5; i++) { static const int K[] = { A, SOA, TTL, ORIGIN, BAD }; line[i] = K[abs_pick("line", 5)]; } late_eof = abs_pick("the end is seen late", 2); zone(); }
void drv_before(void) { name = "z"; nlines = 5; static const int K[] = { SOA, TTL, ORIGIN, EMPTY }; for (int i = 0; i < 3; i++) { line[i] = K[abs_pick("line", 4)]; } line[3] = SOA; line[4] = A; zone(); }
/* a zone which is not read to its end */
void drv_part(void) {
	name = "z"; nlines = 3; line[0] = SOA; line[1] = A; line[2] = A; late_eof = 1;
	struct zonefile *z = zonefile_init_fname(name);
	for (int n = abs_pick("records read", 3); n > 0; n--) { ldns_rr *rr; if (zonefile_read(z, &rr) == LDNS_STATUS_OK) ldns_rr_free(rr); }
	zonefile_destroy(&z);
	abs_check(!is_open && live_rr == 0, "a zone which is closed holds nothing");
	abs_noleak();
	abs_reach("part");
}
/* a zone of hundreds of records, with directives and empty lines between them */
static void many(int n, int how) {
	name = "z";
	nlines = n;
	for (int i = 1; i < n; i++) line[i] = how == 0 ? A : i % 3 == 0 ? EMPTY : i % 50 == 7 ? TTL : i % 70 == 9 ? ORIGIN : i % 200 > 90 && how == 2 ? EMPTY : A;
	line[0] = SOA;
	if (how == 1) line[n - 2] = SOA;
	late_eof = abs_pick("the end is seen late", 2);
	zone();
	abs_reach("large zone");
}
void many_records(void) { many(600, 0); }
void many_lines(void) { many(400, 1); }
void many_empty(void) { many(640, 2); }

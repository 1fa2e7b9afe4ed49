/* the C library as a command sees it: argument parsing, environment, clock and output, all known to the driver */
#ifndef CLI_H
#define CLI_H
#include "abs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#undef stdout
#undef stderr
static char out_f, err_f;
FILE *stdout = (FILE *)&out_f, *stderr = (FILE *)&err_f;
struct text { char b[4096]; size_t n; uint64_t num[64]; int nnum; };
static struct text Out, Err;
static void tx_c(struct text *t, char c) { t->b[t->n] = c; t->n++; }
static void tx_s(struct text *t, const char *s) { while (*s) tx_c(t, *s++); }
static struct text *tx(FILE *f) {
	abs_check(f == stdout || f == stderr, "output goes to stdout or stderr");
	return f == stdout ? &Out : &Err;
}
int fputs(const char *s, FILE *f) { tx_s(tx(f), s); return 1; }
int puts(const char *s) { tx_s(&Out, s); tx_c(&Out, '\n'); return 1; }
int putchar(int c) { tx_c(&Out, (char)c); return c; }
int fputc(int c, FILE *f) { tx_c(tx(f), (char)c); return c; }
int putc(int c, FILE *f) { tx_c(tx(f), (char)c); return c; }
size_t fwrite(const void *p, size_t n, size_t m, FILE *f) { for (size_t i = 0; i < n * m; i++) tx_c(tx(f), ((const char *)p)[i]); return m; }
int fflush(FILE *f) { return 0; }
void perror(const char *s) { tx_s(&Err, s); tx_c(&Err, '\n'); }
/* numbers are kept beside the text, which has '#' in their place */
#define TX_FMT(t, fmt) do { int k_ = 0; \
	for (const char *p_ = (fmt); *p_; p_++) { \
		if (*p_ != '%') { tx_c(t, *p_); continue; } \
		for (p_++; strchr("-+ 0123456789'.#lzjh*", *p_) != NULL; p_++) if (*p_ == '*') k_++; \
		if (*p_ == '%') tx_c(t, '%'); \
		else if (*p_ == 's') tx_s(t, (const char *)abs_va(k_++)); \
		else if (*p_ == 'c') tx_c(t, (char)(uint64_t)abs_va(k_++)); \
		else { tx_c(t, '#'); (t)->num[(t)->nnum] = (uint64_t)abs_va(k_++); (t)->nnum++; } \
	} } while (0)
int fprintf(FILE *f, const char *fmt, ...) { struct text *t = tx(f); TX_FMT(t, fmt); return 1; }
int printf(const char *fmt, ...) { struct text *t = &Out; TX_FMT(t, fmt); return 1; }
/* the number of the line which begins with a label, or -1 */
static int tx_find(const struct text *t, const char *label, uint64_t *v) {
	size_t i = 0;
	int k = 0, found = 0;
	while (i < t->n) {
		size_t j = 0, b = i, e;
		for (e = b; e < t->n && t->b[e] != '\n'; e++) ;
		while (label[j] && b + j < e && t->b[b + j] == label[j]) j++;
		int hit = !label[j] && b + j < e && (t->b[b + j] == ' ' || t->b[b + j] == ':');
		for (; i < e; i++) if (t->b[i] == '#') { if (hit) { *v = t->num[k]; found++; hit = 0; } k++; }
		i++;
	}
	return found;
}
/* getopt as POSIX has it */
char *optarg;
int optind = 1, opterr, optopt;
static int opt_at;
int getopt(int argc, char *const *argv, const char *spec) {
	optarg = NULL;
	if (opt_at == 0) {
		if (optind >= argc || argv[optind][0] != '-' || argv[optind][1] == 0) return -1;
		if (argv[optind][1] == '-' && argv[optind][2] == 0) { optind++; return -1; }
		opt_at = 1;
	}
	char c = argv[optind][opt_at++];
	const char *s = strchr(spec, c);
	int last = argv[optind][opt_at] == 0;
	if (s == NULL || c == ':') { if (last) { optind++; opt_at = 0; } return '?'; }
	if (s[1] != ':') { if (last) { optind++; opt_at = 0; } return c; }
	if (!last) optarg = &argv[optind++][opt_at];
	else if (++optind < argc) optarg = argv[optind++];
	else { opt_at = 0; return '?'; }
	opt_at = 0;
	return c;
}
char *setlocale(int c, const char *l) { return "C"; }
static const char *env_name[2], *env_val[2];
char *getenv(const char *n) {
	for (int i = 0; i < 2; i++) if (env_name[i] && strcmp(env_name[i], n) == 0) return (char *)env_val[i];
	return NULL;
}
#endif

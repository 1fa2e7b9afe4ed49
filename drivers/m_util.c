/* small helpers: string replacement, printed strings, numbers from the environment, reading exactly */
#include "abs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "libmy/string_replace.h"
#include "libmy/print_string.h"
#include "libmy/getenv_int.h"
#include "libmy/read_bytes.h"
char *strstr(const char *h, const char *n) {
	for (;; h++) {
		size_t i = 0;
		while (n[i] && h[i] == n[i]) i++;
		if (!n[i]) return (char *)h;
		if (!*h) return NULL;
	}
}
static void ref_replace(const char *s, const char *o, const char *n, char *out) {
	size_t k = 0;
	while (*s) {
		size_t i = 0;
		while (o[i] && s[i] == o[i]) i++;
		if (i && !o[i]) { for (const char *p = n; *p; p++) out[k++] = *p; s += i; }
		else out[k++] = *s++;
	}
	out[k] = 0;
}
static void replace(const char *o, const char *n) {
	char s[7], want[32];
	int len = abs_pick("length", 6);
	for (int i = 0; i < len; i++) s[i] = "abx"[abs_pick("character", 3)];
	s[len] = 0;
	char *h = malloc(len + 1);
	memcpy(h, s, len + 1);
	ref_replace(s, o, n, want);
	char *r = string_replace(h, o, n);
	abs_check(r != h, "the result is the caller's own");
	abs_check(strcmp(r, want) == 0, "every occurrence is replaced, from left to right, and nothing else");
	abs_check(strcmp(h, s) == 0, "the given string is left alone");
	free(r); free(h);
	abs_noleak();
	abs_reach("replaced");
}
void drv_replace_one(void) { replace("a", "yy"); }
void drv_replace_two(void) { replace("ab", "z"); }
void drv_replace_self(void) { replace("aa", "aa"); }
void drv_replace_remove(void) { replace("ba", ""); }
void drv_replace_nothing(void) { replace("", "z"); }
/* ---- print_string: the stream is a buffer */
static char out[2600];
static size_t on;
static char file_;
int fputc(int c, FILE *f) { abs_check(f == (FILE *)&file_, "the given stream is written"); out[on] = (char)c; on++; return c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fputs(const char *s, FILE *f) { for (; *s; s++) fputc(*s, f); return 1; }
int fprintf(FILE *f, const char *fmt, ...) {
	int k = 0;
	for (; *fmt; fmt++) {
		if (*fmt != '%') { fputc(*fmt, f); continue; }
		if (fmt[1] == '0' && fmt[2] == '2' && fmt[3] == 'x') {
			unsigned v = (unsigned)(uint64_t)abs_va(k++);
			abs_check(v < 256, "one byte is printed at a time");
			fputc("0123456789abcdef"[v >> 4 & 15], f); fputc("0123456789abcdef"[v & 15], f);
			fmt += 3;
		} else if (fmt[1] == 'c') { fputc((int)(uint64_t)abs_va(k++), f); fmt++; }
		else { abs_check(0, "a conversion the model of the stream knows"); }
	}
	return 1;
}
#undef isprint
static unsigned short ctype[384]; static const unsigned short *ctp = ctype + 128;
const unsigned short **__ctype_b_loc(void) { if (!ctype[128 + 'a']) for (int i = 32; i < 127; i++) ctype[128 + i] = _ISprint; return &ctp; }
int isprint(int c) { abs_check(c >= 0 && c < 256, "a character is a byte"); return c >= 32 && c < 127; }
static void print(int n, int all) {
	static const uint8_t K[] = { 'a', '"', 0, 127, 255, ' ' };
	uint8_t *b = malloc(n);
	char want[40];
	size_t k = 0;
	want[k++] = '"';
	for (int i = 0; i < n; i++) {
		b[i] = all ? abs_split(abs_u8("byte"), 0, 255) : K[abs_pick("byte", sizeof(K))];
		if (b[i] == '"') { want[k++] = '\\'; want[k++] = '"'; }
		else if (b[i] >= 32 && b[i] < 127) want[k++] = b[i];
		else { want[k++] = '\\'; want[k++] = 'x'; want[k++] = "0123456789abcdef"[b[i] >> 4]; want[k++] = "0123456789abcdef"[b[i] & 15]; }
	}
	want[k++] = '"';
	print_string(b, n, (FILE *)&file_);
	abs_check(on == k, "a printed string has every character once");
	abs_check(abs_eqbytes(out, want, k), "printable characters are printed, quotes and others escaped");
	free(b);
	abs_reach("printed");
}
void drv_print_byte(void) { print(1, 1); }
void drv_print_bytes(void) { print(abs_pick("length", 4), 0); }
/* ---- numbers from the environment */
static const char *val;
char *getenv(const char *n) { abs_check(strcmp(n, "THE_NAME") == 0, "the variable asked for is read"); return (char *)val; }
unsigned long strtoul(const char *s, char **e, int base) {
	unsigned long v = 0;
	const char *p = s;
	if (base == 0) base = p[0] == '0' && (p[1] == 'x' || p[1] == 'X') ? 16 : p[0] == '0' ? 8 : 10;
	if (base == 16 && p[0] == '0' && (p[1] | 32) == 'x') p += 2;
	const char *b = p;
	for (;; p++) {
		int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'f' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'F' ? *p - 'A' + 10 : 99;
		if (d >= base) break;
		v = v * base + d;
	}
	if (e) *e = (char *)(p == b ? s : p);
	return v;
}
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
void drv_getenv(void) {
	static const struct { const char *s; int ok; uint64_t v; } D[] = { { NULL, 0 }, { "0", 1, 0 }, { "1", 1, 1 }, { "42", 1, 42 }, { "18446744073709551615", 1, UINT64_MAX },
		{ "0x10", 1, 16 }, { "010", 1, 8 }, { "x", 0 }, { "12x", 0 }, { "12 ", 0 }, { "0x1g", 0 }, { "1.5", 0 } };
	int i = abs_pick("value", sizeof(D) / sizeof(D[0]));
	uint64_t v = 99;
	val = D[i].s;
	bool r = getenv_int("THE_NAME", &v);
	abs_check(r == D[i].ok, "a variable which holds a number, and nothing else, is one");
	abs_check(!r || v == D[i].v, "the number is the one the variable holds");
	abs_check(D[i].s != NULL || v == 99, "a variable which is not set changes nothing");
	abs_reach("variable");
}
/* ---- reading exactly */
static int err_, eof, failing, intr, first;
int *__errno_location(void) { return &err_; }
static uint8_t *buf;
static size_t total, got;
ssize_t read(int fd, void *b, size_t n) {
	abs_check(fd == 7, "the given descriptor is read");
	abs_check((uint8_t *)b == buf + got && n == total - got, "reading goes on where it stopped, for what is missing");
	abs_check(!eof && !failing, "reading stops at the end and at errors");
	switch (abs_pick("read", intr < 2 ? 4 : 3)) {
	case 0: {
		size_t k = 1 + abs_pick("bytes", (int)(total - got));
		for (size_t i = 0; i < k; i++) buf[got + i] = (uint8_t)(got + i + 1);
		got += k;
		return k;
	}
	case 1: eof = 1; return 0;
	case 2: { static const int E[] = { EIO, EAGAIN, EBADF, EINVAL, EISDIR, ETIMEDOUT, ECONNRESET, ENOBUFS }; failing = 1; err_ = E[abs_pick("error", first++ ? 1 : 8)]; return -1; }
	default: intr++; err_ = EINTR; return -1;
	}
}
void drv_read(void) {
	total = abs_pick("wanted", 5);
	err_ = abs_pick("an earlier error", 2) ? EINTR : 0;
	buf = malloc(total + 1);
	buf[total] = 0x55;
	bool r = read_bytes(7, buf, total);
	abs_check(r == (got == total), "reading succeeds exactly if everything was read");
	if (r) for (size_t i = 0; i < total; i++) abs_check(buf[i] == i + 1, "what was read is in its place");
	abs_check(buf[total] == 0x55, "no more than asked for is read");
	free(buf);
	abs_reach(r ? "read" : "not read");
}
/* ---- long strings */
void drv_replace_long(void) {
	static char in[1300], new[400], want[40000];
	static const char *const O[] = { "ab", "x", "aab", "ba" };
	int nl = abs_pick("length of the replacement", 4), ol = abs_pick("replaced", 4);
	static const int N[] = { 1, 127, 130, 300 };
	for (int i = 0; i < N[nl]; i++) new[i] = 'A' + i % 26;
	int len = nl > 0 ? 60 : 900;
	for (int i = 0; i < len; i++)
		in[i] = nl == 0 ? (i % 100 < 20 ? 'x' : i * 7 % 11 < 6 ? 'a' : 'b') : i % 17 == 3 ? 'x' : i % 17 > 9 ? "aaababz"[i % 17 - 10] : 'z';
	ref_replace(in, O[ol], new, want);
	char *r = string_replace(in, O[ol], new);
	size_t at = 0;
	while (want[at] && r[at] == want[at]) at++;
	abs_check(r[at] == want[at], "every occurrence is replaced in long strings too");
	free(r);
	abs_noleak();
	abs_reach("long");
}
void drv_print_long(void) {
	static uint8_t b[600];
	static char w[2500];
	size_t k = 0, n = 255 + abs_pick("length", 4) * 100;
	w[k++] = '"';
	for (size_t i = 0; i < n; i++) {
		b[i] = i * 5 + 1;
		if (b[i] == '"') { w[k++] = '\\'; w[k++] = '"'; }
		else if (b[i] >= 32 && b[i] < 127) w[k++] = b[i];
		else { w[k++] = '\\'; w[k++] = 'x'; w[k++] = "0123456789abcdef"[b[i] >> 4]; w[k++] = "0123456789abcdef"[b[i] & 15]; }
	}
	w[k++] = '"';
	print_string(b, n, (FILE *)&file_);
	abs_check(on == k, "a long printed string has every character once");
	int same = 1;
	for (size_t i = 0; i < k; i++) same &= out[i] == w[i];
	abs_check(same, "a long string is printed like a short one");
	abs_reach("long");
}

/*
 * The C library for functions which neither a driver nor the engine models: lc_NAME is used for NAME
 * when nothing else defines it.
 */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define LC(t, n) t lc_##n

LC(char *, strcpy)(char *d, const char *s) { char *r = d; while ((*d++ = *s++) != 0) ; return r; }
LC(char *, stpcpy)(char *d, const char *s) { while ((*d = *s++) != 0) d++; return d; }
LC(char *, strcat)(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++) != 0) ; return r; }
LC(char *, strncpy)(char *d, const char *s, size_t n) {
	size_t i = 0;
	for (; i < n && s[i]; i++) d[i] = s[i];
	for (; i < n; i++) d[i] = 0;
	return d;
}
LC(char *, strncat)(char *d, const char *s, size_t n) {
	char *r = d;
	while (*d) d++;
	for (; n && *s; n--) *d++ = *s++;
	*d = 0;
	return r;
}
LC(size_t, strnlen)(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
LC(void *, mempcpy)(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
LC(void *, memrchr)(const void *s, int c, size_t n) {
	const unsigned char *p = s;
	while (n--) if (p[n] == (unsigned char)c) return (void *)(p + n);
	return NULL;
}
LC(void *, rawmemchr)(const void *s, int c) { const unsigned char *p = s; while (*p != (unsigned char)c) p++; return (void *)p; }
LC(char *, strchrnul)(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
LC(char *, index)(const char *s, int c) { return strchr(s, c); }
LC(char *, rindex)(const char *s, int c) { return strrchr(s, c); }
LC(void *, memmem)(const void *h, size_t hn, const void *n, size_t nn) {
	if (nn == 0) return (void *)h;
	for (size_t i = 0; i + nn <= hn; i++) if (memcmp((const char *)h + i, n, nn) == 0) return (char *)h + i;
	return NULL;
}
static int in(const char *set, char c) { for (; *set; set++) if (*set == c) return 1; return 0; }
LC(size_t, strspn)(const char *s, const char *a) { size_t i = 0; while (s[i] && in(a, s[i])) i++; return i; }
LC(size_t, strcspn)(const char *s, const char *a) { size_t i = 0; while (s[i] && !in(a, s[i])) i++; return i; }
LC(char *, strpbrk)(const char *s, const char *a) { while (*s && !in(a, *s)) s++; return *s ? (char *)s : NULL; }
LC(char *, strsep)(char **sp, const char *d) {
	char *s = *sp, *p;
	if (s == NULL) return NULL;
	for (p = s; *p && !in(d, *p); p++) ;
	if (*p) { *p = 0; *sp = p + 1; } else *sp = NULL;
	return s;
}
LC(char *, strtok_r)(char *s, const char *d, char **save) {
	if (s == NULL) s = *save;
	while (*s && in(d, *s)) s++;
	if (*s == 0) { *save = s; return NULL; }
	char *r = s;
	while (*s && !in(d, *s)) s++;
	if (*s) *s++ = 0;
	*save = s;
	return r;
}
static char *tok;
LC(char *, strtok)(char *s, const char *d) { return lc_strtok_r(s, d, &tok); }
LC(char *, strndup)(const char *s, size_t n) {
	size_t k = lc_strnlen(s, n);
	char *r = malloc(k + 1);
	if (r == NULL) return NULL;
	memcpy(r, s, k);
	r[k] = 0;
	return r;
}
LC(void *, reallocarray)(void *p, size_t n, size_t m) { return m != 0 && n > SIZE_MAX / m ? NULL : realloc(p, n * m); }
LC(void, qsort)(void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	char *a = b;
	for (size_t i = 1; i < n; i++)
		for (size_t j = i; j > 0 && cmp(a + (j - 1) * sz, a + j * sz) > 0; j--)
			for (size_t k = 0; k < sz; k++) { char t = a[(j - 1) * sz + k]; a[(j - 1) * sz + k] = a[j * sz + k]; a[j * sz + k] = t; }
}
LC(void *, bsearch)(const void *key, const void *b, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
	const char *a = b;
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t mid = lo + (hi - lo) / 2;
		int c = cmp(key, a + mid * sz);
		if (c == 0) return (void *)(a + mid * sz);
		if (c < 0) hi = mid; else lo = mid + 1;
	}
	return NULL;
}
LC(int, isdigit)(int c) { return c >= '0' && c <= '9'; }
LC(int, isxdigit)(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
LC(int, islower)(int c) { return c >= 'a' && c <= 'z'; }
LC(int, isupper)(int c) { return c >= 'A' && c <= 'Z'; }
LC(int, isalpha)(int c) { return lc_islower(c) || lc_isupper(c); }
LC(int, isalnum)(int c) { return lc_isalpha(c) || lc_isdigit(c); }
LC(int, isspace)(int c) { return c == ' ' || (c >= 9 && c <= 13); }
LC(int, isblank)(int c) { return c == ' ' || c == '\t'; }
LC(int, isprint)(int c) { return c >= 32 && c < 127; }
LC(int, isgraph)(int c) { return c > 32 && c < 127; }
LC(int, ispunct)(int c) { return lc_isgraph(c) && !lc_isalnum(c); }
LC(int, iscntrl)(int c) { return (c >= 0 && c < 32) || c == 127; }
LC(unsigned long long, strtoull)(const char *s, char **e, int base) {
	const char *p = s, *b;
	unsigned long long v = 0;
	int neg = 0, over = 0;
	while (lc_isspace((unsigned char)*p)) p++;
	if (*p == '+' || *p == '-') neg = *p++ == '-';
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && lc_isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
	if (base == 0) base = *p == '0' ? 8 : 10;
	for (b = p;; p++) {
		int d = *p >= '0' && *p <= '9' ? *p - '0' : *p >= 'a' && *p <= 'z' ? *p - 'a' + 10 : *p >= 'A' && *p <= 'Z' ? *p - 'A' + 10 : 99;
		if (d >= base) break;
		if (v > (~0ULL - d) / base) over = 1;
		v = v * base + d;
	}
	if (e) *e = (char *)(p == b ? s : p);
	return over ? ~0ULL : neg ? -v : v;
}
LC(unsigned long, strtoul)(const char *s, char **e, int base) { return lc_strtoull(s, e, base); }
LC(long, strtol)(const char *s, char **e, int base) { return (long)lc_strtoull(s, e, base); }
LC(long long, strtoll)(const char *s, char **e, int base) { return (long long)lc_strtoull(s, e, base); }
LC(int, atoi)(const char *s) { return (int)lc_strtoull(s, NULL, 10); }
LC(long, atol)(const char *s) { return (long)lc_strtoull(s, NULL, 10); }
LC(int, abs)(int v) { return v < 0 ? -v : v; }
LC(long, labs)(long v) { return v < 0 ? -v : v; }
LC(char *, strerror)(int e) { (void)e; return "error"; }
LC(uint16_t, ntohs)(uint16_t v) { return __builtin_bswap16(v); }
LC(uint16_t, htons)(uint16_t v) { return __builtin_bswap16(v); }
LC(uint32_t, ntohl)(uint32_t v) { return __builtin_bswap32(v); }
LC(uint32_t, htonl)(uint32_t v) { return __builtin_bswap32(v); }

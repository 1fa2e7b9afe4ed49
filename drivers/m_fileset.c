/* sets of files: what is loaded, kept and unloaded as the set file changes */
#include "abs.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <libgen.h>
#include "libmy/my_fileset.h"
/* the file system: a set file and up to three files beside it */
static const char *content;
static int set_gone, set_unreadable, exists[3];
static ino_t ino = 1; static time_t mtime_ = 1;
static const char *NAME[3] = { "/d/a", "/d/b", "/d/c" };
/* and, for large sets, many more */
#define BIG 150
static char big[BIG][64]; static int nbig, big_exists[BIG], big_loaded[BIG], big_total;
static int which_big(const char *p) { for (int i = 0; i < nbig; i++) if (strcmp(p, big[i]) == 0) return i; return -1; }
static int which(const char *p) { for (int i = 0; i < 3; i++) if (strcmp(p, NAME[i]) == 0) return i; return -1; }
int stat(const char *p, struct stat *s) {
	if (strcmp(p, "/d/set") == 0) {
		if (set_gone) return -1;
		s->st_ino = ino; s->st_mtime = mtime_;
		return 0;
	}
	if (nbig) { int j = which_big(p); if (j < 0 || !big_exists[j]) return -1; s->st_ino = 100 + j; s->st_mtime = 5; return 0; }
	int i = which(p);
	abs_check(i >= 0, "the files named are looked for beside the set file");
	if (i < 0 || !exists[i]) return -1;
	s->st_ino = 10 + i; s->st_mtime = 5;
	return 0;
}
static const char *at;
static int alike;	/* a set file says a, b and c for the names */
static int open_;
static char fobj;
FILE *fopen(const char *p, const char *m) {
	abs_check(strcmp(p, "/d/set") == 0, "the set file is read");
	if (set_gone || set_unreadable) return NULL;
	open_++; at = content;
	return (FILE *)&fobj;
}
int fclose(FILE *f) { open_--; return 0; }
ssize_t getline(char **l, size_t *n, FILE *f) {
	size_t k = 0;
	abs_check(open_ == 1, "an open file is read");
	if (*at == 0) return -1;
	if (*l == NULL) { *l = malloc(700); *n = 700; }
	do {
		if (alike && *at >= 'a' && *at <= 'c') for (const char *q = NAME[*at - 'a'] + 3; *q; q++) (*l)[k++] = *q;
		else (*l)[k++] = *at;
	} while (*at++ != '\n' && *at);
	(*l)[k] = 0;
	return k;
}
char *dirname(char *p) { char *s = strrchr(p, '/'); *s = 0; return p; }
char *__xpg_dirname(char *p) { return dirname(p); }
char *strerror(int e) { return "error"; }
int *__errno_location(void) { static int e; return &e; }
static int errs; static char err_f;
#undef stderr
FILE *stderr = (FILE *)&err_f;
int fprintf(FILE *f, const char *fmt, ...) { errs++; return 1; }
typedef int (*cmpf)(const void *, const void *);
void qsort(void *b, size_t n, size_t w, cmpf c) {
	void **a = b;
	abs_check(w == sizeof(void *), "an array of pointers is sorted");
	for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(&a[j - 1], &a[j]) > 0; j--) { void *t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
void *bsearch(const void *k, const void *b, size_t n, size_t w, cmpf c) {
	void *const *a = b;
	size_t lo = 0, hi = n;
	while (lo < hi) {
		size_t m = lo + (hi - lo) / 2;
		int r = c(k, &a[m]);
		if (r == 0) return (void *)&a[m];
		if (r < 0) hi = m; else lo = m + 1;
	}
	return NULL;
}
/* the user */
static struct my_fileset *the;
static char user;
struct obj { int file, live; };
static struct obj objs[16];
static int nobj, loaded[3];
static void *load(struct my_fileset *fs, const char *f) {
	int i = which(f);
	abs_check(my_fileset_user(fs) == &user, "the user's data is at hand while loading");
	abs_check(i >= 0 && exists[i], "a file which exists is loaded");
	abs_check(loaded[i] == 0, "a file is loaded once");
	loaded[i]++;
	objs[nobj].file = i; objs[nobj].live = 1;
	return &objs[nobj++];
}
static void unload(struct my_fileset *fs, const char *f, void *p) {
	struct obj *o = p;
	int i = which(f);
	abs_check(o != NULL && o->live && o->file == i, "what is unloaded was loaded under that name, and not unloaded before");
	o->live = 0;
	loaded[i]--;
}
static int want[3];
static void named(void) {	/* the files the set file names and which exist */
	for (int i = 0; i < 3; i++) want[i] = 0;
	for (const char *p = content; *p; p++) if (*p >= 'a' && *p <= 'c' && exists[*p - 'a']) want[*p - 'a'] = 1;
}
static void look(void) {
	int n = 0;
	for (int i = 0; i < 3; i++) {
		const char *f = NULL; void *p = NULL;
		abs_check(loaded[i] == want[i], "exactly the files of the set are loaded");
		if (!want[i]) continue;
		abs_check(my_fileset_get(the, n, &f, &p), "every file of the set can be had");
		abs_check(strcmp(f, NAME[i]) == 0, "the files of the set are in order of their names");
		abs_check(((struct obj *)p)->file == i && ((struct obj *)p)->live, "what was loaded for a file stays with it");
		n++;
	}
	const char *f; void *p;
	abs_check(!my_fileset_get(the, n, &f, &p), "there is nothing beyond the files of the set");
}
static const char *const SETS[] = { "a\nb\n", "b\na", "", "c\n", "a\na\n", "c\na\nb\n", "b\nb\na\nb\n" };
static void change(int sets) {
	content = SETS[abs_pick("set", sets)];
	int how = abs_pick("how it is seen", 3);
	if (how == 0) ino++; else if (how == 1) mtime_++; else mtime_--;
}
static int unreadable;
static void history(int n, int sets, int exist) {
	for (int i = 0; i < 3; i++) exists[i] = 1;
	the = my_fileset_init("/d/set", load, unload, &user);
	content = "";
	named();
	look();
	for (int k = 0; k < n; k++) {
		if (exist) for (int i = 0; i < 2; i++) exists[i] = abs_pick("the file exists", 2);
		int what = k == 0 ? 0 : abs_pick("what happened", 3);
		if (what == 0) { change(sets); named(); }
		else if (what == 1) { content = "c\n"; }		/* unseen */
		else set_gone = 1;
		if (what == 0 && unreadable && abs_pick("the set file can be read", 2) == 0) {
			set_unreadable = 1;
			my_fileset_reload(the);	/* nothing changes, but the next attempt finds the new set */
			set_unreadable = 0;
			abs_reach("unreadable");
		}
		my_fileset_reload(the);
		set_gone = 0;
		abs_check(open_ == 0, "the set file is closed");
		look();
	}
	my_fileset_destroy(&the);
	abs_check(the == NULL, "a set which was destroyed is gone");
	for (int i = 0; i < 3; i++) abs_check(loaded[i] == 0, "everything loaded is unloaded in the end");
	abs_noleak();
	abs_reach("reloaded");
}
void drv_one(void) { history(1, 7, 1); }
void drv_two(void) { history(2, 7, 0); }
void drv_two_exist(void) { history(2, 2, 1); }
void drv_three(void) { history(3, 3, 0); }
/* names which begin alike, or differ in case only */
void drv_alike(void) {
	static const char *const N[4][3] = { { "/d/a", "/d/ab", "/d/abc" }, { "/d/A", "/d/a", "/d/a.x" }, { "/d/x1", "/d/x10", "/d/x2" }, { "/d/yx", "/d/yy", "/d/zx" } };
	int k = abs_pick("names", 4);
	for (int i = 0; i < 3; i++) NAME[i] = N[k][i];
	alike = 1;
	history(2, 7, 0);
	abs_reach("alike");
}
void drv_unreadable(void) { unreadable = 1; history(2, 2, 0); }
/* names of any length, and whatever they begin with, are those of files beside the set file */
void drv_names(void) {
	static char longname[640], set[700];
	static const char *const N[] = { "x y", "-", "/n", "~", "a/b" };
	int n = 250 + abs_pick("length", 14), big = abs_pick("very long", 2) ? 600 : n, k = abs_pick("other name", 5);
	memcpy(longname, "/d/", 3); memset(longname + 3, 'n', big);
	static char other[16];
	memcpy(other, "/d/", 3); strcpy(other + 3, N[k]);
	memcpy(set, longname + 3, big); set[big] = '\n'; strcpy(set + big + 1, N[k]); 
	for (int i = 0; i < 2; i++) exists[i] = 1;
	int first = strcmp(other, longname) < 0;
	NAME[!first] = other; NAME[first] = longname;
	the = my_fileset_init("/d/set", load, unload, &user);
	content = set;
	want[0] = want[1] = 1;
	my_fileset_reload(the);
	look();
	my_fileset_destroy(&the);
	abs_noleak();
	abs_reach("long name");
}
/* sets of more than a hundred files with names that are alike for long */
static int tags[BIG];
static void *big_load(struct my_fileset *fs, const char *f) {
	int i = which_big(f);
	abs_check(i >= 0 && big_exists[i] && !big_loaded[i], "a file of a large set which exists is loaded once");
	big_loaded[i] = 1; big_total++;
	tags[i] = i;
	return &tags[i];
}
static void big_unload(struct my_fileset *fs, const char *f, void *p) {
	int i = which_big(f);
	abs_check(i >= 0 && big_loaded[i] && p == &tags[i], "what is unloaded from a large set was loaded under that name");
	big_loaded[i] = 0; big_total--;
}
static char bigset[BIG * 64 + 1];
static void list(int from, int to, int step, int absent) {
	size_t k = 0;
	for (int n = 0; n < BIG; n++) {
		int i = (n * step) % BIG;	/* listed in some other order */
		big_exists[i] = i >= from && i < to && (absent == 0 || i % absent != 0);
		if (i < from || i >= to) continue;
		size_t l = strlen(big[i]);
		memcpy(bigset + k, big[i] + 3, l - 3); k += l - 3;
		bigset[k++] = '\n';
	}
	bigset[k] = 0;
	content = bigset;
	mtime_++;
	my_fileset_reload(the);
	int n = 0;
	for (int i = 0; i < BIG; i++) {
		const char *f = NULL; void *p = NULL;
		abs_check(big_loaded[i] == big_exists[i], "exactly the files of a large set are loaded");
		if (!big_exists[i]) continue;
		abs_check(my_fileset_get(the, n, &f, &p) && strcmp(f, big[i]) == 0 && p == &tags[i], "the files of a large set are in order, each with what was loaded for it");
		n++;
	}
	const char *f; void *p;
	abs_check(!my_fileset_get(the, n, &f, &p), "there is nothing beyond the files of a large set");
	abs_check(big_total == n, "exactly the files of a large set are loaded");
}
void drv_large(void) {
	nbig = BIG;
	for (int i = 0; i < BIG; i++) {
		memcpy(big[i], "/d/", 3);
		memset(big[i] + 3, 'd', 45);
		big[i][48] = '0' + i / 100; big[i][49] = '0' + i / 10 % 10; big[i][50] = '0' + i % 10; big[i][51] = 0;
	}
	the = my_fileset_init("/d/set", big_load, big_unload, &user);
	list(0, 140, 7, 0);
	list(20, BIG, 1, 9);
	list(0, 100, 149, 4);
	list(120, 121, 1, 0);
	my_fileset_destroy(&the);
	abs_check(big_total == 0, "everything loaded from a large set is unloaded in the end");
	abs_noleak();
	abs_reach("large set");
}
/* without callbacks there is nothing to load, but the names are there */
void drv_plain(void) {
	for (int i = 0; i < 3; i++) exists[i] = 1;
	struct my_fileset *fs = my_fileset_init("/d/set", NULL, NULL, NULL);
	content = SETS[0];
	my_fileset_reload(fs);
	const char *f = NULL; void *p = &user;
	abs_check(my_fileset_get(fs, 1, &f, &p) && strcmp(f, "/d/b") == 0 && p == NULL, "a set without callbacks has its names");
	my_fileset_destroy(&fs);
	abs_noleak();
	abs_reach("plain");
}

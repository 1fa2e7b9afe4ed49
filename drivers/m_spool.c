/* the spool directory: which files are handed out, where they go, who holds the lock */
#include "abs.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/spooldir.h"
enum { REG, DIRECTORY, GONE, KINDS };
#define N 4
static const char *NAME[N] = { ".", ".part", "f", "g" };
static int kind[N], incoming[N], active[N], moved[N], listed[N];
static int have_active, have_incoming, opened, closed, pos, locked, lockinit, renames_fail, slept, last_err;
static struct dirent ent;
static int find(const char *p, const char *dir) {
	size_t n = strlen(dir);
	if (strncmp(p, dir, n) != 0) return -1;
	for (int i = 0; i < N; i++) if (strcmp(p + n, NAME[i]) == 0) return i;
	return -1;
}
static int err_ = 0;
int *__errno_location(void) { return &err_; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void)m; (void)a; lockinit++; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; lockinit--; abs_check(!locked, "a lock which is held is not destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { (void)m; abs_check(lockinit && !locked, "the lock is not taken twice"); locked = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { (void)m; abs_check(locked, "only a lock which is held is released"); locked = 0; return 0; }
int usleep(useconds_t u) { (void)u; slept++; return 0; }
void perror(const char *s) { (void)s; }
char *realpath(const char *p, char *r) { abs_check(strcmp(p, "spool") == 0 && r == NULL, "the given directory is used"); return strdup("/var/spool"); }
int stat(const char *p, struct stat *s) {
	int i;
	memset(s, 0, sizeof(*s));
	s->st_mode = S_IFDIR | 0755;
	if (strcmp(p, "/var/spool") == 0) return 0;
	if (strcmp(p, "/var/spool/active") == 0) return have_active ? 0 : -1;
	if (strcmp(p, "/var/spool/incoming") == 0) return have_incoming ? 0 : -1;
	s->st_mode = S_IFREG | 0644;
	if ((i = find(p, "/var/spool/active/")) >= 0) return active[i] ? 0 : -1;
	if ((i = find(p, "/var/spool/incoming/")) >= 0) return incoming[i] && kind[i] != GONE ? 0 : -1;
	return -1;
}
int mkdir(const char *p, mode_t m) {
	abs_check((m & 0700) == 0700, "a directory which is made can be used");
	if (strcmp(p, "/var/spool/active") == 0) have_active++;
	else if (strcmp(p, "/var/spool/incoming") == 0) have_incoming++;
	else abs_check(0, "only the two directories of the spool are made");
	return 0;
}
static char dobj;
DIR *opendir(const char *p) { abs_check(strcmp(p, "/var/spool/incoming") == 0, "the incoming files are read"); opened++; return (DIR *)&dobj; }
int dirfd(DIR *d) { (void)d; return 9; }
int closedir(DIR *d) { abs_check(d == (DIR *)&dobj, "the directory is closed"); closed++; return 0; }
struct dirent *readdir(DIR *d) {
	abs_check(d == (DIR *)&dobj && locked, "the directory is read with the lock held");
	while (pos < N && !listed[pos]) pos++;
	if (pos >= N) return NULL;
	strcpy(ent.d_name, NAME[pos++]);
	return &ent;
}
void rewinddir(DIR *d) {
	abs_check(d == (DIR *)&dobj && locked, "the directory is read with the lock held");
	pos = 0;
	for (int i = 0; i < N; i++) listed[i] = incoming[i];
}
int fstatat(int fd, const char *p, struct stat *s, int fl) {
	(void)fl;
	int i = find(p, "");
	abs_check(fd == 9 && i >= 0, "the files looked at are in the directory of incoming files");
	memset(s, 0, sizeof(*s));
	if (i < 0 || !incoming[i] || kind[i] == GONE) { err_ = ENOENT; return -1; }
	s->st_mode = kind[i] == REG ? S_IFREG | 0644 : S_IFDIR | 0755;
	return 0;
}
int unlink(const char *p) {
	int i = find(p, "/var/spool/active/");
	abs_check(i >= 0 && active[i] && locked, "nothing is removed but what the incoming file replaces");
	if (i >= 0) active[i] = 0;
	return 0;
}
int rename(const char *from, const char *to) {
	int i = find(from, "/var/spool/incoming/"), k = find(to, "/var/spool/active/");
	abs_check(locked, "files are moved with the lock held");
	abs_check(i >= 0 && i == k, "a file keeps its name when it becomes active");
	if (i < 0) return -1;
	abs_check(incoming[i], "only incoming files are moved");
	if (renames_fail && abs_pick("rename fails", 2)) { err_ = EACCES; last_err = 1; return -1; }
	incoming[i] = 0; active[i] = 1; moved[i]++;
	return 0;
}
static struct spooldir *the;
static void setup(void) {
	have_active = abs_pick("active directory exists", 2);
	have_incoming = abs_pick("incoming directory exists", 2);
	the = spooldir_init("spool");
	abs_check(have_active == 1 && have_incoming == 1, "both directories of the spool are there");
	abs_check(opened == 1 && !locked, "the spool is ready");
}
static void put(int i, int k) { incoming[i] = 1; kind[i] = k; }
static int candidates(void) { int n = 0; for (int i = 0; i < N; i++) n += listed[i] && incoming[i] && kind[i] == REG && NAME[i][0] != '.' && i >= pos; return n; }
static void next(void) {
	int n = candidates(), before[N], act[N];
	for (int i = 0; i < N; i++) { before[i] = moved[i]; act[i] = active[i]; }
	last_err = 0;
	char *f = spooldir_next(the);
	abs_check(!locked, "the lock is released");
	int i, did = -1;
	for (i = 0; i < N; i++) if (moved[i] != before[i]) { abs_check(did < 0, "one file is taken at a time"); did = i; }
	if (f == NULL) {
		abs_check(did < 0, "no file is taken without being handed out");
		abs_check(n == 0 || last_err, "a file which is there is handed out");
		for (i = 0; i < N; i++) abs_check(last_err || active[i] == act[i], "active files are left alone");
		if (n == 0) abs_check(pos == 0, "the directory is read from its start next time");
		abs_reach(last_err ? "not moved" : "nothing there");
		return;
	}
	abs_check(n > 0, "only regular files whose name does not start with a dot are handed out");
	i = find(f, "/var/spool/active/");
	abs_check(i >= 0 && i == did && active[i], "the name handed out is that of the file taken, where it is now");
	abs_check(i >= 0 && kind[i] == REG && NAME[i][0] != '.', "the file handed out is a file meant for it");
	free(f);
	abs_reach("handed out");
}
static void finish(void) {
	spooldir_destroy(&the);
	abs_check(the == NULL && closed == 1 && lockinit == 0, "a spool which is destroyed holds nothing");
	spooldir_destroy(&the);
	abs_noleak();
}
static void files(void) {
	put(0, DIRECTORY);
	if (abs_pick("hidden file", 2)) put(1, REG);
	for (int i = 2; i < N; i++) { int k = abs_pick("file", KINDS + 1); if (k) put(i, k - 1); }
	for (int i = 2; i < 3; i++) active[i] = abs_pick("already active", 2);
}
void drv_init(void) { setup(); finish(); abs_reach("made"); }
void drv_files(void) {
	have_active = have_incoming = 1;
	the = spooldir_init("spool");
	files();
	for (int i = 0; i < N; i++) listed[i] = incoming[i];
	next(); next(); next();
	finish();
}
/* files arriving while the directory is read are found later */
void drv_late(void) {
	have_active = have_incoming = 1;
	the = spooldir_init("spool");
	put(0, DIRECTORY);
	for (int k = 0; k < 4; k++) {
		int i = abs_pick("file arrives", 3);
		if (i) put(1 + i, REG);
		next();
	}
	finish();
}
/* whatever a name begins with, it is that of a file, unless it is a dot */
static char anyname[3];
void drv_anyname(void) {
	have_active = have_incoming = 1;
	int c = abs_pick("first character", 255) + 1;
	if (c == '/') return;
	anyname[0] = c; anyname[1] = "~t#"[abs_pick("second character", 3)]; NAME[2] = anyname;
	the = spooldir_init("spool");
	put(0, DIRECTORY); put(2, REG); put(3, REG);
	for (int i = 0; i < N; i++) listed[i] = incoming[i];
	next(); next(); next();
	finish();
}
void drv_fail(void) {
	have_active = have_incoming = 1;
	the = spooldir_init("spool");
	renames_fail = 1;
	files();
	for (int i = 0; i < N; i++) listed[i] = incoming[i];
	next(); next(); next(); next(); next();
	finish();
}

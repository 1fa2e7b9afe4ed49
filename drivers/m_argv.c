/* libmy/argv: command lines against an interpreter written from its documentation */
#include "cli.h"
#include "libmy/argv.h"
extern const char *argv_type_info(const unsigned int type, unsigned int *size_p, const char **desc_p);
static int may_exit;
static const char *const *expect;	/* what is printed, in this order */
void exit(int c) {
	abs_check(may_exit, "the parser ends the program only when it may");
	abs_check(may_exit == 2 ? c == 0 : c != 0, "an error is reported in the exit status, and a request for help is not");
	abs_check(Err.n > 0, "it says why");
	size_t at = 0;
	for (; expect && *expect; expect++) {
		size_t l = strlen(*expect);
		while (at + l <= Err.n && memcmp(Err.b + at, *expect, l) != 0) at++;
		abs_check(at + l <= Err.n, "each option is listed, with its value where values are asked for");
		at += l;
	}
	abs_reach(may_exit == 2 ? "help" : "error exit");
	abs_stop();
	for (;;) ;
}
int atoi(const char *s) { long v = 0; int n = 0; while (*s == ' ') s++; if (*s == '-' || *s == '+') n = *s++ == '-'; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); return (int)(n ? -v : v); }
long atol(const char *s) { unsigned long v = 0; int n = 0; while (*s == ' ') s++; if (*s == '-' || *s == '+') n = *s++ == '-'; while (*s >= '0' && *s <= '9') v = v * 10 + (unsigned long)(*s++ - '0'); return (long)(n ? -v : v); }
/* argument files */
static const char *const *lines;
static int n_lines, at_line, open_files, no_file;
static char file_, in_;
#undef stdin
FILE *stdin = (FILE *)&in_;
FILE *fopen(const char *p, const char *m) {
	abs_check(m[0] == 'r', "a file is opened for reading");
	if (no_file || strcmp(p, "args")) return NULL;
	abs_check(open_files == 0, "a file is read once at a time");
	open_files++; at_line = 0;
	return (FILE *)&file_;
}
char *fgets(char *b, int n, FILE *f) {
	if (f == stdin) return NULL;
	abs_check((void *)f == &file_ && open_files == 1, "an open file is read");
	if (at_line == n_lines) return NULL;
	const char *l = lines[at_line++];
	size_t k = strlen(l);
	abs_check((int)k + 2 <= n, "a line fits its buffer");
	memcpy(b, l, k); b[k] = '\n'; b[k + 1] = 0;
	return b;
}
int fclose(FILE *f) { abs_check((void *)f == &file_ && open_files == 1, "an open file is closed"); open_files--; return 0; }
/* the options */
enum { A, N, V, S, I, K, X, XY, Y, P, PQ, Q, M, Z, B, F, R, END };
struct value { char a, n, x, y, p, q, m, z, b; int v, i, nk; long k[32]; const char *s, *f; int nr; const char *r[32]; };
static char va, vn = 1, vx, vy, vp, vq, vm, vz, vb;
static int vv, vi = 11;
static char *vs, *vf;
static argv_array_t vk, vr;
static argv_t T[] = {
	{ 'a', "alpha", ARGV_BOOL, &va, NULL, "a flag" },
	{ 'n', "negate", ARGV_BOOL_NEG, &vn, NULL, "a flag which clears" },
	{ 'v', "verbose", ARGV_INCR, (void *)&vv, NULL, "a counter" },
	{ 's', "string", ARGV_CHAR_P, (void *)&vs, "text", "a string" },
	{ 'i', "int", ARGV_INT, (void *)&vi, "number", "a number" },
	{ 'k', "keep", ARGV_INT | ARGV_FLAG_ARRAY, (void *)&vk, "number", "many numbers" },
	{ 'x', "xray", ARGV_BOOL, &vx, NULL, "not with the next" },
	{ ARGV_OR },
	{ 'y', "yankee", ARGV_BOOL, &vy, NULL, "not with the last" },
	{ 'p', "papa", ARGV_BOOL, &vp, NULL, "this" },
	{ ARGV_ONE_OF },
	{ 'q', NULL, ARGV_BOOL, &vq, NULL, "or this" },
	{ 'm', "must", ARGV_CHAR | ARGV_FLAG_MAND, &vm, "letter", "always" },
	{ '\0', "zulu-long", ARGV_BOOL_ARG, &vz, "yes|no", "a flag with a value" },
	{ '\0', "zulu-bool", ARGV_BOOL, &vb, NULL, "another with the same beginning" },
	{ ARGV_MAND, NULL, ARGV_CHAR_P, (void *)&vf, "file", "a file" },
	{ ARGV_MAYBE, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, (void *)&vr, "more", "more files" },
	{ ARGV_LAST }
};
/* ---- what the documentation says it means */
static struct value w;
static int used[END], bad, strings;
static int queue[64], head, tail;
static int yes(const char *s) { return *s == 't' || *s == 'T' || *s == 'y' || *s == 'Y' || *s == '1'; }
static void give(int o, const char *s) {
	switch (o) {
	case A: w.a = s ? yes(s) : 1; break;
	case N: w.n = s ? yes(s) : 0; break;
	case V: w.v = s ? atoi(s) : w.v + 1; break;
	case S: w.s = s; strings++; break;
	case I: w.i = atoi(s); break;
	case K: w.k[w.nk++] = atoi(s); break;
	case X: w.x = s ? yes(s) : 1; break;
	case Y: w.y = s ? yes(s) : 1; break;
	case P: w.p = s ? yes(s) : 1; break;
	case Q: w.q = s ? yes(s) : 1; break;
	case M: w.m = *s; break;
	case Z: w.z = yes(s); break;
	case B: w.b = s ? yes(s) : 1; break;
	case F: w.f = s; break;
	case R: w.r[w.nr++] = s; break;
	}
}
static int takes(int o) { return o == S || o == I || o == K || o == M || o == Z; }
static void option(int o, const char *close) {
	used[o] = 1;
	if ((o == X && used[Y]) || (o == Y && used[X]) || (o == P && used[Q]) || (o == Q && used[P])) bad = 1;
	if (close || !takes(o)) give(o, close);
	else queue[head++] = o;
}
static void means(char *const *t, int n, int depth);
static void include(const char *f) {
	static char *l[40];
	int n = 0;
	if (strcmp(f, "-") == 0) return;	/* nothing comes from there */
	if (strcmp(f, "args")) { bad = 1; return; }
	for (int j = 0; j < n_lines; j++) if (lines[j][0]) l[n++] = (char *)lines[j];
	means(l, n, 1);
}
static void means(char *const *t, int n, int depth) {
	int last = 0;
	for (int j = 0; j < n; j++) {
		char *s = t[j];
		if (!last && strcmp(s, "--") == 0) { last = 1; continue; }
		if (!last && s[0] == '-' && s[1] == '-') {
			const char *e = strchr(s, '=');
			size_t l = e ? (size_t)(e - s) - 2 : strlen(s) - 2;
			int hit = -1, hits = 0;
			if (l == 0) { bad = 1; continue; }
			for (int o = 0; o < END; o++) if (T[o].ar_long_arg && strncmp(T[o].ar_long_arg, s + 2, l) == 0) { hit = o; hits++; }
			if (hits == 1) option(hit, e ? e + 1 : NULL);
			else if (hits == 0 && l <= 9 && strncmp("argv-file", s + 2, l) == 0) { if (e) include(e + 1); else queue[head++] = -1; }
			else bad = 1;
			continue;
		}
		if (!last && s[0] == '-' && s[1]) {
			const char *e = strchr(s, '=');
			size_t l = e ? (size_t)(e - s) : strlen(s);
			if (l == 1) bad = 1;
			for (size_t c = 1; c < l; c++) {
				int o;
				for (o = 0; o < END; o++) if (T[o].ar_short_arg == s[c] && s[c] > 0) break;
				if (o < END) { option(o, e ? e + 1 : NULL); continue; }
				int num = 1;
				for (size_t d = 0; d < l; d++) if (strchr("0123456789+-.", s[d]) == NULL) num = 0;
				if (c == 1 && num && head > tail && queue[tail] >= 0 && (T[queue[tail]].ar_type & ARGV_FLAG_ARRAY || queue[tail] == I)) { give(queue[tail++], s); break; }
				bad = 1;
			}
			continue;
		}
		if (head > tail) {
			int o = queue[tail++];
			if (o < 0) include(s);
			else give(o, s);
			continue;
		}
		if (!used[F]) { used[F] = 1; give(F, s); }
		else { used[R] = 1; give(R, s); }
	}
}
/* ---- running both */
static char words[64][24];
static char *av[64];
static int ac;
static void arg(const char *s) { memcpy(words[ac], s, strlen(s) + 1); av[ac] = words[ac]; ac++; }
static size_t noise;
static char ewords[8][24];
static char *ev[8];
static int en;
static void outcome(int r) {
	int late = argv_env_after_b;
	w.n = 1; w.i = 11;
	/* the words were given to the parser; the interpreter reads copies */
	if (!late && argv_process_env_b) means(ev, en, 0);
	extern char *copies[];
	means(copies, ac - 1, 0);
	if (late && argv_process_env_b) means(ev, en, 0);
	if (!used[F] || !used[M] || (!used[P] && !used[Q]) || head > tail) bad = 1;
	abs_check(r == (bad ? -1 : 0), "a command line is accepted exactly when it makes sense");
	abs_check(!bad || Err.n > noise, "it says what is wrong");
	abs_check(bad || Err.n == noise, "it says nothing about a command line which makes sense");
	abs_check(open_files == 0, "argument files are closed");
	if (bad) { abs_reach("refused"); abs_stop(); }
	abs_check(va == w.a && vn == w.n && vv == w.v && vi == w.i, "flags, counters and numbers are as the command line has them");
	abs_check(vx == w.x && vy == w.y && vp == w.p && vq == w.q && vm == w.m && vz == w.z && vb == w.b, "the other flags are as the command line has them");
	abs_check((vs == NULL) == (w.s == NULL) && (!w.s || strcmp(vs, w.s) == 0), "a string is the one given");
	abs_check(vf && strcmp(vf, w.f) == 0, "the mandatory argument is the first word which is no option");
	abs_check(vk.aa_entry_n == w.nk && vr.aa_entry_n == w.nr, "an array has one element for each time it was given");
	for (int j = 0; j < w.nk; j++) abs_check(ARGV_ARRAY_ENTRY(vk, int, j) == w.k[j], "an array has its numbers in order");
	for (int j = 0; j < w.nr; j++) abs_check(strcmp(ARGV_ARRAY_ENTRY(vr, char *, j), w.r[j]) == 0, "an array has its strings in order");
	for (int o = 0; o < END; o++) {
		if (o == XY || o == PQ) continue;
		abs_check(!argv_entry_was_used(&T[o]) == !used[o], "which options were used can be told");
		if (T[o].ar_short_arg > 0) abs_check(!argv_was_used(T, T[o].ar_short_arg) == !used[o], "by their letter too");
		if (T[o].ar_long_arg) {
			char name[16];
			memcpy(name, T[o].ar_long_arg, strlen(T[o].ar_long_arg) + 1);
			abs_check(!argv_long_was_used(T, name) == !used[o], "and by their name");
		}
	}
	abs_check(argv_was_used(T, '!') == 0 && argv_long_was_used(T, "none") == 0, "what is no option was not used");
	argv_cleanup(T);
	abs_check(vk.aa_entry_n == 0 && vr.aa_entry_n == 0, "arrays are empty after the cleanup");
	abs_reach("accepted");
	if (strings > 1 || env_name[0]) abs_stop();	/* a string given twice is allocated twice, and words of the environment stay */
	abs_noleak();
}
char *copies[48];
static char cwords[48][24];
static void run(void) {
	for (int j = 1; j < ac; j++) { memcpy(cwords[j - 1], words[j], 24); copies[j - 1] = cwords[j - 1]; }
	av[ac] = NULL;
	argv_interactive = 0;
	outcome(argv_process(T, ac, av));
}
static const char *const TOK[] = {
	"-a", "--alpha=no", "-av", "-n", "--neg=yes", "-vv", "--verb=7", "-v",
	"-s", "--string=t", "-s=", "text", "-i", "--int=-7", "-5", "-ik", "-k", "--keep=4", "33",
	"-x", "-y", "--xr", "--ya", "-p", "-q", "-qp", "-m", "--must=o", "--zulu-l", "--zulu-b", "--zulu", "--zulu-long=y",
	"--", "-", "--=", "-w", "--what", "-=", "--argv-file=args", "--argv-f", "-1.5x", "", "-kkkk",
};
#define NTOK (int)(sizeof(TOK) / sizeof(*TOK))
static const char *const LINES[] = { "-a", "", "-k", "21", "--zulu-b" };
static const char *const FEW[] = { "-s", "-i", "-k", "-5", "33", "--", "-vk", "-x", "-m", "--argv-f" };
#define NFEW (int)(sizeof(FEW) / sizeof(*FEW))
static void need(int which) {	/* what every command line must have */
	if (which != 1) arg("-p");
	if (which != 2) arg("-m=z");
}
static void pairs(int lo, int hi) {
	arg("/usr/bin/cmd");
	lines = LINES; n_lines = 5;
	need(0);
	arg(TOK[lo + abs_pick("first", hi - lo)]);
	arg(TOK[abs_pick("second", NTOK)]);
	arg("file");
	run();
}
#define PAIRS(n) void drv_pairs_##n(void) { pairs(3 * n, 3 * n + 3); }
PAIRS(0) PAIRS(1) PAIRS(2) PAIRS(3) PAIRS(4) PAIRS(5) PAIRS(6) PAIRS(7) PAIRS(8) PAIRS(9) PAIRS(10) PAIRS(11) PAIRS(12) PAIRS(13)
void drv_pairs_14(void) { pairs(NTOK - 1, NTOK); }
static void triples(int first) {
	arg("cmd");
	lines = LINES; n_lines = 5;
	need(0);
	arg(FEW[first]); arg(FEW[abs_pick("second", NFEW)]); arg(FEW[abs_pick("third", NFEW)]);
	arg("7");
	arg("file");
	run();
}
#define TRIPLES(n) void drv_triples_##n(void) { triples(n); }
TRIPLES(0) TRIPLES(1) TRIPLES(2) TRIPLES(3) TRIPLES(4) TRIPLES(5) TRIPLES(6) TRIPLES(7) TRIPLES(8) TRIPLES(9)
void drv_missing(void) {
	arg("cmd");
	need(abs_pick("missing", 3));
	if (abs_pick("words", 2)) arg("file");
	if (abs_pick("more words", 2)) { arg("one"); arg("two"); }
	run();
}
void drv_many(void) {	/* arrays grow */
	int n = abs_pick("elements", 27);
	static const char *const D[] = { "0", "1", "-2", "3", "4" };
	arg("cmd"); need(0); arg("file");
	int k = abs_pick("which array", 2);
	for (int j = 0; j < n; j++) { if (k) arg(j % 2 ? "--keep=5" : "-k=6"); else arg(D[j % 5][0] == '-' ? "word" : D[j % 5]); }
	run();
}
void drv_file_many(void) {	/* argument files hold more than the command line does */
	static const char *L[40];
	static const int N[] = { 0, 1, 9, 10, 11, 19, 20, 21, 26 };
	int n = N[abs_pick("lines", 9)], k = abs_pick("kind", 3);
	for (int j = 0; j < n; j++) L[j] = k == 0 ? "word" : k == 1 ? "-k=3" : j < n / 2 ? "-k" : "9";
	if (k == 2 && n % 2) L[n - 1] = "-a";
	lines = L; n_lines = n;
	arg("cmd"); need(0); arg("file");
	if (abs_pick("how", 2)) arg("--argv-file=args"); else { arg("--argv-file"); arg("args"); }
	run();
}
void drv_file_missing(void) { no_file = 1; arg("cmd"); need(0); arg("--argv-file=args"); arg("file"); av[ac] = NULL; argv_interactive = 0; abs_check(argv_process(T, ac, av) == -1 && Err.n > 0, "a missing argument file is an error"); abs_reach("refused"); abs_stop(); }
/* arguments from the environment */
static void environment(int with_global) {
	static const char *const E[] = { "", "  ", "-v", "-i 5", "-v=3\t--keep=2", " -k 8  more ", "-s", "-w" };
	static const char *const G[] = { "env=none", "env=before", "env=after", "multi=reject", "close=disable", "lasttog=yes", ",env=after multi=accept:", "nonsense" };
	static char es[24], gs[40];
	const char *e = E[abs_pick("ARGV_CMD", 8)];
	int g = with_global ? abs_pick("GLOBAL_ARGV", 8) : -1;
	int e_ok = 1;
	memcpy(es, e, strlen(e) + 1);
	env_name[0] = "ARGV_CMD"; env_val[0] = es;
	for (size_t b = 0; e[b];) {
		while (e[b] == ' ' || e[b] == '\t') b++;
		if (!e[b]) break;
		size_t l = 0;
		while (e[b] && e[b] != ' ' && e[b] != '\t') ewords[en][l++] = e[b++];
		ewords[en][l] = 0; ev[en] = ewords[en]; en++;
	}
	if (g >= 0) { memcpy(gs, G[g], strlen(G[g]) + 1); env_name[1] = "GLOBAL_ARGV"; env_val[1] = gs; }
	arg("/bin/cmd");
	arg("-p"); arg("-v"); arg("-i"); arg("6"); arg(g == 4 ? "-m" : "-m=z"); if (g == 4) arg("z");
	arg("file");
	if (g == 4 && strchr(e, '=')) return;	/* an option with a value attached, where there are none */
	if (g == 3) {	/* an option given twice */
		av[ac] = NULL;
		argv_interactive = 0;
		int r = argv_process(T, ac, av), v = 0, i = 0;
		for (int j = 0; j < en; j++) { v += ev[j][1] == 'v'; i += ev[j][1] == 'i'; }
		if (i) abs_check(r == -1, "an option given twice is refused if that was asked for");
		else if (e[0] == 0 || (e[1] != 's' && e[1] != 'w')) abs_check(r == 0, "counters and arrays may be given many times");
		abs_reach("accepted");
		abs_stop();
	}
	for (int j = 1; j < ac; j++) { memcpy(cwords[j - 1], words[j], 24); copies[j - 1] = cwords[j - 1]; }
	av[ac] = NULL;
	argv_interactive = 0;
	int r = argv_process(T, ac, av);
	abs_check(argv_env_after_b == (g == 2 || g == 6) && argv_process_env_b == (g != 0) && argv_close_enable_b == (g != 4) && argv_last_toggle_b == (g == 5), "the environment sets what it names");
	if (g == 7) { abs_check(Err.n > 0, "nonsense in the environment is reported"); for (noise = 0; Err.b[noise] != '\n'; noise++) ; noise++; }
	outcome(r);
}
void drv_environment(void) { environment(0); }
void drv_environment_global(void) { environment(1); }
/* help, and errors which end the program */
void drv_help(void) {
	static const char *const H[] = { "--usage", "--help", "-?", "--usage-short", "--usage-long", "--usage-all", "--version", "--argv-display" };
	int h = abs_pick("request", 8), more = abs_pick("options before it", 2);
	arg("cmd");
	if (more) { arg("-k=3"); arg("--keep=4"); arg("-m=\t"); arg("file"); }
	arg(H[h]);
	static const char *const LONG[] = { "cmd", "alpha", "negate", "verbose", "string", "int", "keep", "xray", "yankee", "papa", "-q", "must", "zulu-long", "zulu-bool", "file", "more", NULL };
	static const char *const SHORT[] = { "cmd", "-", "a", "n", "v", NULL };
	static const char *const VALUES[] = { "-a", "false", "-k", "3,4", "-m", "\\t", "zulu-long", "false", "file", "file", "more", "no entries", NULL };
	expect = h == 7 ? (more ? VALUES : NULL) : h == 3 ? SHORT : h == 6 ? NULL : LONG;
	may_exit = 2;
	av[ac] = NULL;
	argv_process(T, ac, av);
	abs_check(0, "a request for help ends the program");
}
void drv_error_exit(void) {
	arg("cmd");
	int k = abs_pick("error", 4);
	argv_error_type = abs_pick("how it is reported", 7);
	if (argv_error_type == ARGV_USAGE_DEFAULT) argv_error_type = 0;
	need(k == 0 ? 1 : k == 1 ? 2 : 0);
	if (k != 2) arg("file");
	if (k == 3) arg("-w");
	may_exit = 1;
	av[ac] = NULL;
	argv_process(T, ac, av);
	abs_check(0, "an error ends the program");
}
/* values of every type */
static long out[2];
static void value(unsigned type, const char *s, size_t size, long want) {
	argv_t t[2] = { { 'o', "option", type, (void *)&out, "v", "c" }, { ARGV_LAST } };
	static char eq[40] = "-o=";
	int how = type == ARGV_SIZE && *s == '-' ? 1 : abs_pick("attached", 2);
	char dash[] = "-o", text[36];
	memcpy(eq + 3, s, strlen(s) + 1);
	memcpy(text, s, strlen(s) + 1);
	out[0] = out[1] = 0x5a5a5a5a5a5a5a5aL;
	argv_interactive = 0;
	char *v[4] = { "cmd", how ? eq : dash, how ? NULL : text, NULL };
	abs_check(argv_process(t, how ? 2 : 3, v) == 0, "a value is accepted");
	for (size_t b = 0; b < sizeof(out); b++) {
		unsigned char got = ((unsigned char *)out)[b];
		abs_check(got == (b < size ? (unsigned char)((unsigned long)want >> (8 * b)) : 0x5a), "a value is stored as it was written, and nothing else");
	}
	abs_check(argv_was_used(t, 'o') == 1, "it was used");
	abs_reach("value");
}
struct sample { unsigned type; const char *s; size_t size; long v; };
static const struct sample SAMPLES[] = {
	{ ARGV_SHORT, "-32768", 2, -32768 }, { ARGV_SHORT, "32767", 2, 32767 }, { ARGV_U_SHORT, "65535", 2, 65535 }, { ARGV_U_SHORT, "0", 2, 0 },
	{ ARGV_INT, "-2147483648", 4, -2147483648L }, { ARGV_INT, "2147483647", 4, 2147483647 }, { ARGV_INT, "+12", 4, 12 },
	{ ARGV_U_INT, "7", 4, 7 }, { ARGV_LONG, "-9223372036854775807", 8, -9223372036854775807L }, { ARGV_LONG, "4294967296", 8, 4294967296L },
	{ ARGV_U_LONG, "9223372036854775807", 8, 9223372036854775807L },
	{ ARGV_BIN, "0", 4, 0 }, { ARGV_BIN, "101", 4, 5 }, { ARGV_BIN, "1111111111111111111111111111111", 4, 0x7fffffff }, { ARGV_BIN, "12", 4, 1 },
	{ ARGV_OCT, "0", 4, 0 }, { ARGV_OCT, "17", 4, 15 }, { ARGV_OCT, "01234567", 4, 01234567 }, { ARGV_OCT, "17777777777", 4, 0x7fffffff }, { ARGV_OCT, "78", 4, 7 },
	{ ARGV_HEX, "0", 4, 0 }, { ARGV_HEX, "0x1f", 4, 31 }, { ARGV_HEX, "0XaBcDeF", 4, 0xabcdef }, { ARGV_HEX, "18765432", 4, 0x18765432 }, { ARGV_HEX, "7fffffff", 4, 0x7fffffff }, { ARGV_HEX, "fg", 4, 15 },
	{ ARGV_SIZE, "3", 8, 3 }, { ARGV_SIZE, "3b", 8, 3 }, { ARGV_SIZE, "3k", 8, 3072 }, { ARGV_SIZE, "5K", 8, 5120 }, { ARGV_SIZE, "2m", 8, 2097152 }, { ARGV_SIZE, "2M", 8, 2097152 }, { ARGV_SIZE, "7g", 8, 7516192768L }, { ARGV_SIZE, "7G", 8, 7516192768L }, { ARGV_SIZE, "-12k", 8, -12288 },
	{ ARGV_U_SIZE, "3", 8, 3 }, { ARGV_U_SIZE, "3k", 8, 3072 }, { ARGV_U_SIZE, "4096K", 8, 4194304 }, { ARGV_U_SIZE, "9m", 8, 9437184 }, { ARGV_U_SIZE, "7g", 8, 7516192768L }, { ARGV_U_SIZE, "1B", 8, 1 },
	{ ARGV_BOOL_ARG, "true", 1, 1 }, { ARGV_BOOL_ARG, "Y", 1, 1 }, { ARGV_BOOL_ARG, "1", 1, 1 }, { ARGV_BOOL_ARG, "no", 1, 0 }, { ARGV_BOOL_ARG, "", 1, 0 }, { ARGV_BOOL_ARG, "0", 1, 0 },
	{ ARGV_BOOL_INT_ARG, "True", 4, 1 }, { ARGV_BOOL_INT_ARG, "yes", 4, 1 }, { ARGV_BOOL_INT_ARG, "false", 4, 0 },
	{ ARGV_CHAR, "q", 1, 'q' }, { ARGV_CHAR, "xyz", 1, 'x' }, { ARGV_CHAR, "", 1, 0 },
};
#define NSAMPLES (int)(sizeof(SAMPLES) / sizeof(*SAMPLES))
static void samples(int lo, int hi) { const struct sample *s = &SAMPLES[lo + abs_pick("sample", hi - lo)]; value(s->type, s->s, s->size, s->v); }
void drv_values_a(void) { samples(0, 20); }
void drv_values_b(void) { samples(20, NSAMPLES); }
void drv_values_switch(void) {
	static const struct { unsigned type; size_t size; long v; } W[] = { { ARGV_BOOL, 1, 1 }, { ARGV_BOOL_NEG, 1, 0 }, { ARGV_BOOL_INT, 4, 1 }, { ARGV_BOOL_INT_NEG, 4, 0 } };
	int k = abs_pick("type", 4), how = abs_pick("how", 11);
	static const char *const H[] = { "-o", "--option", "-o=yes", "-o=T", "--opt=true", "-o=Y", "-o=1", "--opt=0", "-o=no", "-o=False", "-o=" };
	argv_t t[2] = { { 'o', "option", W[k].type, (void *)&out, "v", "c" }, { ARGV_LAST } };
	arg("cmd"); arg(H[how]); av[ac] = NULL;
	out[0] = out[1] = 0x5a5a5a5a5a5a5a5aL;
	argv_interactive = 0;
	abs_check(argv_process(t, ac, av) == 0, "a switch is accepted");
	long want = how < 2 ? W[k].v : how < 7;
	for (size_t b = 0; b < sizeof(out); b++) abs_check(((unsigned char *)out)[b] == (b < W[k].size ? (unsigned char)(want >> (8 * b)) : 0x5a), "a switch is stored, and nothing else");
	abs_reach("value");
}
/* another table: exclusive options at its start, arrays of every size, and an array of mandatory words */
static void second(int n, int one, int two) {
	static const char *const XYZ[] = { NULL, "-x", "--yankee", "-z" }, *const WORDS[] = { "one", "2", "", "-" };
	static argv_array_t ac_, ah, al;
	argv_t t[] = {
		{ 'x', "xray", ARGV_BOOL, &vx, NULL, "c" }, { ARGV_OR }, { 'y', "yankee", ARGV_BOOL, &vy, NULL, "c" }, { ARGV_OR }, { 'z', NULL, ARGV_BOOL, &vz, NULL, "c" },
		{ 'c', NULL, ARGV_CHAR | ARGV_FLAG_ARRAY, (void *)&ac_, "v", "c" }, { 'h', NULL, ARGV_SHORT | ARGV_FLAG_ARRAY, (void *)&ah, "v", "c" },
		{ 'l', NULL, ARGV_LONG | ARGV_FLAG_ARRAY, (void *)&al, "v", "c" }, { ARGV_MAND, NULL, ARGV_CHAR_P | ARGV_FLAG_ARRAY, (void *)&vr, "f", "c" }, { ARGV_LAST }
	};
	arg("cmd");
	if (one) arg(XYZ[one]);
	for (int j = 0; j < n; j++) { arg("-chl"); arg("q"); arg("-300"); arg("-5000000000"); arg(WORDS[j % 4]); }
	if (two) arg(XYZ[two]);
	av[ac] = NULL;
	argv_interactive = 0;
	int r = argv_process(t, ac, av);
	abs_check(r == (n > 0 && !(one && two && one != two) ? 0 : -1), "exclusive options are refused together, and a mandatory word is asked for");
	abs_check(r == 0 || Err.n > 0, "it says what is wrong");
	abs_check(vx == (one == 1 || two == 1) && vy == (one == 2 || two == 2) && vz == (one == 3 || two == 3), "the options given are set");
	abs_check(ac_.aa_entry_n == n && ah.aa_entry_n == n && al.aa_entry_n == n && vr.aa_entry_n == n, "arrays have every value");
	for (int j = 0; j < n; j++) {
		abs_check(ARGV_ARRAY_ENTRY(ac_, char, j) == 'q' && ARGV_ARRAY_ENTRY(ah, short, j) == -300 && ARGV_ARRAY_ENTRY(al, long, j) == -5000000000L, "arrays hold their values");
		abs_check(strcmp(ARGV_ARRAY_ENTRY(vr, char *, j), WORDS[j % 4]) == 0, "words are kept in order");
	}
	argv_cleanup(t);
	abs_check(ac_.aa_entry_n == 0 && ah.aa_entry_n == 0 && al.aa_entry_n == 0 && vr.aa_entry_n == 0, "arrays are empty after the cleanup");
	abs_noleak();
	abs_reach("second table");
}
void drv_second_groups(void) { int o = abs_pick("one", 4), t = abs_pick("two", 4); second(abs_pick("words", 3), o, t); }
void drv_second_arrays(void) { second(abs_pick("words", 11), 0, abs_pick("two", 2)); }
/* the arguments as one string */
void drv_copy(void) {
	static const char *const C[] = { "file", "", "ab", "-p" };
	int n = abs_pick("arguments", 4), size = abs_pick("size", 15), from = abs_pick("from", 2);
	arg("cmd"); for (int j = 0; j < n; j++) arg(C[(j + from) % 4]);
	av[ac] = NULL;
	argv_interactive = 0;
	argv_process(T, ac, av);
	char all[64], b[17];
	size_t l = 0;
	for (int j = 1; j < ac; j++) { if (j > 1) all[l++] = ' '; for (const char *s = words[j]; *s; s++) all[l++] = *s; }
	all[l] = 0;
	b[size] = '!';
	abs_check(argv_copy_args(b, size) == 0 && b[size] == '!', "arguments are copied, within the buffer");
	if (size > 0) {
		size_t k = strlen(b);
		abs_check((int)k < size && memcmp(b, all, k) == 0, "the copy is a prefix of the arguments");
		if (l < (size_t)size) abs_check(k == l, "and all of them if there is room");
	}
	abs_reach("copied");
	abs_stop();
}

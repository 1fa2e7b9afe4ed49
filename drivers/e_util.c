/* names of statistics stages and categories, result names */
#include "abs.h"
#include "dnstable-private.h"
#include <string.h>
#define OK dnstable_res_success
#define NO dnstable_res_failure
static const dnstable_stat_stage S[] = { DNSTABLE_STAT_STAGE_FILESET, DNSTABLE_STAT_STAGE_FILTER_SINGLE_LABEL, DNSTABLE_STAT_STAGE_FILTER_RRTYPE,
	DNSTABLE_STAT_STAGE_FILTER_BAILIWICK, DNSTABLE_STAT_STAGE_FILTER_TIME_PREFILTER, DNSTABLE_STAT_STAGE_REMOVE_STRICT,
	DNSTABLE_STAT_STAGE_FILL_MERGER, DNSTABLE_STAT_STAGE_LJOIN, DNSTABLE_STAT_STAGE_FILTER_TIME, DNSTABLE_STAT_STAGE_FILTER_OFFSET };
static const dnstable_stat_category C[] = { DNSTABLE_STAT_CATEGORY_FILTERED, DNSTABLE_STAT_CATEGORY_MERGED, DNSTABLE_STAT_CATEGORY_SEEK, DNSTABLE_STAT_CATEGORY_FILES };
#define N(a) (sizeof(a) / sizeof((a)[0]))
static void upper(const char *s, char *o) { size_t i = 0; do o[i] = s[i] >= 'a' && s[i] <= 'z' ? s[i] - 32 : s[i]; while (s[i++]); }
void drv_stages(void) {
	int i = abs_pick("stage", N(S)), j = abs_pick("other stage", N(S));
	const char *s = dnstable_stat_stage_to_str(S[i]), *t = dnstable_stat_stage_to_str(S[j]);
	dnstable_stat_stage got = 77;
	char u[32];
	abs_check(s != NULL && t != NULL && *s, "every stage has a name");
	abs_check((strcasecmp(s, t) == 0) == (i == j), "the names of stages are distinct");
	abs_check(dnstable_stat_str_to_stage(s, &got) == OK && got == S[i], "the name of a stage stands for that stage");
	upper(s, u);
	got = 77;
	abs_check(dnstable_stat_str_to_stage(u, &got) == OK && got == S[i], "the name of a stage may be in upper case");
	abs_check(dnstable_stat_str_to_stage(s, NULL) == NO, "nowhere to put a stage is a failure");
	abs_reach("stages");
}
void drv_categories(void) {
	int i = abs_pick("category", N(C)), j = abs_pick("other category", N(C));
	const char *s = dnstable_stat_category_to_str(C[i]), *t = dnstable_stat_category_to_str(C[j]);
	dnstable_stat_category got = 77;
	char u[32];
	abs_check(s != NULL && t != NULL && *s, "every category has a name");
	abs_check((strcasecmp(s, t) == 0) == (i == j), "the names of categories are distinct");
	abs_check(dnstable_stat_str_to_category(s, &got) == OK && got == C[i], "the name of a category stands for that category");
	upper(s, u);
	got = 77;
	abs_check(dnstable_stat_str_to_category(u, &got) == OK && got == C[i], "the name of a category may be in upper case");
	abs_check(dnstable_stat_str_to_category(s, NULL) == NO, "nowhere to put a category is a failure");
	abs_reach("categories");
}
void drv_unknown(void) {
	unsigned v = abs_u32("value"), w = abs_u32("other value");
	for (unsigned i = 0; i < N(S); i++) abs_assume(v != (unsigned)S[i]);
	for (unsigned i = 0; i < N(C); i++) abs_assume(w != (unsigned)C[i]);
	abs_check(dnstable_stat_stage_to_str(v) == NULL, "what is no stage has no name");
	abs_check(dnstable_stat_category_to_str(w) == NULL, "what is no category has no name");
	static const char *const B[] = { NULL, "", "file", "filesets", "offse", "x", " ljoin" };
	const char *b = B[abs_pick("string", 7)];
	dnstable_stat_stage s = 77; dnstable_stat_category c = 77;
	abs_check(dnstable_stat_str_to_stage(b, &s) == NO && (int)s == 77, "what is no name of a stage is refused");
	abs_check(dnstable_stat_str_to_category(b, &c) == NO && (int)c == 77, "what is no name of a category is refused");
	abs_reach("unknown");
}

#include "param.h"
#ifndef LEN
#define LEN 3
#endif
static parameter_handle_t hs[LEN], was[LEN]; static unsigned fresh[LEN]; static char args[LEN]; static int n, called[LEN], has[LEN], wrong; static uint8_t value;
static void refresh(struct _parameter_handle_t *h, void *a) {
    for (int i = 0; i < n; i++) if (h == &hs[i]) { if (a != &args[i] || !has[i]) wrong = 1; called[i]++; hs[i].access_level = fresh[i]; return; }
    wrong = 1;
}
static void any(void) {
    n = 1 + gel_choose(LEN); wrong = 0; int dyn = gel_choose(3);
    for (int i = 0; i < n; i++) {
        memset(&hs[i], 0, sizeof(hs[i])); hs[i].type = PARAMETER_TYPE_UINT8; hs[i].pointer = &value; hs[i].access_level = gel_u32("access"); hs[i].arg = &args[i];
        has[i] = dyn == 2 || (dyn == 1 && i == n - 1); hs[i].runtime = has[i] ? refresh : 0; fresh[i] = has[i] ? gel_u32("refreshed") : hs[i].access_level; called[i] = 0; was[i] = hs[i];
    }
}
static int visible(int i, unsigned al) { int v = fresh[i] == 0 || (fresh[i] & al) != 0; gel_split(v); return v; }
static void frame(int upto) {
    PROVE(!wrong, "a parameter is refreshed with its own handle and argument");
    for (int i = 0; i < n; i++) {
        if (i <= upto) PROVE(!has[i] || called[i] > 0, "every parameter judged is refreshed first");
        PROVE(hs[i].access_level == (called[i] ? fresh[i] : was[i].access_level) && hs[i].runtime == was[i].runtime && hs[i].arg == was[i].arg && hs[i].pointer == &value && hs[i].type == was[i].type, "looking up changes no entry");
    }
}
void C22_count(void) {
    any(); unsigned al = gel_u32("level"); size_t want = 0;
    for (int i = 0; i < n; i++) want += visible(i, al);
    PROVE(parameter_get_count(hs, (size_t)n, al) == want, "the count is the number of visible parameters"); frame(n - 1);
}
void C22_lookup(void) {
    any(); unsigned al = gel_u32("level"); int k = gel_choose(n), seen = 0, at = -1;
    for (int i = 0; i < n; i++) if (visible(i, al)) { if (seen == k && at < 0) at = i; seen++; }
    parameter_handle_t *h = parameter_get_handle(hs, (size_t)n, (size_t)k, al);
    PROVE(h == (at < 0 ? 0 : &hs[at]), "the n-th lookup gives the n-th visible parameter, or null beyond the last"); frame(at < 0 ? n - 1 : at);
}
void C22_empty(void) { PROVE(parameter_get_count(hs, 0, gel_u32("level")) == 0, "an empty list has no visible parameters"); }
// lists longer than small counters reach
#define LONG 300
static parameter_handle_t lh[LONG];
void C22_long(void) {
    gel_loop_cap(2 * LONG); int k = LONG - 1 - gel_choose(3);
    for (int i = 0; i < LONG; i++) { lh[i].type = PARAMETER_TYPE_UINT8; lh[i].pointer = &value; lh[i].access_level = i == 5 ? 2 : i & 1; }
    PROVE(parameter_get_count(lh, LONG, 1) == LONG - 1, "every visible parameter of a long list is counted"); PROVE(parameter_get_handle(lh, LONG, (size_t)k - 1, 1) == &lh[k] && parameter_get_handle(lh, LONG, (size_t)k, 3) == &lh[k], "the end of a long list can be looked up");
    PROVE(parameter_get_handle(lh, LONG, LONG - 1, 1) == 0 && parameter_get_handle(lh, LONG, LONG - 1, 0) == 0, "beyond the last visible parameter of a long list there is none");
}

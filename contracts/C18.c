#include "gel.h"
#include "gel/pagemanager/page_manager.h"
// The exact sequence of page callbacks and their arguments, against a model of the page stack.
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
#define UPDATES 1
#else
#define UPDATES 0
#endif
enum { CREATE = 1, OPEN, CLOSE, DESTROY, UPDATE, EVENT };
typedef struct { int what; pman_model_t model; pman_page_data_t data; void *extra; } call_t;
#ifdef DEEP     // many pages, all with every callback
#define MAX (2 * PMAN_NAVIGATION_DEPTH + 20)
#define SOME_DEPTH ((const int[]){4, 9, PMAN_NAVIGATION_DEPTH - 1, PMAN_NAVIGATION_DEPTH}[gel_choose(4)])
#define WAYS 1
#else
#define MAX 24
#define SOME_DEPTH gel_choose(PMAN_NAVIGATION_DEPTH + 1)
#define WAYS 7
#endif
static call_t log_[MAX], want[MAX]; static int nlog, nwant, overflow;
static pman_page_data_t made; static pman_view_t shown; static pman_message_t replied; static pman_event_t seen;
static void note(int w, pman_model_t m, pman_page_data_t d, void *e) { if (nlog < MAX) { call_t c = {w, m, d, e}; log_[nlog++] = c; } else overflow = 1; }
static pman_page_data_t on_create(pman_model_t m, void *e) { note(CREATE, m, 0, e); return made; }
static void on_destroy(pman_page_data_t d, void *e) { note(DESTROY, 0, d, e); }
static void on_open(pman_model_t m, pman_page_data_t d) { note(OPEN, m, d, 0); }
static void on_close(pman_page_data_t d) { note(CLOSE, 0, d, 0); }
static pman_view_t on_update(pman_model_t m, pman_page_data_t d) { note(UPDATE, m, d, 0); return shown; }
static pman_message_t on_event(pman_model_t m, pman_page_data_t d, pman_event_t e) { seen = e; note(EVENT, m, d, 0); return replied; }
static page_manager_t p; static pman_page_t cur, st[PMAN_NAVIGATION_DEPTH], dest; static int depth, init; static pman_model_t model; static char heap[PMAN_NAVIGATION_DEPTH + 16]; static int nextra; static void *extra;
static int mask(int c) { return c == 0 ? 31 : c == 1 ? 0 : 31 & ~(1 << (c - 2)); }
static pman_page_t page(int m) {
    pman_page_t g; int id = PMAN_NAVIGATION_DEPTH < 100 ? (int)gel_u32("id") : nextra; g.id = id; PROVE(g.id == id, "a page keeps its whole identifier"); g.data = (pman_page_data_t)gel_u32("data"); g.extra = (void *)&heap[nextra++];
    g.create = m & 1 ? on_create : 0; g.destroy = m & 2 ? on_destroy : 0; g.open = m & 4 ? on_open : 0; g.close = m & 8 ? on_close : 0; g.process_event = on_event;
#if UPDATES
    g.update = m & 16 ? on_update : 0;
#endif
    return g;
}
static int eq(pman_page_t *a, pman_page_t *b) {
    int e = a->id == b->id && a->data == b->data && a->extra == b->extra && a->create == b->create && a->destroy == b->destroy && a->open == b->open && a->close == b->close && a->process_event == b->process_event;
#if UPDATES
    e = e && a->update == b->update;
#endif
    return e;
}
static const int below[] = {0, 1, 4, 3, 5, 6};   // what a page that is gone back to, or thrown away, may lack
static void any(int live, int varied) {
    made = (pman_page_data_t)gel_u32("made"); shown = (pman_view_t)gel_u32("view"); replied = (pman_message_t)gel_u32("reply"); model = (pman_model_t)gel_u32("model");
    gel_loop_cap(4 * PMAN_NAVIGATION_DEPTH + 160);
    extra = &heap[PMAN_NAVIGATION_DEPTH + 15]; nextra = 0; nlog = nwant = overflow = 0;
    page_manager_t *garbage = gel_object(sizeof(p), 1, "uninitialised"); p = *garbage;
    pman_init(&p); PROVE(nlog == 0 && !p.initialized, "initialisation calls no page and leaves no current page");
    init = live; depth = live ? SOME_DEPTH : 0;
    for (int i = 0; i < depth; i++) { st[i] = page(mask(varied || WAYS == 1 ? 0 : i == depth - 1 ? below[gel_choose(5 + UPDATES)] : i == 0 ? gel_choose(2) : 0)); PROVE(navigation_stack_push(&p.page_stack, &st[i]) == PUSH_RESULT_SUCCESS, "pages below the stack depth are kept"); }
    cur = page(mask(gel_choose(WAYS))); p.current_page = cur; p.initialized = live;   // without a current page its record is stale: it must not be used
}
static void destination(void) { dest = page(mask(gel_choose(WAYS))); }
static void expect(int w, pman_model_t m, pman_page_data_t d, void *e) { call_t c = {w, m, d, e}; want[nwant++] = c; }
static void leave(pman_page_t *g) { if (g->close) expect(CLOSE, 0, g->data, 0); if (g->destroy) expect(DESTROY, 0, g->data, g->extra); }
static pman_view_t show(pman_page_t *g) {
    if (g->open) expect(OPEN, model, g->data, 0);
#if UPDATES
    if (g->update) { expect(UPDATE, model, g->data, 0); return shown; }
#endif
    return PMAN_VIEW_NULL;
}
static pman_view_t enter(pman_page_t *g, void *e) { cur = *g; cur.extra = e; if (cur.create) { expect(CREATE, model, 0, e); cur.data = made; } else cur.data = PMAN_DATA_NULL; init = 1; return show(&cur); }
static void done(void) {
    PROVE(!overflow && nlog == nwant, "the page callbacks called are exactly the expected ones");
    if (nlog == nwant) for (int i = 0; i < nwant; i++) PROVE(log_[i].what == want[i].what && log_[i].model == want[i].model && log_[i].data == want[i].data && log_[i].extra == want[i].extra, "callbacks come in order, each with its page's data");
    PROVE(!!p.initialized == init, "whether there is a current page is known"); if (init) PROVE(eq(&p.current_page, &cur), "the current page is the expected one");
    for (int i = depth - 1; i >= 0; i--) { pman_page_t g; PROVE(navigation_stack_pop(&p.page_stack, &g) == POP_RESULT_SUCCESS && eq(&g, &st[i]), "the pages below are kept in order"); }
    PROVE(navigation_stack_pop(&p.page_stack, 0) == POP_RESULT_EMPTY, "no other page is on the stack");
}
static void change(int live) {
    any(live, 1); destination(); gel_assume(depth < PMAN_NAVIGATION_DEPTH); int plain = gel_choose(2);
    if (init) { if (cur.close) expect(CLOSE, 0, cur.data, 0); st[depth++] = cur; }
    pman_view_t w = enter(&dest, plain ? 0 : extra);
    pman_view_t v = plain ? pman_change_page(&p, model, dest) : pman_change_page_extra(&p, model, dest, extra);
    PROVE(v == w, "the view is that of the new page"); done();
}
void C18_change(void) { change(1); }
void C18_first(void) { change(0); }
static void replace(int live, int rebase) {
    any(live, !rebase); destination(); int plain = gel_choose(2);
    if (init) leave(&cur);
    if (rebase) { for (; depth > 0; depth--) if (st[depth - 1].destroy) expect(DESTROY, 0, st[depth - 1].data, st[depth - 1].extra); }
    pman_view_t w = enter(&dest, plain ? 0 : extra), v;
    if (rebase) v = plain ? pman_rebase_page(&p, model, dest) : pman_rebase_page_extra(&p, model, dest, extra);
    else v = plain ? pman_swap_page(&p, model, dest) : pman_swap_page_extra(&p, model, dest, extra);
    PROVE(v == w, "the view is that of the new page"); done();
}
void C18_swap(void) { replace(1, 0); }
void C18_swap_first(void) { replace(0, 0); }
void C18_rebase(void) { replace(1, 1); }
void C18_rebase_first(void) { replace(0, 1); }
void C18_back(void) {
    any(1, 0); pman_view_t w = PMAN_VIEW_NULL;
    if (depth) { leave(&cur); cur = st[--depth]; w = show(&cur); }
    PROVE(pman_back(&p, model) == w, "the view is that of the page gone back to"); done();
}
static void reset(int live) {
    any(live, 0); int id = PMAN_NAVIGATION_DEPTH < 100 ? (int)gel_u32("wanted") : (const int[]){0, 1, 43, 44, PMAN_NAVIGATION_DEPTH - 1, PMAN_NAVIGATION_DEPTH, 1000}[gel_choose(7)]; uint8_t found = gel_u8("found"), f = 0; pman_view_t w = PMAN_VIEW_NULL;
    if (init) leave(&cur);
    init = 0;
    while (depth > 0 && !f) { pman_page_t *g = &st[--depth]; if (g->id == id) { f = 1; init = 1; cur = *g; w = show(&cur); } else if (g->destroy) expect(DESTROY, 0, g->data, g->extra); }
    pman_view_t v = pman_reset_to_page(&p, model, id, &found);
    PROVE(found == f && v == w, "going back to a page tells whether it was there"); done();
}
void C18_reset(void) { reset(1); }
void C18_reset_none(void) { reset(0); }
void C18_event(void) {
    any(1, 0); pman_event_t e = (pman_event_t)gel_u32("event"); expect(EVENT, model, cur.data, 0);
    PROVE(pman_process_page_event(&p, model, e) == replied && seen == e, "an event goes to the current page and its answer comes back"); done();
}
// an event handler may itself leave its page: what it did is what is found afterwards
static int where; static pman_view_t went;
static pman_message_t on_leaving(pman_model_t m, pman_page_data_t d, pman_event_t e) { seen = e; note(EVENT, m, d, 0); went = where == 0 ? pman_back(&p, m) : where == 1 ? pman_swap_page_extra(&p, m, dest, extra) : pman_change_page_extra(&p, m, dest, extra); return replied; }
void C18_leaving(void) {
    any(1, 1); destination(); where = gel_choose(3); p.current_page.process_event = cur.process_event = on_leaving; pman_event_t e = (pman_event_t)gel_u32("event"); pman_view_t w = PMAN_VIEW_NULL; expect(EVENT, model, cur.data, 0);
    if (where == 0) { if (depth) { leave(&cur); cur = st[--depth]; w = show(&cur); } }
    else if (where == 1) { leave(&cur); w = enter(&dest, extra); }
    else { gel_assume(depth < PMAN_NAVIGATION_DEPTH); if (cur.close) expect(CLOSE, 0, cur.data, 0); st[depth++] = cur; w = enter(&dest, extra); }
    PROVE(pman_process_page_event(&p, model, e) == replied && seen == e && went == w, "an event handler may go to another page"); done();
}
void C18_update(void) {
    any(1, 1); pman_view_t w = PMAN_VIEW_NULL;
#if UPDATES
    if (cur.update) { expect(UPDATE, model, cur.data, 0); w = shown; }
#endif
    PROVE(pman_page_update(&p, model) == w, "an update goes to the current page"); done();
}

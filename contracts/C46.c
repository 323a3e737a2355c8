#include "gel.h"
#include "gel/data_structures/watcher.h"
#include "gel/pagemanager/page_manager.h"
#include "gel/parameter/parameter.h"
#include "gel/scheduler/scheduler.h"
#include "gel/wearleveling/wearleveling.h"
// calls against a checked precondition end in a failing assertion; the same calls at its limit do not
static int strayed; static void stray(void) { strayed = 1; forbidden("no callback is reached past a violated precondition"); }
// ---- parameters
static parameter_handle_t hs[4]; static uint8_t value;
static void refresh(struct _parameter_handle_t *h, void *a) { (void)h; (void)a; stray(); }
void C46_parameter(void) {
    size_t n = (size_t)gel_choose(5), num = gel_u64("number"); for (int i = 0; i < 4; i++) { hs[i].type = PARAMETER_TYPE_UINT8; hs[i].pointer = &value; hs[i].access_level = gel_u32("access"); hs[i].runtime = refresh; }
    gel_assume(num >= n); gel_must_stop("a parameter number beyond the list stops the lookup"); parameter_get_handle(hs, n, num, gel_u32("level"));
}
void C46_parameter_last(void) {
    size_t n = 1 + (size_t)gel_choose(4); for (int i = 0; i < 4; i++) { hs[i].type = PARAMETER_TYPE_UINT8; hs[i].pointer = &value; }
    PROVE(parameter_get_handle(hs, n, n - 1, gel_u32("level")) == &hs[n - 1], "the last parameter number is legal");
}
// ---- page manager
static page_manager_t p; static int limit; static char heap[2]; static int calls;
static pman_page_data_t on_create(pman_model_t m, void *e) { (void)m; (void)e; calls++; if (!limit) stray(); return 1; }
static void on_destroy(pman_page_data_t d, void *e) { (void)d; (void)e; calls++; stray(); }
static void on_open(pman_model_t m, pman_page_data_t d) { (void)m; (void)d; calls++; if (!limit) stray(); }
static int closed; static void on_close(pman_page_data_t d) { (void)d; calls++; closed++; if (!p.initialized) stray(); }
static pman_view_t on_update(pman_model_t m, pman_page_data_t d) { (void)m; (void)d; calls++; if (!limit) stray(); return 0; }
static pman_message_t on_event(pman_model_t m, pman_page_data_t d, pman_event_t e) { (void)m; (void)d; (void)e; calls++; if (!limit) stray(); return 0; }
static pman_page_t page(int id) {
    pman_page_t g; memset(&g, 0, sizeof(g)); g.id = id; g.create = on_create; g.destroy = on_destroy; g.open = on_open; g.close = on_close; g.process_event = on_event; g.extra = heap;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
    g.update = on_update;
#endif
    return g;
}
static void nothing_shown(int left) {
    page_manager_t *garbage = gel_object(sizeof(p), 1, "uninitialised"); p = *garbage; limit = 0; pman_init(&p); p.current_page = page(3);   // a stale record
    if (left) { uint8_t found; for (int i = left; i > 1; i--) { pman_page_t g = page(i); g.destroy = 0; navigation_stack_push(&p.page_stack, &g); } pman_reset_to_page(&p, 0, 77, &found); PROVE(!found, "no such page"); }   // every page thrown away
}
void C46_no_page(void) {
    nothing_shown(gel_choose(3)); int how = gel_choose(3);
    if (how == 0) { gel_must_stop("an event without a current page stops"); pman_process_page_event(&p, 1, 2); }
    else if (how == 1) { gel_must_stop("going back without a current page stops"); pman_back(&p, 1); }
    else { gel_must_stop("an update without a current page stops"); pman_page_update(&p, 1); }
}
static void deep(int n) { pman_init(&p); calls = closed = 0; limit = 1; pman_change_page(&p, 0, page(0)); for (int i = 1; i <= n; i++) pman_change_page(&p, 0, page(i)); }
void C46_full(void) { deep(PMAN_NAVIGATION_DEPTH); limit = 0; gel_must_stop("one page more than the navigation stack holds stops"); if (gel_choose(2)) pman_change_page(&p, 0, page(9)); else pman_change_page_extra(&p, 0, page(9), heap); }
void C46_nearly_full(void) {
    deep(PMAN_NAVIGATION_DEPTH - 1); PROVE(p.current_page.id == PMAN_NAVIGATION_DEPTH - 1, "as many pages as the stack holds are legal"); pman_change_page(&p, 0, page(9)); PROVE(p.current_page.id == 9 && closed == PMAN_NAVIGATION_DEPTH, "the last place of the navigation stack is usable");
}
// ---- wear leveling
static int rb(size_t b, uint8_t *d, size_t l) { (void)b; (void)d; (void)l; stray(); return 0; }
static int wb(size_t b, uint8_t m, uint8_t *d, size_t l) { (void)b; (void)m; (void)d; (void)l; stray(); return 0; }
static int reads; static int rm(size_t b, uint8_t *m) { (void)b; (void)m; reads++; if (!limit) stray(); return limit ? -1 : 0; }
void C46_blocks(void) { wear_leveled_memory_t w; size_t n = gel_u64("blocks"); limit = 0; gel_assume(n >= MAX_BLOCKS_IN_PAGE); gel_must_stop("more blocks than markers can tell apart stop the initialisation"); wearleveling_init(&w, rb, wb, rm, n); }
void C46_blocks_most(void) { wear_leveled_memory_t w; size_t n = gel_u64("blocks"); limit = 1; reads = 0; gel_assume(n > 0 && n < MAX_BLOCKS_IN_PAGE); PROVE(wearleveling_init(&w, rb, wb, rm, n) == -1 && reads > 0, "every number of blocks that markers can tell apart is legal"); }
#if !GEL_MALLOC_AVAILABLE
// ---- watcher
static uint8_t *mem; static void cb(void *m, void *d) { (void)m; (void)d; stray(); }
void C46_watcher(void) {
    int pos = gel_choose(3); size_t size = gel_u64("size"); gel_assume(size > GEL_STATIC_BLOCK_SIZE && size < GEL_STATIC_BLOCK_SIZE * 1000); mem = gel_object(size, 1, "watched"); static uint8_t one;
    watcher_t l[4]; for (int i = 0; i < 3; i++) { watcher_t w = WATCHER(&one, cb, 0); l[i] = w; } watcher_t z = WATCHER_NULL; l[3] = z;
    watcher_t w = WATCHER_ARRAY(mem, size, cb, 0); l[pos] = w; gel_must_stop("a location larger than the static block stops the initialisation"); watcher_list_init(l);
}
void C46_watcher_largest(void) {
    mem = gel_object(GEL_STATIC_BLOCK_SIZE, 1, "watched"); watcher_t l[2]; watcher_t w = WATCHER_ARRAY(mem, GEL_STATIC_BLOCK_SIZE, cb, 0), z = WATCHER_NULL; l[0] = w; l[1] = z; watcher_list_init(l);
    PROVE(!watcher_check_for_changes(l), "a location as large as the static block is legal");
}
#endif
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
// ---- scheduler
void C46_scheduler(void) { scheduler_t s; size_t n = 1 + (size_t)gel_choose(3); s.num_entries = gel_u64("stale"); gel_must_stop("a scheduler without memory for its entries stops"); scheduler_init(&s, n); }
void *malloc(size_t n) { (void)n; return 0; }
#endif

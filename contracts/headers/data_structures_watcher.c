static int a, b[3]; static void changed(void *m, void *d) { (void)m; (void)d; }
static watcher_t list[] = {WATCHER(&a, changed, 0), WATCHER_ARRAY(b, 3, changed, 0), WATCHER_DELAYED(&a, changed, 0, 10), WATCHER_DELAYED_ARRAY(b, 3, changed, 0, 10), WATCHER_NULL};
int use(unsigned long t) { watcher_list_init(list); watcher_clear_changes(list, t); watcher_trigger_all(list); watcher_trigger_cb(list, 0); return watcher_check_for_changes(list) + watcher_process_changes(list, t); }

static int save(uint8_t *e, size_t p) { (void)e; (void)p; return 0; } static int load(uint8_t *e, size_t n, size_t s) { (void)e; (void)s; return (int)n; }
int use(uint8_t *e) { circular_event_log_t l = {.max_events = 4, .event_size = 2, .save_new_event = save, .load_events = load}; circular_event_log_new_event(&l, e); return (int)circular_event_log_total_events(l) + circular_event_log_load_last_events(l, e, 1, 0); }

static void cb(gel_timer_t *t, void *u, void *a) { (void)t; (void)u; (void)a; }
int use(unsigned long t) { gel_timer_t g = GEL_TIMER_NULL; gel_timer_callback_t f = cb; gel_timer_init(&g, 10, t, f, NULL); gel_timer_set_autoreload(&g, 1); gel_timer_stop(&g); return gel_timer_manage_callback(&g, t, NULL); }

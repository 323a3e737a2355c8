static stopwatch_t s = STOPWATCH_NULL;
int use(unsigned long t) { if (t) stopwatch_setngo(&s, 10, t); else stopwatch_init(&s); return stopwatch_is_timer_reached(&s, t) + (int)stopwatch_get_remaining(&s, t) + stopwatch_get_state(&s); }

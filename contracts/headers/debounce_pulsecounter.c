static pulse_filter_t f; static int n[PULSE_NUM];
int use(unsigned int i) { pulse_filter_init(&f, COUNT_LOW_PULSE, i); pulse_clear(&f, 2); return pulse_filter(&f, i, 3) + pulse_count(&f, 2) + pulse_level(&f, 2) + n[0]; }

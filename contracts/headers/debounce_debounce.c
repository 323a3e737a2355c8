static debounce_filter_t f; static int n[NUM_INPUTS];
int use(unsigned int i) { debounce_filter_init(&f); debounce_filter_set(&f, i); return (int)(debounce_filter(&f, i, 3) + debounce_filter_single(&f, i, 2, 3) + debounce_value(&f)) + debounce_read(&f, 3) + n[0] + NTH(i, 2); }

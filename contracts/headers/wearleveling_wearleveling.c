static int rb(size_t b, uint8_t *p, size_t n) { (void)b; (void)p; (void)n; return 0; } static int wb(size_t b, uint8_t m, uint8_t *p, size_t n) { (void)b; (void)m; (void)p; (void)n; return 0; } static int rm_(size_t b, uint8_t *m) { (void)b; *m = 0; return 0; }
int use(uint8_t *d) { wear_leveled_memory_t w; wearleveling_init(&w, rb, wb, rm_, MAX_BLOCKS_IN_PAGE - 1); return wearleveling_read(&w, d, 4) + wearleveling_write(&w, d, 4); }

static page_manager_t m; static pman_page_data_t make(pman_model_t model, void *x) { (void)x; return (pman_page_data_t)model; }
int use(pman_model_t model) { pman_page_t p = {.id = 1, .create = make}; uint8_t found; pman_init(&m); pman_change_page(&m, model, p); pman_reset_to_page(&m, model, 1, &found); pman_back(&m, model); return found + (int)sizeof(pman_view_t); }

static GEL_CBUF_TYPE mem[8]; static circular_buf_t c;
int use(void) { GEL_CBUF_TYPE v = 0; circular_buf_init(&c, mem, 8); return circular_buf_putc(&c, v) + circular_buf_getc(&c, &v) + circular_buf_puts(&c, mem, 2) + circular_buf_gets(&c, mem, 2) + circular_buf_peek(&c, mem, 1) + circular_buf_drop(&c, 1) + (int)circular_buf_size(&c) + is_circular_buf_empty(&c) + is_circular_buf_full(&c); }

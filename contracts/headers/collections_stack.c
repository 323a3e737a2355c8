STACK_DECLARATION(st, int, 4)
STACK_DEFINITION(st, int)
int use(struct st *s, int v) { int o[2]; st_init(s); st_dequeue(s); return st_push(s, &v) + st_pop(s, &o[0]) + st_peek(s, &o[1]) + st_is_empty(s) + st_is_full(s) + (int)ARRAY_LENGTH(o); }

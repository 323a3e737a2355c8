QUEUE_DECLARATION(q, int, 4)
QUEUE_DEFINITION(q, int)
int use(struct q *s, int v) { int o[2]; q_init(s); return q_enqueue(s, &v) + q_dequeue(s, &o[0]) + q_drop(s) + q_count(s) + q_is_empty(s) + q_is_full(s) + (int)ARRAY_LENGTH(o); }

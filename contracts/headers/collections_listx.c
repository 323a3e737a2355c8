struct item { int v; struct list_head link; };
static LIST_HEAD(head);
static struct list_head other = LIST_HEAD_INIT(other);
int use(struct item *i, struct list_head *h) {
    struct list_head *p; struct item *e; int s = 0;
    INIT_LIST_HEAD(h); list_add(&i->link, h); list_del(&i->link); list_add_tail(&i->link, &head);
    list_for_each(p, h) s += container_of(p, struct item, link)->v;
    list_for_each_prev(p, h) s++;
    list_for_each_entry(e, h, link) s += e->v;
    list_for_each_entry_reverse(e, h, link) s += e->v;
    p = list_next(h); p = list_prev(h);
    return s + list_empty(h) + list_is_last(&i->link, h) + (p == &other);
}

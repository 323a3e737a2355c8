MAYBE_DECLARATION(int)
MAYBE_DEFINITION(int)
static MAYBE(int) none = MAYBE_NOTHING;
static int twice(int v) { return 2 * v; }
int use(int v) { MAYBE(int) m = maybe_int_return(v), n = maybe_int_nothing(); m = maybe_int_map(m, twice); return maybe_int_is_just(&m) + maybe_int_with_default(&n, 3) + maybe_int_is_just(&none); }

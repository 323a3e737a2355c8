#include "gel.h"
#include "gel/timer/timecheck.h"
// TS_BITS is the width of timestamp_t; all instants less than half the range apart, anywhere around the wrap
#define HALF ((timestamp_t)((timestamp_t)-1 / 2 + 1))
static timestamp_t any(const char *s) { return (timestamp_t)gel_u64(s); }
void C30_order(void) {
    timestamp_t a = any("a"), d = any("d"); gel_assume(d < HALF); timestamp_t b = (timestamp_t)(a + d);   // b is d after a
    PROVE((time_after(b, a) != 0) == (d != 0), "after: the later instant");
    PROVE(!time_after(a, b), "after: not the earlier instant");
    PROVE((time_before(a, b) != 0) == (d != 0), "before: the earlier instant");
    PROVE(!time_before(b, a), "before: not the later instant");
    PROVE(time_after_or_equal(b, a), "after or equal: the later instant");
    PROVE((time_after_or_equal(a, b) != 0) == (d == 0), "after or equal: the earlier one only when equal");
}
void C30_interval(void) {
    timestamp_t a = any("a"), d = any("d"); gel_assume(d < HALF); timestamp_t b = (timestamp_t)(a + d);
    PROVE(time_interval(a, b) == d, "interval forwards");
    PROVE(time_interval(b, a) == d, "interval backwards");
}
void C30_expiry(void) {
    timestamp_t s = any("start"), delay = any("delay"), el = any("elapsed"); gel_assume(delay < HALF && el < HALF);
    timestamp_t now = (timestamp_t)(s + el);
    PROVE((is_loosely_expired(s, now, delay) != 0) == (el >= delay), "loosely expired when at least the delay has passed");
    PROVE((is_strictly_expired(s, now, delay) != 0) == (el > delay), "strictly expired when more than the delay has passed");
    PROVE((is_expired(s, now, delay) != 0) == (el >= delay), "expired is loosely expired");
}
void C30_deadline(void) {   // as an ordering around the deadline, wherever the start is: also when current is a little before the start
    timestamp_t s = any("start"), delay = any("delay"), d = any("distance"); gel_assume(d < HALF && d > 0);
    timestamp_t deadline = (timestamp_t)(s + delay), before = (timestamp_t)(deadline - d), after = (timestamp_t)(deadline + d);
    PROVE(!is_loosely_expired(s, before, delay), "not loosely expired before the deadline");
    PROVE(!is_strictly_expired(s, before, delay), "not strictly expired before the deadline");
    PROVE(!is_expired(s, before, delay), "not expired before the deadline");
    PROVE(is_loosely_expired(s, after, delay), "loosely expired after the deadline");
    PROVE(is_strictly_expired(s, after, delay), "strictly expired after the deadline");
    PROVE(is_loosely_expired(s, deadline, delay), "loosely expired at the deadline");
    PROVE(!is_strictly_expired(s, deadline, delay), "not strictly expired at the deadline");
}
void C30_evaluation(void) {   // arguments are evaluated once: a tick read in the argument advances once
    timestamp_t n = any("tick"), t = n, k = any("k"); gel_assume((timestamp_t)(k - n) < HALF);
    int r = time_after_or_equal(k, t++); (void)r;
    PROVE(t == (timestamp_t)(n + 1), "arguments are evaluated once");
}

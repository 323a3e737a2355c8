int use(timestamp_t a, timestamp_t b) { return (time_after(a, b) && time_before(b, a)) + (time_after_or_equal(a, b) || is_expired(a, b, a)) + is_loosely_expired(a, b, a) + is_strictly_expired(a, b, a) + (int)time_interval(a, b); }

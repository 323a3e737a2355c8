static keypad_key_t keys[] = {KEYPAD_KEY(1, 10), KEYPAD_KEY(2, 11), KEYPAD_NULL_KEY};
int use(unsigned long t) { keypad_update_t u = keypad_routine(keys, 1, 2, 3, t, 1); keypad_reset_keys(keys); return u.code + keypad_get_key_state(keys); }

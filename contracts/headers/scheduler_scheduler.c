static scheduler_t s; static uint8_t b[SCHEDULER_ENTRY_SERIALIZED_SIZE];
int use(struct tm *t) { scheduler_entry_t e = {.enabled = 1, .days = 3, .start_second = 1, .end_second = 2, .value = 3}; scheduler_set_entry(&s, 0, e); return scheduler_get_active_entry_number(&s, t) + (int)scheduler_entry_serialize(b, &e) + (int)scheduler_are_there_overlapping_entries(&s, &e); }

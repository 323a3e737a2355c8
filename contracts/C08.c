#include "gel.h"
#include "gel/scheduler/scheduler.h"
#include "gel/serializer/serializer.h"
static scheduler_entry_t any(void) { scheduler_entry_t e; e.enabled = gel_u8("enabled"); e.days = gel_u8("days"); e.start_second = gel_u32("start"); e.end_second = gel_u32("end"); e.value = (int)gel_u32("value"); return e; }
#define B(v, i) ((uint8_t)((v) >> (8 * (i))))
void C08_serialize(void) {
    uint8_t *b = gel_object(17, 1, "buffer"), old[17]; memcpy(old, b, 17); scheduler_entry_t e = any(), k = e;
    PROVE(scheduler_entry_serialize(b + 3, &e) == 11 && SCHEDULER_ENTRY_SERIALIZED_SIZE == 11, "11 bytes are written and reported");
    uint8_t *p = b + 3;
    PROVE(p[0] == k.enabled && p[1] == k.days, "enabled and days come first");
    for (int i = 0; i < 4; i++) PROVE(p[2 + i] == B(k.start_second, i) && p[6 + i] == B(k.end_second, i), "start and end are 32-bit little endian");
    PROVE(p[10] == B((uint32_t)k.value, 0), "the low byte of the value comes last");
    for (int i = 0; i < 3; i++) PROVE(b[i] == old[i] && b[14 + i] == old[14 + i], "no other byte is touched");
    PROVE(e.enabled == k.enabled && e.days == k.days && e.start_second == k.start_second && e.end_second == k.end_second && e.value == k.value, "the entry is left unchanged");
}
void C08_deserialize(void) {
    uint8_t *b = gel_object(11, 1, "buffer"); gel_readonly(b, 1); scheduler_entry_t e[3]; e[0] = any(); e[2] = e[0]; e[1] = any(); scheduler_entry_t g = e[0];
    PROVE(scheduler_entry_deserialize(&e[1], b) == 11, "11 bytes are read and reported");
    PROVE(e[1].enabled == b[0] && e[1].days == b[1], "enabled and days are reproduced");
    PROVE(e[1].start_second == ((uint32_t)b[2] | (uint32_t)b[3] << 8 | (uint32_t)b[4] << 16 | (uint32_t)b[5] << 24), "start is reproduced");
    PROVE(e[1].end_second == ((uint32_t)b[6] | (uint32_t)b[7] << 8 | (uint32_t)b[8] << 16 | (uint32_t)b[9] << 24), "end is reproduced");
    PROVE(e[1].value == (int)b[10], "the value is reproduced as a non-negative byte");
    for (int i = 0; i < 3; i += 2) PROVE(e[i].enabled == g.enabled && e[i].days == g.days && e[i].start_second == g.start_second && e[i].end_second == g.end_second && e[i].value == g.value, "only the given entry is changed");
}
void C08_roundtrip(void) {
    uint8_t *b = gel_object(11, 1, "buffer"); scheduler_entry_t e = any(), r = any();
    PROVE(scheduler_entry_serialize(b, &e) == scheduler_entry_deserialize(&r, b), "both report the same size");
    PROVE(r.enabled == e.enabled && r.days == e.days && r.start_second == e.start_second && r.end_second == e.end_second && r.value == (e.value & 0xff), "an entry round-trips");
}

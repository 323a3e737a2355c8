#include "gel.h"
#include "gel/pid/pid.h"
#define D GEL_PID_DERIVATIVE_DELTA
typedef pid_control_type_t T;
typedef pid_output_type_t O;
#define LIMIT(n) (sizeof(pid_output_type_t) == 8 ? (pid_output_type_t)gel_u64(n) : (pid_output_type_t)gel_u32(n))
#ifdef PID_FLOAT     // floating-point operations are uninterpreted: values are compared as bits
static T small(const char *n) { T v = gel_f32(n); gel_assume(v > -1e6f && v < 1e6f); return v; }
static int same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
#else
static T small(const char *n) { T v = sizeof(T) == 8 ? (T)gel_u64(n) : (T)gel_u32(n); gel_assume(v > -((T)1 << (8 * sizeof(T) - 3)) && v < ((T)1 << (8 * sizeof(T) - 3))); return v; }
static int same(T a, T b) { return a == b; }
#endif
// any controller: before the first input nothing is recorded, then the ring fills up from slot 0
static pid_ctrl_t *any(void) {
    pid_ctrl_t *p = gel_object(sizeof *p, sizeof(T), "pid"); gel_align(p, _Alignof(pid_ctrl_t));
    p->Kp = gel_f32("Kp"); p->Ki = gel_f32("Ki"); p->Kd = gel_f32("Kd");
    p->index = gel_u64("index"); gel_assume(p->index < GEL_PID_INTEGRAL_HISTORY_SIZE);
    p->derivative_history_size = gel_u64("recorded"); p->derivative_index = gel_u64("derivative_index");
    gel_assume(p->derivative_history_size <= D && p->derivative_index < D && (p->derivative_history_size == D || p->derivative_index == p->derivative_history_size));
    gel_loop_cap(4 * D + 2 * GEL_PID_INTEGRAL_HISTORY_SIZE + 160);
#if GEL_PID_DERIVATIVE_DELTA > 100   // at chosen places only, each slot with its own fixed value
    static const int at[] = {0, 1, 127, 128, 255, 256, D - 2, D - 1}; int full = gel_choose(2), c = gel_choose(8); p->derivative_index = at[c]; p->derivative_history_size = full ? D : at[c];
    for (int i = 0; i < D; i++) p->derivative_history[i] = 1000 + i;
#else
    for (int i = 0; i < D; i++) p->derivative_history[i] = small("past");
#endif
    p->input = small("input"); p->sp = small("sp");
    p->first_value = gel_u32("first"); gel_assume(p->first_value || p->derivative_history_size == 0);
    p->integral_low_threshold = LIMIT("low"); p->integral_high_threshold = LIMIT("high"); p->derivative_low_threshold = LIMIT("dlow");
    p->auto_clear_integral_history = gel_u32("auto"); p->derivative_threshold = gel_u32("dthr");
    p->integral_low_thresh_enabled = gel_u32("lowen"); p->integral_high_thresh_enabled = gel_u32("highen");
#if GEL_PID_DERIVATIVE_DELTA > 100
    p->first_value = 1; p->auto_clear_integral_history = p->integral_low_thresh_enabled = p->integral_high_thresh_enabled = 0; p->sign = ERROR_POSITIVE;
#else
    p->sign = gel_choose(3) - 1;
#endif
    return p;
}
// i-th oldest recorded error
static T past(pid_ctrl_t *p, size_t i) { size_t n = p->derivative_history_size, s = n == D ? p->derivative_index + i : i; return p->derivative_history[s >= D ? s - D : s]; }
void C25_record(void) {
    pid_ctrl_t *p = any(); size_t n = p->derivative_history_size; int first = p->first_value; T e = p->sp - p->input, sp = p->sp, in = small("in"), w[D + 1];
    for (size_t i = 0; i < n; i++) w[i] = past(p, i);
    int th = p->derivative_threshold; O low = p->derivative_low_threshold;
    pid_add_input(p, in);
    PROVE(p->input == in && p->sp == sp && p->first_value, "the input is taken, the set point stays");
    if (first) { w[n] = e; if (++n > D) { n = D; for (int i = 0; i < D; i++) w[i] = w[i + 1]; } }
    PROVE(p->derivative_history_size == n && p->derivative_index < D && (n == D || p->derivative_index == n), "one more error is recorded once there was an input, at most D");
    for (size_t i = 0; i < n; i++) PROVE(same(past(p, i), w[i]), "the last D errors are recorded, oldest first");
    PROVE(p->derivative_threshold == th && p->derivative_low_threshold == low, "settings stay");
}
void C25_p(void) { pid_ctrl_t *p = any(); gel_readonly(p, 1); T e = p->sp - p->input; PROVE(same(pid_compute_p(p), (O)(p->Kp * (O)e)), "gain times the current error"); PROVE(same(pid_current_error(p), e), "current error"); }
void C25_d(void) {
    pid_ctrl_t *p = any(); gel_readonly(p, 1); T e = p->sp - p->input; O o = pid_compute_d(p); int over = p->derivative_threshold && (e > 0 ? e : -e) > p->derivative_low_threshold;
    if (p->derivative_history_size == 0 || over) PROVE(o == 0, "no derivative before two inputs, or over the threshold");
    else PROVE(same(o, (O)(p->Kd * (O)(e - past(p, 0)))), "gain times the change since the oldest recorded error");
}
void C25_sum(void) {
    pid_ctrl_t *p = any(); gel_readonly(p, 1); gel_loop_cap(GEL_PID_INTEGRAL_HISTORY_SIZE + 1);
    O x = pid_compute_p(p), y = pid_compute_i(p), z = pid_compute_d(p); PROVE(same(pid_compute(p), x + y + z), "the output is the sum of the three terms");
}
void C25_settings(void) {
    pid_ctrl_t *p = any(); size_t n = p->derivative_history_size, d = p->derivative_index; T w = p->derivative_history[D - 1], in = p->input, sp = p->sp; O low = p->derivative_low_threshold; int th = p->derivative_threshold, f = p->first_value;
    float a = gel_f32("a"), b = gel_f32("b"), c = gel_f32("c"); uint32_t v = gel_u32("v");
    switch (gel_choose(9)) {
    case 0: pid_ctrl_tune(p, a, b, c); { uint32_t x[3], y[3]; float g[3] = {a, b, c}; memcpy(x, g, 12); memcpy(y, &p->Kp, 4); memcpy(y + 1, &p->Ki, 4); memcpy(y + 2, &p->Kd, 4); PROVE(x[0] == y[0] && x[1] == y[1] && x[2] == y[2], "gains are set"); } break;
    case 1: pid_set_sp(p, (T)v); sp = (T)v; break;
    case 2: pid_enable_derivative_threshold(p, (int)v); th = (int)v; break;
    case 3: pid_set_derivative_threshold(p, (T)v, (T)gel_u32("high")); low = (T)v; break;
    case 4: pid_enable_integral_low_threshold(p, (int)v); break;
    case 5: pid_enable_integral_high_threshold(p, (int)v); break;
    case 6: pid_set_integral_low_threshold(p, v); break;
    case 7: pid_set_integral_high_threshold(p, v); break;
    case 8: pid_set_auto_integral_clear(p, (int)v); break;
    }
    PROVE(p->sp == sp && p->input == in && (!p->derivative_threshold) == (!th) && p->derivative_low_threshold == low && (!p->first_value) == (!f), "each setting sets its own");
    PROVE(p->derivative_history_size == n && p->derivative_index == d && same(p->derivative_history[D - 1], w), "settings leave the recorded errors alone");
}
void C25_init(void) {
    pid_ctrl_t *p = gel_object(sizeof *p, sizeof(T), "pid"); gel_align(p, _Alignof(pid_ctrl_t)); pid_init(p);
    PROVE(p->derivative_history_size == 0 && p->derivative_index == 0 && !p->first_value && !p->derivative_threshold && p->sp == 0 && p->input == 0, "nothing recorded at first");
    PROVE(pid_compute_d(p) == 0, "no derivative at first");
}

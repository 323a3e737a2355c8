#include "gel.h"
#include "gel/pid/pid.h"
#define N GEL_PID_INTEGRAL_HISTORY_SIZE
typedef pid_control_type_t T;
#define LIMIT(n) (sizeof(pid_output_type_t) == 8 ? (pid_output_type_t)gel_u64(n) : (pid_output_type_t)gel_u32(n))
#ifdef PID_FLOAT     // floating-point operations are uninterpreted: values are compared as bits
static T small(const char *n) { T v = gel_f32(n); gel_assume(v > -1e6f && v < 1e6f); return v; }
static int same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0; }
#else
static T small(const char *n) { T v = sizeof(T) == 8 ? (T)gel_u64(n) : (T)gel_u32(n); gel_assume(v > -((T)1 << (8 * sizeof(T) - 3)) && v < ((T)1 << (8 * sizeof(T) - 3))); return v; }
static int same(T a, T b) { return a == b; }
#endif
static pid_ctrl_t *any(void) {
    pid_ctrl_t *p = gel_object(sizeof *p, sizeof(T), "pid"); gel_align(p, _Alignof(pid_ctrl_t));
    gel_loop_cap(2 * (N + GEL_PID_DERIVATIVE_DELTA) + 160);     // also for code that goes through the histories one by one
    p->Kp = gel_f32("Kp"); p->Ki = gel_f32("Ki"); p->Kd = gel_f32("Kd");
    p->index = gel_u64("index"); gel_assume(p->index < N);
    p->derivative_history_size = gel_u64("derivative_history_size"); p->derivative_index = gel_u64("derivative_index");
    gel_assume(p->derivative_index < GEL_PID_DERIVATIVE_DELTA && p->derivative_history_size <= GEL_PID_DERIVATIVE_DELTA);
    p->input = small("input"); p->sp = small("sp");
    p->integral_low_threshold = LIMIT("low"); p->integral_high_threshold = LIMIT("high"); p->derivative_low_threshold = LIMIT("dlow");
    p->first_value = gel_u32("first"); p->auto_clear_integral_history = gel_u32("auto"); p->derivative_threshold = gel_u32("dthr");
    p->integral_low_thresh_enabled = gel_u32("lowen"); p->integral_high_thresh_enabled = gel_u32("highen");
    p->sign = gel_choose(3) - 1;
    return p;
}
// one more input: the slot of the oldest input receives the contribution of this one, no other slot changes (or all were cleared before)
void C24_add(void) {
    pid_ctrl_t *p = any();
    size_t i = p->index, k = gel_u64("k"); gel_assume(k < N);
    T was = p->history[k], in = small("in"), e = p->sp - in;
    int sign = p->sign, clear = p->auto_clear_integral_history && ((e > 0 && sign <= 0) || (e < 0 && sign >= 0));
    int lowen = p->integral_low_thresh_enabled, highen = p->integral_high_thresh_enabled;
    pid_output_type_t low = p->integral_low_threshold, high = p->integral_high_threshold;
    // before the first non-zero error the window is all zero
    gel_assume(sign != 0 || same(was, 0));
    pid_add_input(p, in);
    T contribution = e > 0 ? (lowen == 0 || e < low ? e : 0) : e < 0 ? (highen == 0 || -e < high ? e : 0) : 0;
    size_t slot = p->index == 0 ? N - 1 : p->index - 1;   // the newest
    PROVE(p->index < N, "the position stays in the window");
    PROVE(same(p->history[slot], contribution), "the newest slot holds this input's error, or zero when zero or over its threshold");
    if (clear) { PROVE(k == slot || same(p->history[k], 0), "a change of sign clears everything else"); }
    else { PROVE(slot == i || sign == 0, "the slot of the oldest input is replaced"); PROVE(k == slot || same(p->history[k], was), "the other errors stay"); }
    PROVE(p->sign == (e > 0 ? 1 : e < 0 ? -1 : sign), "the sign is that of the last non-zero error");
    PROVE(p->integral_low_threshold == low && p->integral_high_threshold == high && p->integral_low_thresh_enabled == lowen && p->integral_high_thresh_enabled == highen, "thresholds stay");
}
void C24_integral(void) {
    gel_loop_cap(N + 1);     pid_ctrl_t *p = any(); pid_output_type_t s = 0;
    for (int i = 0; i < N; i++) s += p->history[i];
    gel_readonly(p, 1);
    PROVE(same(pid_compute_i(p), (pid_output_type_t)((float)s * p->Ki)), "gain times the sum of exactly the window");
}
void C24_clear(void) {
    pid_ctrl_t *p = any(); size_t k = gel_u64("k"); gel_assume(k < N);
    T in = p->input, sp = p->sp; size_t n = p->derivative_history_size, d = p->derivative_index; int s = p->sign; T dh = p->derivative_history[0];
    pid_clear_integral_history(p);
    PROVE(same(p->history[k], 0), "cleared"); PROVE(p->index < N, "position in the window");
    PROVE(p->input == in && p->sp == sp && p->derivative_history_size == n && p->derivative_index == d && p->sign == s && same(p->derivative_history[0], dh), "only the window is cleared");
}
void C24_init(void) {
    pid_ctrl_t *p = gel_object(sizeof *p, sizeof(T), "pid"); gel_align(p, _Alignof(pid_ctrl_t)); size_t k = gel_u64("k"); gel_assume(k < N);
    pid_init(p);
    PROVE(same(p->history[k], 0) && p->index == 0 && p->sign == 0 && p->auto_clear_integral_history == 0 && p->integral_low_thresh_enabled == 0 && p->integral_high_thresh_enabled == 0, "empty window, nothing enabled");
}
void C24_setters(void) {
    pid_ctrl_t *p = any(); int v = gel_u32("v"); size_t t = gel_u64("t"), k = gel_u64("k"); gel_assume(k < N && t <= 0x7fffffff);
    T was = p->history[k]; size_t index = p->index; int s = p->sign;
    pid_output_type_t low = p->integral_low_threshold, high = p->integral_high_threshold; int lowen = p->integral_low_thresh_enabled, highen = p->integral_high_thresh_enabled, a = p->auto_clear_integral_history; float ki = p->Ki;
    switch (gel_choose(8)) {
    case 0: pid_enable_integral_low_threshold(p, v); lowen = v; break;
    case 1: pid_enable_integral_high_threshold(p, v); highen = v; break;
    case 2: pid_set_integral_low_threshold(p, t); low = t; break;
    case 3: pid_set_integral_high_threshold(p, t); high = t; break;
    case 4: pid_set_auto_integral_clear(p, v); a = v; break;
    case 5: pid_enable_derivative_threshold(p, v); break;
    case 6: pid_set_derivative_threshold(p, (T)v, (T)t); break;
    case 7: pid_set_sp(p, (T)v); break;
    }
    PROVE((!p->integral_low_thresh_enabled) == (!lowen) && (!p->integral_high_thresh_enabled) == (!highen) && p->integral_low_threshold == low && p->integral_high_threshold == high && (!p->auto_clear_integral_history) == (!a), "each setting sets its own");
    PROVE(same(p->history[k], was) && p->index == index && p->sign == s, "settings leave the window alone");
}
// a whole history from initialisation, stated without looking into the structure
#define M (N + 2)
void C24_history(void) {
#ifdef PID_FLOAT
    if (N > 1) return;     // the slots may be summed in another order
#endif
    if (N > 2) return;
    pid_ctrl_t *p = gel_object(sizeof *p, sizeof(T), "pid"); gel_align(p, _Alignof(pid_ctrl_t)); T w[M]; int sign = 0, a = gel_choose(2); float ki = gel_f32("Ki");
    pid_init(p); pid_ctrl_tune(p, 0, ki, 0); pid_set_auto_integral_clear(p, a);
    T sp = small("sp"); pid_set_sp(p, sp);
    for (int i = 0; i < M; i++) {
        T in = small("in"), e = sp - in; pid_add_input(p, in);
        if (e > 0 ? sign <= 0 : e < 0 ? sign >= 0 : 0) { sign = e > 0 ? 1 : -1; if (a) for (int j = 0; j < i; j++) w[j] = 0; }
        w[i] = e > 0 || e < 0 ? e : 0;
    }
    pid_output_type_t s = 0; for (int i = M - N; i < M; i++) s += w[i];
    PROVE(same(pid_compute_i(p), (pid_output_type_t)((float)s * ki)), "after any inputs the term is the gain times the last N errors");
}

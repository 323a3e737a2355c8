DEFINE_STATE_MACHINE(m, int, char)
static int go(char *c, int e) { *c = 1; return e; }
int use(int e) { char c; m_event_manager_t t[] = {go, go}; m_state_machine_t s = {.managers = t, .state = 0}; return m_sm_send_event(&s, &c, e); }

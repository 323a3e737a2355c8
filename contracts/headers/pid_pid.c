static pid_ctrl_t p;
int use(pid_control_type_t v) { pid_init(&p); pid_ctrl_tune(&p, 1, 2, 3); pid_set_sp(&p, v); pid_add_input(&p, v); return (int)(pid_compute(&p) + pid_compute_p(&p) + pid_compute_i(&p) + pid_compute_d(&p)); }

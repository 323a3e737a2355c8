static uint8_t a; static uint16_t b; static float c;
int use(uint8_t m, uint8_t *buffer) {
    parameter_handle_t ps[] = {PARAMETER(&a, 0, m, 1, 0, 1), PARAMETER_STEP(&b, 0, m, 1, 2, 0, 1), PARAMETER_DLIMITS(&c, NULL, NULL, 0, m, 1, 0, 1), PARAMETER_FULL(&a, NULL, NULL, 0, m, 1, 1, 1, 0, NULL, NULL), PARAMETER_C99(PARAMETER_TYPE_UINT8, &a, NULL, NULL, 0, m, 1, 1, 1, 0, NULL, NULL)};
    parameter_handle_t d = parameter_clone_with_buffer(ps, buffer); parameter_reset_to_defaults(ps, 5);
    return parameter_operator(ps, 1) + (int)parameter_get_count(ps, 5, 1) + parameter_check_ranges(ps, 5) + (parameter_get_handle(ps, 5, 0, 1) == &d) + parameter_to_bool(ps);
}

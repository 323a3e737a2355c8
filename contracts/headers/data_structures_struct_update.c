struct o { int a, b[2]; };
void use(struct o *p, int v) { struct o c = *p; int w[2] = {v, v}; struct_update_t u = STRUCT_UPDATE(c, a, v), x = STRUCT_UPDATE_ARRAY(*p, b, w, 2); struct_update_apply(p, u); struct_update_free(u); struct_update_apply(p, x); struct_update_free(x); }

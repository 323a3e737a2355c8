// Configuration of the library for the analysed modules; every value can be overridden per unit with -D.
#pragma once
#include <stdint.h>
#ifndef GEL_PARAMETER_MAX_SIZE
#define GEL_PARAMETER_MAX_SIZE 8
#endif
#ifndef PMAN_NAVIGATION_DEPTH
#define PMAN_NAVIGATION_DEPTH 3
#endif
#define PMAN_VIEW_NULL 0
#define PMAN_DATA_NULL 0
typedef int pman_message_t;
typedef int pman_event_t;
typedef int pman_page_data_t;
typedef int pman_model_t;
typedef int pman_view_t;
#ifndef GEL_PID_CONTROL
#define GEL_PID_CONTROL int
#endif
#ifndef GEL_PID_OUTPUT
#define GEL_PID_OUTPUT int
#endif
typedef GEL_PID_CONTROL pid_control_type_t;
typedef GEL_PID_OUTPUT pid_output_type_t;
#ifndef GEL_PID_INTEGRAL_HISTORY_SIZE
#define GEL_PID_INTEGRAL_HISTORY_SIZE 200
#endif
#ifndef GEL_PID_DERIVATIVE_DELTA
#define GEL_PID_DERIVATIVE_DELTA 5
#endif
#ifndef GEL_MALLOC_AVAILABLE
#define GEL_MALLOC_AVAILABLE 0
#endif
#ifndef GEL_STATIC_BLOCK_SIZE
#define GEL_STATIC_BLOCK_SIZE 80
#endif
#ifndef WL_BLOCK_SIZE
#define WL_BLOCK_SIZE 4
#endif
typedef int parameter_user_data_t;

/* fallback when /repo has not been configured */
#define COMPILE_DL_TEDS 1

#pragma once
#ifdef __cplusplus
extern "C" {
#endif
double toy_scratch(double); double toy_early_flag(double); double toy_magic(double); double toy_mutex(double); double toy_atomic(double);
#ifdef __cplusplus
}
#endif

#pragma once
#ifdef __cplusplus
extern "C"
#endif
long mlse_param(const char *name, long def);

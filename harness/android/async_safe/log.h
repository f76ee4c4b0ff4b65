#ifndef VF_ASYNC_SAFE_LOG_H
#define VF_ASYNC_SAFE_LOG_H
__attribute__((noreturn, format(printf, 1, 2))) void async_safe_fatal(const char *fmt, ...);
#endif

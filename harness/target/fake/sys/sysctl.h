#include <stddef.h>
extern "C" int sysctlbyname(const char*, void*, size_t*, void*, size_t);

// Included first (-include) in every simulated translation unit: system headers of the host, then the macros
// of the simulated architecture, which the generated sim_arch.h switches to.
#ifndef SIM_PRE_H_
#define SIM_PRE_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <inttypes.h>
#include <atomic>
#include <ostream>
#include <string>
#include <vector>
#include <limits>
#include <memory>
#include <utility>
#include <initializer_list>
#include <sys/auxv.h>
#include <sys/utsname.h>
#if __has_include(<compare>)
#include <compare>
#endif
// Instructions of the simulated architecture that target detection uses.
asm(".macro cntb reg\n\tmovq sim_len(%rip), \\reg\n\t.endm");
asm(".macro .option a:vararg\n\t.endm");
asm(".macro vsetvli reg, a:vararg\n\tmovq sim_len(%rip), \\reg\n\t.endm");
asm(".macro csrr reg, a:vararg\n\tmovq sim_vtype(%rip), \\reg\n\t.endm");
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef __k8__
#undef __k8
#undef __SSE__
#undef __SSE2__
#undef __MMX__
#undef __linux__
#undef linux
#undef __GNUC__
#undef __GNUC_MINOR__
#include "sim_arch.h"
#include "hwy/detect_compiler_arch.h"
#undef HWY_HAS_ATTRIBUTE
#define HWY_HAS_ATTRIBUTE(name) 0
#include "hwy/base.h"
#undef HWY_PUSH_ATTRIBUTES
#define HWY_PUSH_ATTRIBUTES(x)
#undef HWY_POP_ATTRIBUTES
#define HWY_POP_ATTRIBUTES
#endif

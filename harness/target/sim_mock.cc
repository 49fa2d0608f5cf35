// The simulated machine.
#include "sim_mock.h"
#include <string.h>
#include <sys/auxv.h>
#include <sys/utsname.h>
extern "C" {
long sim_len = 16, sim_vtype = 0;
unsigned long sim_hwcap = 0, sim_hwcap2 = 0;
int sim_auxv_calls = 0;
unsigned long getauxval(unsigned long t) { ++sim_auxv_calls; return t == AT_HWCAP ? sim_hwcap : t == AT_HWCAP2 ? sim_hwcap2 : 0; }
char sim_sysctl[8][48];
int sim_nsysctl = 0;
int sysctlbyname(const char* n, void* out, size_t* len, void*, size_t) {
  for (int i = 0; i < sim_nsysctl; ++i)
    if (!strcmp(n, sim_sysctl[i] + 1)) { int v = sim_sysctl[i][0] == '1'; memcpy(out, &v, sizeof(v)); *len = sizeof(v); return 0; }
  return -1;
}
}

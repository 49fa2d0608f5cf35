// The simulated processor.  Compiled without vector instructions: it runs in the place of an instruction.
#include <stdint.h>
extern "C" {
struct Leaf { uint32_t leaf, sub, r[4]; };
Leaf g_leaves[16]; int g_num_leaves = 0;
uint32_t g_noise[4], g_xcr0 = 0, g_osxsave = 0, g_bad_xgetbv = 0, g_max = 0, g_bad_leaf = 0;
void verif_cpuid_c(uint32_t* io) {
  const uint32_t leaf = io[0], sub = io[2];
  for (int i = 0; i < g_num_leaves; ++i)
    if (g_leaves[i].leaf == leaf && (g_leaves[i].sub == sub || leaf == 0 || leaf == 1 || leaf >= 0x80000000u)) { for (int k = 0; k < 4; ++k) io[k] = g_leaves[i].r[k]; return; }
  // Beyond the maximum leaf processors return the data of another leaf; unknown subleaves are zero.
  for (int k = 0; k < 4; ++k) io[k] = leaf < 0x80000000u && leaf > g_max ? g_noise[k] : 0;
}
void verif_xgetbv_c(uint32_t* io) { if (!g_osxsave || io[2] != 0) g_bad_xgetbv++; io[0] = g_xcr0; io[3] = 0; }
}

// A user's translation unit, compiled for a simulated architecture.
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "sim.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
#ifndef SIM_COMMON
#define SIM_COMMON
#include "sim_mock.h"
#include <string>
struct Info { int64_t target; const char* ns; long maxbytes, lanes8, lanes32, scalable, i64, f16, f64, fault, fma, ge256, ge512; const char* str; };
static std::string sim_compiled;       // targets for which this translation unit was compiled, in order of initialization
struct Compiled { explicit Compiled(int64_t t) { sim_compiled += (sim_compiled.empty() ? "" : ",") + std::to_string(t == (t & -t) ? __builtin_ctzll(static_cast<unsigned long long>(t)) : 999); } };
#define SIM_STR2(x) #x
#define SIM_STR(x) SIM_STR2(x)
#endif
#ifdef HWY_TARGET_STR
#define SIM_TSTR HWY_TARGET_STR
#else
#define SIM_TSTR ""
#endif
HWY_BEFORE_NAMESPACE();
namespace hwy {
namespace HWY_NAMESPACE {
static const Compiled compiled(HWY_TARGET);
void Which(Info* r) {
  *r = Info{HWY_TARGET, SIM_STR(HWY_NAMESPACE), HWY_MAX_BYTES, static_cast<long>(HWY_LANES(uint8_t)), static_cast<long>(HWY_LANES(float)), HWY_HAVE_SCALABLE, HWY_HAVE_INTEGER64,
            HWY_HAVE_FLOAT16, HWY_HAVE_FLOAT64, HWY_MEM_OPS_MIGHT_FAULT, HWY_NATIVE_FMA, HWY_CAP_GE256, HWY_CAP_GE512, SIM_TSTR};
}
}
}
HWY_AFTER_NAMESPACE();
#undef SIM_TSTR
#if HWY_ONCE
#include <random>
namespace hwy {
HWY_EXPORT(Which);
static const struct { int64_t t; const char* n; } kAll[] = {
#define T(x) {HWY_##x, #x},
T(AVX10_2_512) T(AVX3_SPR) T(AVX10_2) T(AVX3_ZEN4) T(AVX3_DL) T(AVX3) T(AVX2) T(SSE4) T(SSSE3) T(SSE2) T(SVE2_128) T(SVE_256) T(SVE2) T(SVE) T(NEON_BF16) T(NEON)
T(NEON_WITHOUT_AES) T(RVV) T(LASX) T(LSX) T(PPC10) T(PPC9) T(PPC8) T(Z15) T(Z14) T(WASM_EMU256) T(WASM) T(EMU128) T(SCALAR)
#undef T
};
static std::string Name(int64_t t) { for (auto& k : kAll) if (k.t == t) return k.n; for (int b = 0; b < 63; ++b) if (t == (1LL << b)) return "BIT" + std::to_string(b); return "NONE"; }
static std::string Set(int64_t m) {
  std::string s = "[";
  for (int b = 0; b < 63; ++b) if (m & (1LL << b)) s += std::string(s.size() > 1 ? "," : "") + "\"" + Name(1LL << b) + "\"";
  return s + "]";
}
static std::string Seq(const std::vector<int64_t>& v) {
  std::string s = "[";
  for (int64_t t : v) s += std::string(s.size() > 1 ? "," : "") + "\"" + Name(t) + "\"";
  return s + "]";
}
struct Cap { const char* name; int word, bit; };
static const Cap kCaps[] = {
#if HWY_OS_APPLE
{"hw.optional.arm.FEAT_AES", 3, 0}, {"hw.optional.AdvSIMD_HPFPCvt", 3, 1}, {"hw.optional.arm.FEAT_DotProd", 3, 2}, {"hw.optional.arm.FEAT_BF16", 3, 3},
#elif HWY_ARCH_ARM_A64
{"AES", 1, 3}, {"FP16", 1, 10}, {"DOT", 1, 20}, {"SVE", 1, 22}, {"SVE2", 2, 1}, {"SVEAES", 2, 2}, {"BF16", 2, 14},
#elif HWY_ARCH_ARM
{"NEON", 1, 12}, {"VFPv4", 1, 16},
#elif HWY_ARCH_PPC
{"ALTIVEC", 1, 28}, {"VSX", 1, 7}, {"ARCH207", 2, 31}, {"CRYPTO", 2, 25}, {"ARCH300", 2, 23}, {"ARCH31", 2, 18},
#elif HWY_ARCH_S390X
{"VX", 1, 11}, {"VXE", 1, 13}, {"EXT2", 1, 15},
#elif HWY_ARCH_RISCV
{"V", 1, 21},
#elif HWY_ARCH_LOONGARCH
{"LSX", 1, 4}, {"LASX", 1, 5},
#endif
{nullptr, 0, 0}};
static int Main(const char* file, unsigned seed, int episodes, int len) {
  FILE* f = fopen(file, "w");
  std::mt19937 rng(seed);
  auto rnd = [&](unsigned n) { return static_cast<unsigned>(rng() % n); };
  std::vector<int64_t> mine;
  for (auto& k : kAll) if (strcmp(TargetName(k.t), "Unknown")) mine.push_back(k.t);
  fprintf(f, "{\"names\":[");
  for (auto& k : kAll) fprintf(f, "%s[\"%s\",\"%s\"]", &k == kAll ? "" : ",", k.n, TargetName(k.t));
  fprintf(f, "],\"static\":%s,\"targets\":%s,\"episodes\":[", Set(HWY_STATIC_TARGET).c_str(), Set(HWY_TARGETS).c_str());
  bool any = false;
  std::string infos;
  int64_t seen = 0;
  for (int e = 0; e < episodes; ++e) {
    fprintf(f, "%s[", any ? "," : ""); any = true;
    bool first = true;
    auto ev = [&](const std::string& s) { fprintf(f, "%s[%s]", first ? "" : ",", s.c_str()); first = false; };
    auto hw = [&](unsigned dens) {
      sim_hwcap = rng(); sim_hwcap2 = rng(); sim_nsysctl = 0;   // unrelated bits are arbitrary
      std::string caps = "[";
      for (const Cap* c = kCaps; c->name; ++c) {
        bool on = rnd(100) < dens;
        if (!strcmp(c->name, "SVE2") && !(sim_hwcap & (1 << 22))) on = false;   // SVE2 implies SVE
        if (c->word == 1) sim_hwcap = (sim_hwcap & ~(1UL << c->bit)) | (static_cast<unsigned long>(on) << c->bit);
        if (c->word == 2) sim_hwcap2 = (sim_hwcap2 & ~(1UL << c->bit)) | (static_cast<unsigned long>(on) << c->bit);
        if (c->word == 3 && (on || rnd(2))) { sim_sysctl[sim_nsysctl][0] = on ? '1' : '0'; strcpy(sim_sysctl[sim_nsysctl++] + 1, c->name); }
        if (on) caps += std::string(caps.size() > 1 ? "," : "") + "\"" + c->name + "\"";
      }
      const long lens[] = {8, 16, 16, 16, 32, 32, 64, 128, 256};
      sim_len = lens[rnd(9)];
#if !HWY_ARCH_RISCV
      if (sim_len < 16) sim_len = 16;
#endif
      bool vill = rnd(4) == 0;
      sim_vtype = vill ? (-0x7fffffffffffffffL - 1) : static_cast<long>(rnd(256));
      ev("\"hw\"," + caps + "]," + std::to_string(sim_len) + "," + (vill ? "1" : "0"));
    };
    auto mask = [&] { int64_t m = 0; unsigned k = rnd(5); for (int64_t t : mine) if (k == 0 ? false : k == 1 ? true : rnd(k) == 0) m |= t; if (rnd(8) == 0) m |= 1LL << rnd(62); return m; };
    hw(80);
    SetSupportedTargetsForTest(0); DisableTargets(0);
    ev("\"force\",[]"); ev("\"disable\",[]");
    for (int i = 0; i < len; ++i) {
      switch (rnd(9)) {
        case 0: { hw(50 + rnd(50)); int64_t m = rnd(2) ? 0 : mask(); DisableTargets(m); ev("\"disable\"," + Set(m)); break; }
        case 1: { int64_t m = mask(); DisableTargets(m); ev("\"disable\"," + Set(m)); break; }
        case 2: { int64_t m = rnd(2) ? 0 : mask(); SetSupportedTargetsForTest(m); ev("\"force\"," + Set(m)); break; }
        case 3: { int64_t m = SupportedTargets(); ev("\"supported\"," + Set(m)); break; }
        case 4: ev("\"gen\"," + Seq(SupportedAndGeneratedTargets())); break;
        default: {
          Info r; HWY_DYNAMIC_DISPATCH(Which)(&r); ev("\"call\",\"" + Name(r.target) + "\"");
          if (!(seen & r.target)) {
            seen |= r.target;
            char b[600]; snprintf(b, sizeof(b), "%s[\"%s\",\"%s\",%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,%ld,\"%s\"]", infos.empty() ? "" : ",", Name(r.target).c_str(), r.ns, r.maxbytes, r.lanes8, r.lanes32,
                     r.scalable, r.i64, r.f16, r.f64, r.fault, r.fma, r.ge256, r.ge512, r.str);
            infos += b;
          }
        }
      }
    }
    fprintf(f, "]");
  }
  fprintf(f, "],\"compiled\":[%s],\"infos\":[%s]}\n", sim_compiled.c_str(), infos.c_str());
  return fclose(f);
}
}
int main(int, char** a) { return hwy::Main(a[1], static_cast<unsigned>(atoi(a[2])), atoi(a[3]), atoi(a[4])); }
#endif

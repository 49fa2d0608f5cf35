// One translation unit with its own set of generated targets; compiled several times (VTU = 0, 1, ...).
#undef HWY_TARGET_INCLUDE
#define HWY_TARGET_INCLUDE "core/dispatch_tu.cc"
#include "hwy/foreach_target.h"
#include "hwy/highway.h"
HWY_BEFORE_NAMESPACE();
namespace hwy { namespace HWY_NAMESPACE { namespace HWY_CONCAT(tu, VTU) {
static int64_t Which(int a) { return static_cast<int64_t>(HWY_TARGET) + a; }
template <class T> int64_t WhichT(T a) { return static_cast<int64_t>(HWY_TARGET) + static_cast<int64_t>(a); }
static void WhichV(int64_t* out) { *out = HWY_TARGET; }
} } }
HWY_AFTER_NAMESPACE();
#if HWY_ONCE
#include <vector>
#define TUNS HWY_CONCAT(tu, VTU)
namespace hwy {
namespace TUNS {
HWY_EXPORT_T(WhichTable, TUNS::Which);
HWY_EXPORT_T(WhichVTable, TUNS::WhichV);
HWY_EXPORT_T(WhichF32, TUNS::WhichT<float>);
int64_t Call(int kind) {
  switch (kind) {
    case 0: return HWY_DYNAMIC_DISPATCH_T(WhichTable)(0);
    case 1: { int64_t r = 0; HWY_DYNAMIC_DISPATCH_T(WhichVTable)(&r); return r; }
    case 2: { auto f = HWY_DYNAMIC_POINTER_T(WhichTable); return f(0); }
    case 3: return HWY_DYNAMIC_DISPATCH_T(WhichF32)(0.f);
    default: return -1;
  }
}
int64_t Targets() { return HWY_TARGETS; }
std::vector<int64_t> Generated() { return hwy::SupportedAndGeneratedTargets(); }
}
}
#endif

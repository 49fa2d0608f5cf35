// Stand-in for the sort library where the code under test only needs "some sort" (auto-tuner medians).
#include <algorithm>
#include "hwy/contrib/sort/vqsort.h"
namespace hwy {
#define STUB(T) \
  void VQSort(T* HWY_RESTRICT k, size_t n, SortAscending) { std::sort(k, k + n); } \
  void VQSort(T* HWY_RESTRICT k, size_t n, SortDescending) { std::sort(k, k + n, [](T a, T b) { return a > b; }); }
STUB(double) STUB(float) STUB(uint64_t) STUB(uint32_t) STUB(int64_t) STUB(int32_t) STUB(uint16_t) STUB(int16_t)
}

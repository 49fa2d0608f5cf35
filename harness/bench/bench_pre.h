// Included before nanobenchmark.cc: the clock is simulated.
#ifndef VERIF_BENCH_PRE_H_
#define VERIF_BENCH_PRE_H_
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <chrono>
#include <ctime>
#include <functional>
#include <numeric>
#include <random>
#include <string>
#include <utility>
#include <vector>
#include "hwy/base.h"
#include "hwy/robust_statistics.h"
#include "hwy/timer.h"
namespace hwy {
namespace timer {
Ticks verif_Start();
Ticks verif_Stop();
}
void verif_Loop();
template <class T> inline void verif_PreventElision(T&& output) { PreventElision(output); verif_Loop(); }
}
#define Start verif_Start
#define Stop verif_Stop
#define PreventElision verif_PreventElision
#endif

// Controlled OpenMP task runtime: replaces libgomp, runs every task as a fiber on one OS thread, asks the explorer at
// every scheduling point which ready task continues, and records the happens-before order and all memory accesses.
#pragma once
#include <cstddef>
#include <functional>
#include <string>
#include <vector>
namespace rt {
struct Opt { int nthreads=2; int policy=0; bool record=true; std::vector<int> prefix; };
struct Res { std::string error, errkind; std::vector<int> width, taken; size_t tasks=0, strands=0, points=0, accesses=0; };
// runs body under the given schedule
// limbs of multiprecision numbers outlive one execution: they stay on the ordinary heap
void*gmalloc(size_t); void*grealloc(void*,size_t,size_t); void gfree(void*,size_t);
Res run(const Opt&o,const std::function<void()>&body);
}

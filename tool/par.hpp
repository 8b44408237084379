#pragma once
#include "core.hpp"
namespace lva {
// runs fn(i) for i in [0,n) in several forked workers and merges their reports into C.R
void parallelFor(Ctx &C, unsigned n, std::function<void(unsigned)> fn);
}

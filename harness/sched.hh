// Controlled scheduler: real threads of which one runs at a time; the explorer decides at each
// scheduling point who goes on. Compiled without instrumentation and synchronised with raw futexes,
// so that the race detector sees no ordering between the threads but their own.
#pragma once
#include <functional>
#include <vector>
#include "mc.hh"
namespace sched {
// Runs all bodies to their end, interleaved as the chooser says (a switch of a thread that could go on is a deviation).
void run(mc::Chooser& ch, const std::vector<std::function<void()>>& bodies);
// A scheduling point.
void point();
// Number of points met by the last run.
std::uint64_t points();
}

// Two-thread interleaving explorer. The code under test is compiled with -fsanitize=thread but linked against
// the access hooks of interleave.cpp: every memory access of the managed threads is seen. A profile of each thread
// running alone gives the memory both threads touch (one of them writing); accesses to it, and explicit
// points, are the scheduling points. All schedules with at most `bound` preemptions are run.
#pragma once
#include <functional>
#include <cstdint>
#include <string>
#include <vector>
namespace sched {
struct Stats { uint64_t schedules, points, conflicts; bool capped; };
extern bool points_enabled;        // explicit points count as scheduling points
void point();                      // explicit scheduling point
// body[t]() runs as managed thread t; check(order) is called after every execution; only conflicting accesses and points are scheduling points
Stats explore(const std::function<void()> (&body)[2], int bound, const std::function<void(const std::string &schedule)> &check, uint64_t max_points = 4000, uint64_t max_schedules = ~0ull);   // preemptions only at the first max_points points; stops after max_schedules
}

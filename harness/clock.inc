// the clocks are owned by the explorer: they advance by clock_step at every reading
#include <chrono>
static long long clock_now_ns = 1000000000ll, clock_step_ns = 0, clock_jump_ns = 3600ll * 1000000000ll; static long clock_reads = 0, clock_jump_at = -1;
static long long clock_read() { ++clock_reads; clock_now_ns += clock_step_ns; if (clock_reads == clock_jump_at) clock_now_ns += clock_jump_ns; return clock_now_ns; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(clock_read())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(clock_read())); }
} } }

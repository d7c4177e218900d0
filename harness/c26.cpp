// C26: tmpmath::round against the C library's round-half-away-from-zero
#include "mc.h"
#include <cslibs_path_planning/common/TmpMath.hpp>
#include <climits>
#include <utility>
static const double LO = -2147483648.5, HI = 2147483647.5;   // open interval of arguments whose rounded value fits
static inline bool in_range(double x) { return x > LO && x < HI; }
static inline void judge(double x)
{
    int r = tmpmath::round(x); double w = std::round(x);
    if (r != (int) w) mc::fail("round(%.17g) is %d, the nearest integer (halves away from zero) is %.0f", x, r, w);
}
static void point(double x)   // value, both neighbours, mirror image
{
    double v[3] = {std::nextafter(x, -INFINITY), x, std::nextafter(x, INFINITY)}; int last = INT_MIN;
    for (double y : v) { if (!in_range(y)) continue; judge(y); if (tmpmath::round(y) < last) mc::fail("round is not monotone at %.17g", y); last = tmpmath::round(y); if (in_range(-y) && tmpmath::round(-y) != -(int64_t) tmpmath::round(y)) mc::fail("round(%.17g) and round(%.17g) are not opposite", y, -y); }
}
// the compile time values: k/2 and k/2 +- 2^-44, 0.5 - 2^-54, powers of two around the limits
static const int N = 4096;
constexpr double arg(int i) { return i < 3072 ? ((i / 3) - 512) / 2.0 + ((i % 3) - 1) * (1.0 / (1ull << 44)) : i < 3584 ? (i - 3072 - 256) * 8388607.75 : i < 3584 + 60 ? (i & 1 ? 1 : -1) * (0.5 - 1.0 / (1ull << (i - 3584 + 1))) : i < 3700 ? 2147483647.0 - (i - 3644) / 4.0 : i < 3756 ? -2147483648.0 + (i - 3700) / 4.0 : (i - 3926) * (1 + 1.0 / 3); }
// evaluated one by one, so that a value that is no constant expression is noticed and not a build failure
template <int> struct Void { typedef void type; };
template <int I, class = void> struct At { static constexpr bool ok = false; static constexpr int v = 0; };
template <int I> struct At<I, typename Void<tmpmath::round(arg(I))>::type> { static constexpr bool ok = true; static constexpr int v = tmpmath::round(arg(I)); };
template <int... I> struct Rows { static const int *v() { static const int t[] = {At<I>::v...}; return t; } static const bool *ok() { static const bool t[] = {At<I>::ok...}; return t; } };
template <int... I> Rows<I...> rows(std::integer_sequence<int, I...>);
typedef decltype(rows(std::make_integer_sequence<int, N>())) Table;
void mc_setup()
{
    mc::family("compile time", N, [](uint64_t i) { volatile double x = arg(i); double y = x; int v = Table::v()[i]; mc::exec(2); mc::step(2); judge(y); if (!Table::ok()[i]) mc::fail("round(%.17g) has no value at compile time", y); if (tmpmath::round(y) != v) mc::fail("round(%.17g) is %d at compile time and %d at run time", y, v, tmpmath::round(y)); mc::state(mc::Hash().u(v).h); if (y != v) mc::nontrivial(); });
    mc::family("every single precision value", 1 << 16, [](uint64_t i) { uint64_t n = 0; for (uint32_t k = 0; k < 65536; ++k) { uint32_t b = (uint32_t) i << 16 | k; float f; memcpy(&f, &b, 4); if (!(f > LO && f < HI)) continue; ++n; judge(f); if (tmpmath::round(f) != (int) std::round(f)) mc::fail("round(%.9gf) is %d", f, tmpmath::round(f)); } mc::exec(n); mc::step(n); mc::state(i); if (n) mc::nontrivial(); }, 512);
    // half integers, integers and their neighbours in double precision: all near zero, near the limits and near powers of two; thorough: all
    mc::family("halves and integers, small and large", 4096, [](uint64_t i) { for (int k = 0; k < 1024; ++k) { double h = ((int64_t) i * 1024 + k - 2097152) / 2.0; point(h); point(h + 0.25); } mc::exec(1024 * 6); mc::step(1024 * 6); mc::nontrivial(1024); });
    mc::family("halves around powers of two and the limits", 2 * 32, [](uint64_t i) { mc::Dec d(i); double s = d(2) ? 1 : -1, c = std::ldexp(1.0, (int) d(32)); for (int k = -4096; k <= 4096; ++k) { double x = s * (c + k / 4.0); if (in_range(x)) { point(x); mc::exec(3); mc::step(3); mc::nontrivial(); } } });
    mc::family("tiny, zero and denormal arguments", 1080, [](uint64_t i) { for (double m : {1.0, 1.5, 1.9999999999999998}) for (double s : {-1.0, 1.0}) { double x = s * std::ldexp(m, -(int) i); if (in_range(x)) point(x); } point(0.0); point(-0.0); mc::exec(8); mc::step(8); });
    mc::family("values next to one half", 64, [](uint64_t i) { double lo = 0.5, hi = 0.5; for (uint64_t k = 0; k < i * 64; ++k) { lo = std::nextafter(lo, 0); hi = std::nextafter(hi, 1); } for (int k = 0; k < 64; ++k) { for (double b : {lo, hi}) for (double o : {0.0, 1.0, 7.0, 1000.0}) point(b + o); lo = std::nextafter(lo, 0); hi = std::nextafter(hi, 1); } mc::exec(64 * 24); mc::step(64 * 24); mc::nontrivial(64); });
    if (mc::thorough) mc::family("every half integer in range and its neighbours", 1 << 16, [](uint64_t i) { for (uint32_t k = 0; k < 65536; ++k) { double h = (double) ((int64_t) (i << 16 | k) - 2147483648ll) + 0.5; point(h); } mc::exec(65536 * 3); mc::step(65536 * 3); mc::state(i); mc::nontrivial(); }, 512, 120);
    mc::bound("every single precision value whose rounding fits an int; in double precision all half and quarter steps up to +-1048576 and 4096 quarter steps around every power of two and both limits, each with its two neighbouring values%s; 4096 values evaluated at compile time", mc::thorough ? "; every half integer of the int range with its neighbours" : "");
    mc::assumption("std::round of the C library is the reference");
}

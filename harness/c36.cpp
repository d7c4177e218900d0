// C36: robots of the four wheel steering simulator drive the arcs of their steering angles and mark the cells they visit
#include "mc.h"
#include <opencv2/core/core_c.h>
#include <opencv2/core.hpp>
#include <cstdlib>
#include <ctime>
#include <iostream>
#include <set>
#include <vector>
using namespace std;
#include <cslibs_path_planning/common/path4ws_simulator.h>
#include <cslibs_path_planning/../../src/common/path4ws_simulator.cpp>
using mc::Dec;
// the environment: random numbers. Every draw is recorded
static std::vector<unsigned> script; static size_t drawn = 0; static bool own = false;
static int draw() { if (!own) return 0; unsigned v = drawn < script.size() ? script[drawn] : script.empty() ? 0 : script[script.size() - 2 + (drawn & 1)]; ++drawn; return v + 11 * 7; }
extern "C" int rand() __THROW { return draw(); }
static const double DEG = M_PI / 180;
struct R4 { double x = 0, y = 0, th = 0, beta = 0, f = 0, r = 0;
    void drive(double d, double l) { double nb = std::atan(0.5 * (std::tan(f) + std::tan(r))), k = std::cos(beta) * (std::tan(f) - std::tan(r)) / l, dir = th + k * d / 2 + (beta + nb) / 2; x += d * std::cos(dir); y += d * std::sin(dir); th += k * d; beta = nb; } };
// one robot with any steering, step by step
static void robot(uint64_t i)
{
    Dec d(i); int f = d(21), r = d(21); double len = (int) d(5) * 0.3 - 0.6, l = d(2) ? 0.5 : 1.25; Bot4ws b; b.l_ = l; R4 m; double heading = (int) d(4) * 1.3; b.theta_ = heading; m.th = heading; mc::describe(mc::fmt("steering %d and %d degrees, steps of %g", f * 4 - 40, r * 4 - 40, len));
    for (int k = 0; k < 40; ++k) { int df = k < 20 ? f : r, dr = k < 20 ? r : k < 30 ? r : f; b.deltaf_ = (df * 4 - 40) * DEG; b.deltar_ = (dr * 4 - 40) * DEG; m.f = (df * 4 - 40) * DEG; m.r = (dr * 4 - 40) * DEG; float ox = b.x_, oy = b.y_, ot = b.theta_; b.update(len); m.drive(len, l); mc::step();
        double tol = 2e-4 * (1 + k); if (std::hypot(b.x_ - m.x, b.y_ - m.y) > tol || std::fabs(b.theta_ - m.th) > tol || std::fabs(b.beta_ - m.beta) > 1e-5) mc::fail("steering %d and %d degrees, step %d of %g, wheel base %g: (%g,%g,%g) slip %g, but the robot is at (%g,%g,%g) slip %g", df * 4 - 40, dr * 4 - 40, k, len, l, b.x_, b.y_, b.theta_, b.beta_, m.x, m.y, m.th, m.beta);
        if (std::fabs(std::hypot(b.x_ - ox, b.y_ - oy) - std::fabs(len)) > 1e-4) mc::fail("steering %d and %d degrees: step %d of %g is %g long", df * 4 - 40, dr * 4 - 40, k, len, std::hypot(b.x_ - ox, b.y_ - oy)); (void) ot; }
    // constant steering closes a circle about one point: the centre stays in place
    mc::exec(); if (f != r && len != 0) mc::nontrivial(); mc::state(mc::Hash().q(b.x_, 1e-3).q(b.y_, 1e-3).q(b.theta_, 1e-3).h);
}
// the picture after every step: white but for the cells visited; both orders of drawing front and rear angles are possible, but one of them throughout
static void simulator(uint64_t i, int changes, int steps, int robots, bool again)
{
    own = true; drawn = 0; Path4wsSimulator sim; sim.setNumBots(robots); if (again) { for (int k = 0; k < 5; ++k) sim.step(); sim.reset(); } CvArr *img = sim.getImage(); cv::Mat pic(1000, 1000, CV_8UC1, ((IplImage *) img)->imageData, ((IplImage *) img)->widthStep); if (((IplImage *) img)->width != 1000 || ((IplImage *) img)->height != 1000) mc::fail("the picture is %dx%d", ((IplImage *) img)->width, ((IplImage *) img)->height);
    struct Free { CvArr *p; ~Free() { IplImage *q = (IplImage *) p; cvReleaseImage(&q); own = false; } } release{img};
    if (cv::countNonZero(pic) != 1000000) mc::fail("the picture is not white at first"); std::vector<std::vector<R4>> m(2, std::vector<R4>(robots)); if (again) for (auto &v : m) for (auto &b : v) for (int k = 0; k < 5; ++k) b.drive(0.1, 0.5);
    std::set<std::pair<int, int>> sure[2], maybe[2]; bool ok[2] = {true, true}; std::string why[2]; int last = -1, since = 0; size_t used = drawn;
    for (int k = 0; k < steps; ++k) { sim.step(); mc::step(); ++since; if (drawn != used) { if (drawn - used != 2u * robots) mc::fail("step %d draws %zu numbers for %d robots", k, drawn - used, robots); if (last >= 0 && since < 9) mc::fail("the steering is changed again after %d steps", since); last = k; since = 0; for (int o = 0; o < 2; ++o) for (int b = 0; b < robots; ++b) { auto at = [&](size_t n) { return n < script.size() ? script[n] : script[script.size() - 2 + (n & 1)]; }; double p = (int) at(used + 2 * b) * 4 - 20, q = (int) at(used + 2 * b + 1) * 4 - 20; m[o][b].f = (o ? q : p) * DEG; m[o][b].r = (o ? p : q) * DEG; } used = drawn; }
        if (since > 12) mc::fail("the steering is not changed for %d steps", since); bool whole = k % 40 == 29 || k + 1 == steps; std::vector<std::pair<int, int>> black; if (whole) for (int x = 0; x < 1000; ++x) { const uint8_t *r = pic.ptr<uint8_t>(x), *p = r; while ((p = (const uint8_t *) memchr(p, 0, r + 1000 - p))) { black.push_back({x, (int) (p - r)}); ++p; } }
        for (int o = 0; o < 2; ++o) { if (!ok[o]) continue; for (auto &b : m[o]) { b.drive(0.1, 0.5); double e = 0.003 * (1 + k / 20.); int x0 = std::floor(b.x / 0.1 + 500 - e), x1 = std::floor(b.x / 0.1 + 500 + e), y0 = std::floor(b.y / 0.1 + 500 - e), y1 = std::floor(b.y / 0.1 + 500 + e); bool one = x0 == x1 && y0 == y1; auto in = [](int x, int y) { return x >= 0 && y >= 0 && x < 1000 && y < 1000; };
                for (int y = y0; y <= y1; ++y) for (int x = x0; x <= x1; ++x) if (in(x, y)) (one ? sure : maybe)[o].insert({x, y}); if (one && in(x0, y0) && pic.at<uint8_t>(x0, y0) != 0) { ok[o] = false; why[o] = mc::fmt("step %d: cell (%d,%d) is visited and not black", k, x0, y0); } }
            if (whole && ok[o]) for (auto &p : black) if (!sure[o].count(p) && !maybe[o].count(p)) { ok[o] = false; why[o] = mc::fmt("step %d: cell (%d,%d) is black, but no robot was there", k, p.first, p.second); } }
        if (!ok[0] && !ok[1]) { std::string s; for (unsigned v : script) s += mc::fmt("%d ", v * 4 - 20); mc::fail("%d robots, steering %s: %s", robots, s.c_str(), why[0].c_str()); } }
    if (last < 0 && steps > 12) mc::fail("the steering is never drawn"); mc::exec(); mc::nontrivial(); mc::state(mc::Hash().u(sure[0].size()).q(m[0][0].x, 1e-2).q(m[0][0].y, 1e-2).h);
}
void mc_setup()
{
    mc::family("robot", 21 * 21 * 5 * 2 * 4, robot);
    mc::family("two changes of steering", mc::ipow(11, 4), [](uint64_t i) { Dec d(i); script.clear(); for (int k = 0; k < 4; ++k) script.push_back(d(11)); if (!mc::thorough && (script[2] % 3 || script[3] % 3)) return; mc::describe(mc::fmt("steering %d %d %d %d", script[0], script[1], script[2], script[3])); simulator(i, 2, 30, 1, i % 5 == 0); }, 16);
    mc::family("across the edges", 121 * 25 * 2, [](uint64_t i) { Dec d(i); int a = d(11), b = d(11), c = d(5) * 2 + 1, e = d(5) * 2 + 1; int crab = d(2); script = {(unsigned) a, (unsigned) b, (unsigned) a, (unsigned) b, (unsigned) c, (unsigned) e, 5u + (unsigned) crab * 3, 5u + (unsigned) crab * 3}; if (!mc::thorough && i % 5) return; mc::describe(mc::fmt("steering %d %d, then %d %d, then straight on", a, b, c, e)); simulator(i, 3, mc::thorough ? 1100 : 640, 1, false); }, 16);
    mc::family("three robots", 121 * 11, [](uint64_t i) { Dec d(i); script.clear(); for (int k = 0; k < 12; ++k) script.push_back((k < 3 ? d(11) : (k * 5 + i) % 11)); mc::describe("three robots"); simulator(i, 2, 30, 3, i % 2); }, 16);
    mc::bound("every pair of steering angles from -40 to 40 degrees in steps of 4, five step lengths, two wheel bases; simulator: every pair of front/rear angles followed by every (quick: every third) pair, one and three robots, runs of %d steps across the edges of the picture", mc::thorough ? 1100 : 640);
    mc::assumption("front and rear angles may be drawn in either order; cells within rounding of a robot's position may or may not be marked; the interval between changes of steering is only required to be 9 to 12 steps");
}

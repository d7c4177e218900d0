// C20: goal regions and the sampling planner
#include "rs.h"
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <iostream>
#include <cstdlib>
#include <ctime>
using namespace rs; using mc::Dec;
// the random source and the clock belong to the explorer
static std::function<int()> next_rand; static time_t now_ = 1000;
extern "C" int rand(void) noexcept { return next_rand ? next_rand() : 0; }
extern "C" void srand(unsigned) noexcept {}
extern int verif_angle_mode;
struct Mute { std::streambuf *o, *e; Mute() : o(std::cout.rdbuf(nullptr)), e(std::cerr.rdbuf(nullptr)) {} ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); std::cerr.clear(); } };
static const int RV[] = {0, RAND_MAX / 2, RAND_MAX, 1, RAND_MAX / 3};
static void ring(uint64_t i)
{
    Dec d(i); int rad = d(6), wid = d(4), ctr = d(4), n = d(mc::thorough ? 60 : 26), restart = d(3); verif_angle_mode = i & 1; Mute mute;
    static const double RAD[] = {2.0, -2.0, 0.5, 7.25, -0.3, 0.0}, WID[] = {0, 0.5, 2.0, 0.01}; static const double CX[] = {0, 3.5, -4.25, 100}, CY[] = {0, -1.5, 6, -80};
    mc::describe(mc::fmt("ring region radius %g width %g centre (%g,%g), %d samples", RAD[rad], WID[wid], CX[ctr], CY[ctr], n));
    RingGoalRegion g(Point2d(CX[ctr], CY[ctr]), RAD[rad], WID[wid]);
    if (restart) { g.init(restart == 1 ? n + 3 : 5); Pose2d p; double k; for (int j = 0; j < (restart == 1 ? 2 : 7); ++j) g.getNextGoal(p, k); }
    int calls = 0; std::vector<int> vals(n + 2, 0);
    auto run = [&](const std::function<int(int)> &val) {
        g.init(n); mc::step(); calls = 0; std::vector<Pose2d> out;
        next_rand = [&]() { int v = val(calls); vals[std::min(calls, n + 1)] = v; ++calls; return v; };
        for (int k = 0; k < n + 3; ++k) {
            Pose2d p(77, 77, 77); double gain = -5; bool more = g.getNextGoal(p, gain); mc::step();
            if (more != (k < n)) mc::fail("sample %d of %d: %s", k, n, more ? "handed out beyond the number configured" : "the end is reported too early");
            if (!more) continue;
            double dist = std::hypot(p.x - CX[ctr], p.y - CY[ctr]), lo = std::max(0.0, std::fabs(RAD[rad]) - WID[wid] / 2), hi = std::fabs(RAD[rad]) + WID[wid] / 2;
            double alpha = k * TAU / n;
            if (std::fabs(RAD[rad]) >= WID[wid] / 2) {
                if (dist < lo - 1e-9 || dist > hi + 1e-9) mc::fail("sample %d is %g from the centre, the ring is [%g,%g]", k, dist, lo, hi);
                if (dist > 1e-9 && std::fabs(wrap(atan2(p.y - CY[ctr], p.x - CX[ctr]) - alpha)) > 1e-6) mc::fail("sample %d of %d is at angle %g instead of %g", k, n, atan2(p.y - CY[ctr], p.x - CX[ctr]), alpha);
            } else if (dist > hi + 1e-9) mc::fail("sample %d is %g from the centre, the ring ends at %g", k, dist, hi);
            double want = alpha + (RAD[rad] < 0 ? -M_PI / 2 : M_PI / 2);
            if (std::fabs(wrap(p.theta - want)) > 1e-9) mc::fail("sample %d of %d heads to %g instead of %g", k, n, p.theta, wrap(want));
            if (gain != 1.0) mc::fail("sample %d has gain %g", k, gain);
            out.push_back(p);
        }
        mc::exec(); if (n > 1) mc::nontrivial();
        return out;
    };
    std::vector<Pose2d> a = run([&](int) { return RV[0]; });
    // the whole width is used: the radii at the ends of the random range are the borders of the ring
    std::vector<Pose2d> b = run([&](int) { return RAND_MAX; });
    if (n && RAD[rad] && std::fabs(RAD[rad]) >= WID[wid]) {
        double da = std::hypot(a[0].x - CX[ctr], a[0].y - CY[ctr]), db = std::hypot(b[0].x - CX[ctr], b[0].y - CY[ctr]);
        if (std::fabs(std::fabs(da - db) - WID[wid]) > 1e-6 * (1 + WID[wid])) mc::fail("the samples at both ends of the random range are %g apart, the ring is %g wide", std::fabs(da - db), WID[wid]);
    }
    std::vector<Pose2d> c = run([&](int) { return RV[0]; });
    for (size_t k = 0; k < a.size(); ++k) if (a[k].x != c[k].x || a[k].y != c[k].y || a[k].theta != c[k].theta) mc::fail("after a restart sample %zu differs with the same random values", k);
    if (n <= 5) { uint64_t all = mc::ipow(5, n); for (uint64_t j = 0; j < all; ++j) run([&](int k) { Dec e(j); int v = 0; for (int q = 0; q <= std::min(k, n - 1); ++q) v = e(5); return RV[v]; }); }
    else for (int v = 0; v < 5; ++v) run([&](int k) { return RV[(v + k) % 5]; });
    mc::state(mc::Hash().u(n).u(rad).u(wid).u(ctr).h); next_rand = nullptr;
}
static void centroid(uint64_t i)
{
    Dec d(i); int rad = d(4), ang = d(11), ctr = d(3), dirn = d(16), n = d(mc::thorough ? 40 : 14), restart = d(3); verif_angle_mode = i & 1;
    static const double RAD[] = {1.0, 0.25, 5.5, 0}, ANG[] = {0, 1e-7, 0.1, 1.0, M_PI / 2, M_PI, -1.0, TAU, 3.7, -4.2, 5e-4}; static const double CX[] = {0, 3.5, -40.25}, CY[] = {0, -1.5, 6};
    double th = dirn * TAU / 16 + (ctr ? 0.03 : 0), dist = 4 + ctr; Point2d src(CX[ctr] - dist * cos(th), CY[ctr] - dist * sin(th));
    mc::describe(mc::fmt("centroid region radius %g angle %g, approach %g, %d samples", RAD[rad], ANG[ang], th, n));
    CentroidRadiusGoalRegion g(src, Point2d(CX[ctr], CY[ctr]), RAD[rad], ANG[ang]); Pose2d p; double gain;
    if (restart) { g.init(restart == 1 ? 4 : 1); for (int j = 0; j < restart; ++j) g.getNextGoal(p, gain); }
    double full = std::fabs(ANG[ang]); int want = n <= 1 || full < 1e-6 ? 1 : n; std::vector<Pose2d> first;
    for (int rep = 0; rep < 3; ++rep) {
        g.init(n); mc::step();
        for (int k = 0; k < want + 3; ++k) {
            p = Pose2d(77, 77, 77); gain = -5; bool more = g.getNextGoal(p, gain); mc::step();
            if (more != (k < want)) mc::fail("sample %d of %d: %s", k, want, more ? "handed out beyond the number configured" : "the end is reported too early");
            if (!more) continue;
            double t = want == 1 ? th : th - full / 2 + full * k / (want - 1), rel = want == 1 ? 0 : std::fabs(2.0 * k / (want - 1) - 1.0);
            if (std::fabs(wrap(p.theta - t)) > 1e-6) mc::fail("sample %d of %d heads to %g instead of %g", k, want, p.theta, wrap(t));
            if (std::fabs(p.x - (CX[ctr] - RAD[rad] * cos(t))) > 1e-5 || std::fabs(p.y - (CY[ctr] - RAD[rad] * sin(t))) > 1e-5) mc::fail("sample %d of %d is at (%g,%g), not at radius %g looking at the centre", k, want, p.x, p.y, RAD[rad]);
            if (std::fabs(gain - (1 + rel)) > 1e-9) mc::fail("sample %d of %d has gain %g instead of %g", k, want, gain, 1 + rel);
            if (rep == 0) first.push_back(p); else if (first[k].x != p.x || first[k].y != p.y || first[k].theta != p.theta) mc::fail("after a restart sample %d differs", k);
        }
        mc::exec(); if (want > 1) mc::nontrivial();
    }
    mc::state(mc::Hash().u(n).u(rad).u(ang).u(ctr).u(dirn).h);
}
// --- the sampling planner ---------------------------------------------------------------------------
struct ListRegion : GoalRegion {
    std::vector<Pose2d> p; std::vector<double> g; size_t at = 9999; unsigned asked = 0; int inits = 0;
    void init(unsigned n) { at = 0; asked = n; ++inits; }
    bool getNextGoal(Pose2d &goal, double &gain) { if (at >= p.size()) return false; goal = p[at]; gain = g[at]; ++at; return true; }
};
enum { SW = 40, SH = 36 };
static std::unique_ptr<SimpleGridMap2d> smap(int kind, double res, int walls)
{
    std::unique_ptr<SimpleGridMap2d> m; if (kind == 2) m.reset(new RotatedGridMap2d(SW, SH, 0.7, res)); else m.reset(new SimpleGridMap2d(SW, SH, res));
    ((GridMap2d *) m.get())->setOrigin(kind ? Point2d(-3.5, 8.25) : Point2d(0, 0)); m->setLowerThreshold(60); m->setUpperThreshold(120);
    for (int y = 0; y < SH; ++y) for (int x = 0; x < SW; ++x) { bool o = ((walls & 1) && x >= 27 && x < 34 && y >= 20) || ((walls & 2) && y < 9) || ((walls & 4) && x >= 28 && y < 16); m->setValue(x, y, o ? 255 : 0); }
    return m;
}
static Pose2d world(const GridMap2d &m, double cx, double cy, double th, double rot) { double px, py; m.cell2pointSubPixel(cx, cy, px, py); return Pose2d(px, py, th + rot); }
static const char *WORDS[] = {"LSL", "LSR", "RSL", "RSR", "LRL", "RLR", "L|R|L", "|LS|R"};
static void planner(uint64_t i)
{
    Dec d(i); int kind = d(3), walls = d(8), order = d(24), gains = d(6), drop = d(16), startk = d(3);
    double res = kind == 1 ? 0.5 : 1.0, rot = kind == 2 ? 0.7 : 0; Mute mute;
    mc::describe(mc::fmt("sampling planner, map kind %d, obstacles %d, order %d, gains %d, goals left out %d", kind, walls, order, gains, drop));
    auto m = smap(kind, res, walls); CurveGenerator g; g.set_circle_radius(3 * res); g.set_max_waypoint_distance(0.5 * res); std::stringstream ss;
    for (auto w : WORDS) g.parse(w, ss);
    // four goals (and one outside the map, one too close): permuted, each possibly missing
    static const double GC[4][3] = {{30.5, 28.2, 0.4}, {14.3, 4.2, -1.2}, {34.2, 8.7, 2.0}, {24.4, 17.9, 3.0}};
    static const double GN[6][4] = {{1, 1, 1, 1}, {2, 1, 1, 1.5}, {1, 3, 1, 1}, {1.2, 1.1, 0.5, 4}, {9, 9, 9, 0.1}, {1e6, 1e5, 1e6, 1e6}};
    int perm[4] = {0, 1, 2, 3}; for (int k = 0; k < order; ++k) std::next_permutation(perm, perm + 4);
    double sx = startk == 0 ? 12.3 : 8.4, sy = startk == 0 ? 16.2 : 22.5, sth = startk == 0 ? 0.3 : -0.9;
    Pose2d start = world(*m, sx, sy, sth, rot); if (startk == 2) start = world(*m, -2.5, 11, 0, rot);
    ListRegion r; std::vector<Pose2d> cells;
    r.p.push_back(world(*m, SW + 3.5, 5, 0, rot)); r.g.push_back(0.01); cells.push_back(Pose2d(SW + 3.5, 5, 0));
    for (int k = 0; k < 4; ++k) if (!(drop >> perm[k] & 1)) { auto &c = GC[perm[k]]; r.p.push_back(world(*m, c[0], c[1], c[2], rot)); r.g.push_back(GN[gains][perm[k]]); cells.push_back(Pose2d(c[0], c[1], c[2])); }
    // reference: the same generator asked for each goal by itself (its answers are the subject of C18 and C19)
    double best = 1e300; std::vector<double> cost(r.p.size(), 1e300);
    if (startk != 2) for (size_t k = 1; k < r.p.size(); ++k) { CurveGenerator f; f.set_circle_radius(3 * res); f.set_max_waypoint_distance(0.5 * res); for (auto w : WORDS) f.parse(w, ss); std::unique_ptr<Curve> c(f.find_path(Pose2d(sx, sy, sth), cells[k], m.get())); if (c && c->is_valid()) { cost[k] = c->weight() * r.g[k]; best = std::min(best, cost[k]); } }
    SamplingPlanner p(&g, m.get());
    for (int rep = 0; rep < 2; ++rep) {
        r.at = 9999; std::unique_ptr<Curve> c(p.createPath(start, &r, 7)); mc::step(); mc::exec();
        if (startk == 2) { if (c) mc::fail("a path is reported for a start outside the map"); continue; }
        if (r.asked != 7) mc::fail("the region is asked for %u samples instead of 7", r.asked);
        if (!c) { if (best < 1e299) mc::fail("nothing found, a sample of cost %g is reachable", best); mc::state(7); continue; }
        if (!c->is_valid()) mc::fail("the curve reported is not valid");
        bool ok = false; double got = 1e300;
        for (size_t k = 0; k < cells.size(); ++k) { Pose2d e = c->goal(); if (std::hypot(e.x - cells[k].x, e.y - cells[k].y) < 1e-6 && std::fabs(wrap(e.theta - cells[k].theta)) < 1e-6) { got = c->weight() * r.g[k]; if (std::fabs(cost[k] - got) <= 1e-3 + 1e-4 * got && got <= best + 1e-3 + 1e-4 * best) ok = true; } }
        if (!ok) mc::fail("the path to (%g,%g) has gain-weighted cost %g, the least is %g", c->goal().x, c->goal().y, got, best);
        Pose2d s = c->start(); if (std::hypot(s.x - sx, s.y - sy) > 1e-6 || std::fabs(wrap(s.theta - sth)) > 1e-6) mc::fail("the path starts at (%g,%g,%g), the start is at cell (%g,%g,%g)", s.x, s.y, s.theta, sx, sy, sth);
        mc::nontrivial(); mc::state(mc::Hash().q(got, 1e-3).h);
    }
}
// the real regions through the planner: the result is the cheapest of the samples they hand out
static void regions(uint64_t i)
{
    Dec d(i); int kind = d(3), which = d(4), walls = d(8), n = 1 + d(9); double res = kind == 1 ? 0.5 : 1.0, rot = kind == 2 ? 0.7 : 0; Mute mute;
    mc::describe(mc::fmt("planner with region %d, %d samples, map kind %d, obstacles %d", which, n, kind, walls));
    auto m = smap(kind, res, walls); CurveGenerator g; g.set_circle_radius(3 * res); g.set_max_waypoint_distance(0.5 * res); std::stringstream ss; for (auto w : WORDS) g.parse(w, ss);
    next_rand = []() { return RAND_MAX / 3; };
    Pose2d start = world(*m, 9.3, 15.2, 0.3, rot); double cx, cy; m->cell2pointSubPixel(26.2, 18.3, cx, cy);
    std::unique_ptr<GoalRegion> r[2]; for (auto &x : r) { if (which == 0) x.reset(new RingGoalRegion(Point2d(cx, cy), 5 * res, res)); else if (which == 1) x.reset(new RingGoalRegion(Point2d(cx, cy), -7 * res, 0)); else x.reset(new CentroidRadiusGoalRegion(Point2d(start), Point2d(cx, cy), 4 * res, which == 2 ? 1.5 : 5.0)); }
    r[1]->init(n); Pose2d goal; double gain, best = 1e300;
    while (r[1]->getNextGoal(goal, gain)) { if (!m->isInMap(goal.x, goal.y)) continue; std::unique_ptr<Curve> c(g.find_path(pos2map(start, *m), pos2map(goal, *m), m.get())); mc::step(); if (c && c->is_valid()) best = std::min(best, gain * c->weight()); }
    SamplingPlanner p(&g, m.get()); std::unique_ptr<Curve> c(p.createPath(start, r[0].get(), n)); mc::exec();
    if (!c) { if (best < 1e299) mc::fail("nothing found, a sample of cost %g is reachable", best); return; }
    if (c->weight() > best * (1 + 1e-6)) mc::fail("curve of weight %g, a sample has the gain-weighted weight %g", c->weight(), best);
    mc::nontrivial(); mc::state(mc::Hash().q(c->weight(), 1e-3).h); next_rand = nullptr;
}
void mc_setup()
{
    mc::bound("ring regions: 6 radii (both directions), 4 widths, 4 centres, up to %d samples, every assignment of 5 boundary values of the random source up to 5 samples; fresh and restarted", mc::thorough ? 59 : 25);
    mc::bound("centroid regions: 4 radii, 11 opening angles, 48 approach directions, up to %d samples; fresh and restarted", mc::thorough ? 39 : 13);
    mc::bound("planner: 3 map kinds, 8 obstacle layouts, every order and subset of 4 goals plus one outside, 6 gain patterns; real regions with up to 9 samples");
    mc::family("ring regions", 6 * 4 * 4 * (mc::thorough ? 60 : 26) * 3, ring);
    mc::family("centroid regions", 4 * 11 * 3 * 16 * (mc::thorough ? 40 : 14) * 3, centroid);
    mc::family("planner", 3 * 8 * 24 * 6 * 16 * 3, planner);
    mc::family("planner with regions", 3 * 4 * 8 * 9, regions);
}

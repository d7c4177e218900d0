// the steering planners under test and a model of their kinematics
#pragma once
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
typedef DynamicSteeringNeighborhood DSN;
typedef AStarDynamicSearch<DSN, NoExpansion, Pose2d, GridMap2d, 1> SD;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD> SN1;
typedef SteeringNeighborhood<100, 2, 20, 40, 200, SteeringMoves::FORWARD_BACKWARD> SN2;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD> SNF;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD, true> SNR;
typedef AStarDynamicSearch<SN1, NoExpansion, Pose2d, GridMap2d, 1> S1;
typedef AStarDynamicSearch<SN2, NoExpansion, Pose2d, GridMap2d, 1> S2;
typedef AStarDynamicSearch<SNF, NoExpansion, Pose2d, GridMap2d, 1> SF;
typedef AStarDynamicSearch<SNR, NoExpansion, Pose2d, GridMap2d, 1> SR;
typedef SteeringNeighborhood<100, 2, 20, 50, 300, SteeringMoves::FORWARD_BACKWARD> SN3;
typedef SteeringNeighborhood<100, 1, 25, 40, 200, SteeringMoves::FORWARD_BACKWARD, true> SNR2;
typedef AStarDynamicSearch<SN3, NoExpansion, Pose2d, GridMap2d, 1> S3;
typedef AStarDynamicSearch<SNR2, NoExpansion, Pose2d, GridMap2d, 1> SR2;
// uninformed searches with these neighbourhoods
template <class N> using Plain = GenericSearchAlgorithm<GenericParameter<Pose2d, NoHeuristic, GridMap2d, N, NoExpansion, PriorityQueueManager, DynamicDirectionalStateSpaceManager, 1, 0>>;
struct Cfg { double step, la, delta; int steps, maxs; bool fwd, bwd, rev, dyn; double dist_thr, ang_thr; int straight = 1; };
template <class A> Cfg cfg() { return {DSN::distance_step, DSN::LA, DSN::STEER_DELTA, (int) DSN::steer_steps, DSN::MAX_STEER_ANGLE, DSN::allow_forward, DSN::allow_backward, DSN::reversed, true, DSN::goal_dist_threshold, DSN::goal_angle_threshold}; }
template <> Cfg cfg<S1>() { return {1, 1.2, 30, 1, 60, true, true, false, false, 0.1, M_PI / 8}; }
template <> Cfg cfg<S2>() { return {1, 2, 20, 2, 40, true, true, false, false, 0.1, M_PI / 8, 2}; }
template <> Cfg cfg<S3>() { return {1, 3, 20, 2, 50, true, true, false, false, 0.1, M_PI / 8, 3}; }
template <> Cfg cfg<SR2>() { return {1, 2, 25, 1, 40, true, true, true, false, 0.1, M_PI / 8, 2}; }
template <> Cfg cfg<SF>() { return {1, 1.2, 30, 1, 60, true, false, false, false, 0.1, M_PI / 8}; }
template <> Cfg cfg<SR>() { return {1, 1.2, 30, 1, 60, true, true, true, false, 0.1, M_PI / 8}; }
template <> Cfg cfg<Plain<SN1>>() { return cfg<S1>(); }
template <> Cfg cfg<Plain<SN3>>() { return cfg<S3>(); }
template <> Cfg cfg<Plain<SNF>>() { return cfg<SF>(); }
template <> Cfg cfg<Plain<SNR>>() { return cfg<SR>(); }
template <> Cfg cfg<Plain<SNR2>>() { return cfg<SR2>(); }
static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
static const double BIN = 2 * M_PI / 31 + 1e-6;
struct S { double x, y, th; int steer; bool fwd; double cost; int left; };
// one motion primitive, independent of the code: the car turns about a point at distance LA / tan(steer) beside it
static S drive(const S &a, const Cfg &c, double res, int steer, bool fwd, double len)
{
    double dir = fwd != c.rev ? 1 : -1, s = len * dir, k = std::tan(steer * M_PI / 180) / c.la; S b = a; b.steer = steer; b.fwd = fwd; b.th = a.th + k * s;
    double chord = std::fabs(k) < 1e-12 ? s : 2 / k * std::sin(k * s / 2), mid = a.th + k * s / 2; b.x = a.x + chord * std::cos(mid) / res; b.y = a.y + chord * std::sin(mid) / res; return b;
}
static std::vector<int> steerings(int from, const Cfg &c) { std::vector<int> r{from}; for (int k = 1; k <= c.steps; ++k) for (int sg : {-1, 1}) { int s = from + sg * (int) (c.delta * k); s = std::max(-c.maxs, std::min(c.maxs, s)); r.push_back(s); } return r; }
// all moves allowed in state a; `first`: a is the start of the search
static std::vector<S> moves(const S &a, const Cfg &c, double res, bool first, const SearchOptions &so)
{
    std::vector<S> r; for (int f = 0; f < 2; ++f) {
        bool fwd = f; if (fwd ? !c.fwd : !c.bwd) continue; if (first && a.fwd != fwd) continue;
        if (first && !fwd && c.dyn && !c.rev) { S b = drive(a, c, res, 0, false, c.la); b.cost = a.cost + c.la * so.penalty_backward; r.push_back(b); continue; }
        for (int s : steerings(a.steer, c)) { bool sw = !first && a.fwd != fwd; if (sw && s) continue; S b = drive(a, c, res, s, fwd, c.step); b.cost = a.cost + c.step * (sw ? so.penalty_turn : 1) * (fwd ? 1 : so.penalty_backward); r.push_back(b); }
    } return r;
}
// n: straight motions in a row into a state, left: straight ones owed after a change of direction; N of them are driven after it and N - 1 before
struct K { int n = 0, left = 0; };
static bool allowed(const S &a, const K &k, const S &b, int N, bool first) { if (first) return true; if (a.fwd == b.fwd) return !(k.left && b.steer); return !b.steer && !k.left && k.n >= N - 1; }
static K follow(const S &a, const K &k, const S &b, int N, bool first) { K r; r.n = b.steer ? 0 : k.n + 1; r.left = !first && a.fwd != b.fwd ? N - 1 : k.left ? k.left - 1 : 0; return r; }
static bool line_ok(const Grid &g, const S &a, const S &b, int pad, std::string &why)
{
    int x0 = std::floor(a.x), y0 = std::floor(a.y), x1 = std::floor(b.x), y1 = std::floor(b.y), skip = 0.5 / g.res;
    if (x1 < -pad || y1 < -pad || x1 >= g.w + pad || y1 >= g.h + pad) { why = mc::fmt("leaves the planning area at (%g,%g)", b.x, b.y); return false; }
    if (g.in(x1, y1) && g.occ(x1, y1)) { why = mc::fmt("pose (%g,%g) lies on an occupied cell", b.x, b.y); return false; }
    if (skip) return true; bool any = false;   // a pose within rounding of a cell's edge may count as in either cell
    for (int v = 0; v < 16 && !any; ++v) { x0 = std::floor(a.x + (v & 4 ? 1e-9 : -1e-9)); y0 = std::floor(a.y + (v & 8 ? 1e-9 : -1e-9)); x1 = std::floor(b.x + (v & 1 ? 1e-9 : -1e-9)); y1 = std::floor(b.y + (v & 2 ? 1e-9 : -1e-9)); int n = std::max(std::abs(x1 - x0), std::abs(y1 - y0)); bool good = true; for (int i = 1; i < n && good; ++i) { double fx = x0 + 0.5 + (double) (x1 - x0) * i / n, fy = y0 + 0.5 + (double) (y1 - y0) * i / n; if (fx == std::floor(fx) || fy == std::floor(fy)) continue; if (g.in(std::floor(fx), std::floor(fy)) && g.occ(std::floor(fx), std::floor(fy))) { why = mc::fmt("crosses the occupied cell (%g,%g)", std::floor(fx), std::floor(fy)); good = false; } } any = good; }
    if (!any) return false;
    return true;
}
template <class A> std::vector<S> search(A &a, const Query &q, const SearchOptions &so, int cap, const std::function<void()> &step = {})
{
    std::vector<S> r; a.setTimeLimit(3); clock_reads = 0; clock_step_ns = 0; clock_jump_at = cap; mc::step();
    typename A::PathT p; try { if (step) p = a.findPath(q.s, q.t, step, so); else p = a.findPath(q.s, q.t, so); } catch (const OutsideMapException &) {} catch (const std::logic_error &) {}
    for (auto &n : p) r.push_back({n.x, n.y, n.theta, n.steering_angle, n.forward, n.distance, n.custom}); return r;
}
static std::string show(const std::vector<S> &p) { std::string s; for (auto &n : p) s += mc::fmt("(%.3f,%.3f,%.3f%s%d)", n.x, n.y, n.th, n.fwd ? ">" : "<", n.steer); return s; }
static std::string judge(const Grid &g, std::vector<S> p, const Query &q, const Cfg &c, const SearchOptions &so, bool end = true)
{
    if (p.empty()) return "";
    if (c.rev) std::reverse(p.begin(), p.end());
    const Pose2d &from = c.rev ? q.t : q.s, &to = c.rev ? q.s : q.t;
    S a = p[0]; if (std::fabs(a.x - from.x) >= 1 || std::fabs(a.y - from.y) >= 1 || std::fabs(wrap(a.th - from.theta)) > 1e-9) return "does not start at the start pose";
    if (g.in(std::floor(a.x), std::floor(a.y)) && g.occ(std::floor(a.x), std::floor(a.y))) return "starts on an occupied cell";
    std::string why; K k;
    for (size_t i = 1; i < p.size(); ++i) {
        const S &n = p[i]; if (!line_ok(g, p[i - 1], n, 32, why)) return mc::fmt("step %zu ", i) + why;
        if (n.fwd ? !c.fwd : !c.bwd) return mc::fmt("step %zu travels in a direction that is not permitted", i);
        if (i > 1 && std::fabs(n.th) > M_PI + 1e-9) return mc::fmt("step %zu has heading %g", i, n.th);
        if (std::abs(n.steer) > c.maxs) return mc::fmt("step %zu steers by %d degrees", i, n.steer);
        if (n.left < 0 || n.left > (c.dyn ? 0 : (int) std::lround(c.la / c.step) - 1)) return mc::fmt("step %zu asks for %d further straight moves", i, n.left);
        bool ok = false, pos = false, rule = true; double tol = 1e-6, atol = 1e-6;
        for (auto &m : moves(p[i - 1], c, g.res, i == 1, so)) {
            if (std::hypot(m.x - n.x, m.y - n.y) < tol && std::fabs(wrap(m.th - n.th)) < atol) { pos = true; if (m.steer == n.steer && m.fwd == n.fwd && std::fabs(m.cost * 1 - n.cost) < 1e-6) { ok = true; rule = allowed(p[i - 1], k, m, c.straight, i == 1); k = follow(p[i - 1], k, m, c.straight, i == 1); break; } }
        }
        if (!pos) return mc::fmt("step %zu is not reached by a motion primitive", i);
        if (!ok) return mc::fmt("step %zu does not carry the steering, direction or cost of its motion", i);
        if (!rule) return mc::fmt("step %zu turns the wheels near a change of direction", i);
        double along = ((n.x - p[i - 1].x) * std::cos(p[i - 1].th) + (n.y - p[i - 1].y) * std::sin(p[i - 1].th)) * (c.rev ? -1 : 1);
        if (std::tan(c.maxs * M_PI / 180) / c.la * c.step < 2 && (along > 0) != n.fwd) return mc::fmt("step %zu travels %s but is marked otherwise", i, along > 0 ? "forward" : "backward");
    }
    if (!end) return "";
    const S &e = p.back(); if (c.rev && !c.dyn && e.left) return mc::fmt("ends although %d straight moves are owed", e.left); if (std::fabs(wrap(e.th - to.theta)) > c.ang_thr + BIN) return "does not end with the goal heading";
    double gx = std::floor(to.x), gy = std::floor(to.y), d; if (c.rev && !e.fwd && !c.dyn) { gx -= std::cos(to.theta) * c.la / g.res; gy -= std::sin(to.theta) * c.la / g.res; }
    if (c.dyn || p.size() < 2) d = std::hypot(e.x - gx, e.y - gy);
    else { const S &b = p[p.size() - 2]; double vx = e.x - b.x, vy = e.y - b.y, l2 = vx * vx + vy * vy, t = l2 > 0 ? ((gx - b.x) * vx + (gy - b.y) * vy) / l2 : 0; t = std::max(0., std::min(1., t)); d = std::hypot(b.x + t * vx - gx, b.y + t * vy - gy); }
    if (d > c.dist_thr / g.res + 1.4143) return mc::fmt("ends %g cells from the goal", d);
    return "";
}
static void defaults() { DSN::distance_step = 1.0; DSN::MAX_STEER_ANGLE = 60; DSN::STEER_DELTA = 30; DSN::steer_steps = 1; DSN::LA = 1.2; DSN::allow_forward = true; DSN::allow_backward = true; DSN::reversed = false; DSN::goal_dist_threshold = 0.5; DSN::goal_angle_threshold = M_PI / 8; }

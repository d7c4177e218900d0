// C33: paths of the planners with a non-holonomic (car-like, chord by chord) neighbourhood
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/NonHolonomicNeighborhood.hpp>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <map>
using mc::Dec;
typedef NonHolonomicNeighborhoodMoves M;
typedef AStarSearch<NonHolonomicNeighborhood<200, 300>, NoExpansion, Pose2d, GridMap2d, 1> N0;                                  // default: both directions, may turn round at once
typedef AStarSearch<NonHolonomicNeighborhood<150, 450, M::FORWARD_BACKWARD_HALFSTEPS, false, 2>, NoExpansion, Pose2d, GridMap2d, 1> N1;
typedef DijkstraStateSearch<NonHolonomicNeighborhood<200, 250, M::FORWARD>, NoExpansion, Pose2d, GridMap2d, 1> N2;
typedef AStarSearch<NonHolonomicNeighborhood<200, 300, M::FORWARD_BACKWARD, true, 3>, NoExpansion, Pose2d, GridMap2d, 1> N3;
typedef AStarOverEstimateSearch<NonHolonomicNeighborhood<150, 400, M::FORWARD_BACKWARD, false, 3>, NoExpansion, Pose2d, GridMap2d, 1> N4;
typedef AStarHybridHeuristicsSearch<NonHolonomicNeighborhood<150, 450, M::FORWARD_BACKWARD_HALFSTEPS, true, 1>, NoExpansion, Pose2d, GridMap2d, 1> N5;
struct Cfg { double step, turn; bool bwd, half, rev; int straight; bool shortest; };
template <class A> Cfg cfg();
template <> Cfg cfg<N0>() { return {2, 30, true, false, false, 1, true}; }
template <> Cfg cfg<N1>() { return {1.5, 45, true, true, false, 2, true}; }
template <> Cfg cfg<N2>() { return {2, 25, false, false, false, 1, true}; }
template <> Cfg cfg<N3>() { return {2, 30, true, false, true, 3, true}; }
template <> Cfg cfg<N4>() { return {1.5, 40, true, false, false, 3, false}; }
template <> Cfg cfg<N5>() { return {1.5, 45, true, true, true, 1, false}; }
static const char *NAME[] = {"both directions", "half steps, 2 straight moves at switches", "uninformed, forward only", "reversed, 3 straight moves at switches", "over-estimating, 3 straight moves at switches", "obstacle heuristic, reversed, half steps"};
static double ROT; // rotation of the map: headings are those of the world
static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
static const double BIN = 2 * M_PI / 31 + 1e-6;
// n: straight moves driven in a row into this pose in its direction of travel (large at the start), left: straight moves owed after a switch
struct S { double x, y, th; bool fwd; double cost; int n, left; double turn; };
// all moves of the model. `first`: a begins the search
static std::vector<S> moves(const S &a, const Cfg &c, double res, bool first)
{
    std::vector<S> r; for (int f = 1; f >= (c.bwd ? 0 : 1); --f) for (double k : {0., -1., 1., -0.5, 0.5}) {
        if (std::fabs(k) == 0.5 && !c.half) continue; bool sw = !first && a.fwd != f; if (k != 0 && (first || sw || a.left > 0)) continue;
        if (sw && (a.left > 0 || a.n < c.straight - 1)) continue;
        double t = a.th + k * c.turn * M_PI / 180, d = (f == !c.rev ? 1 : -1) * c.step / res; S b{a.x + d * std::cos(t - ROT), a.y + d * std::sin(t - ROT), t, (bool) f, a.cost + c.step * (f ? 1 : 1.5) * (sw ? 4 : 1), 0, sw ? c.straight - 1 : a.left > 0 ? a.left - 1 : 0, k};
        b.n = k != 0 ? 0 : a.n + 1; r.push_back(b);
    } return r;
}
static bool line_ok(const Grid &g, const S &a, const S &b, std::string &why)
{
    int x0 = std::floor(a.x), y0 = std::floor(a.y), x1 = std::floor(b.x), y1 = std::floor(b.y), n = std::max(std::abs(x1 - x0), std::abs(y1 - y0));
    if (!g.in(x1, y1)) { why = mc::fmt("leaves the map at (%g,%g)", b.x, b.y); return false; } if (g.occ(x1, y1)) { why = mc::fmt("pose (%g,%g) lies on an occupied cell", b.x, b.y); return false; }
    for (int i = 1; i < n; ++i) { double fx = x0 + 0.5 + (double) (x1 - x0) * i / n, fy = y0 + 0.5 + (double) (y1 - y0) * i / n; if (fx == std::floor(fx) || fy == std::floor(fy)) continue; if (g.occ(std::floor(fx), std::floor(fy))) { why = mc::fmt("crosses the occupied cell (%g,%g)", std::floor(fx), std::floor(fy)); return false; } }
    return true;
}
template <class A> std::vector<S> search(A &a, const Query &q, const SearchOptions &so, bool cb = false)
{
    std::vector<S> r; mc::step(); typename A::PathT p; try { if (cb) p = a.findPath(q.s, q.t, [] {}, so); else p = a.findPath(q.s, q.t, so); } catch (const OutsideMapException &) {} catch (const std::logic_error &) {}
    for (auto &n : p) r.push_back({n.x, n.y, n.theta, n.forward, n.distance, 0, n.custom, 0}); return r;
}
static std::string show(const std::vector<S> &p) { std::string s; for (auto &n : p) s += mc::fmt("(%.3f,%.3f,%.3f%s)", n.x, n.y, n.th, n.fwd ? ">" : "<"); return s; }
static std::string judge(const Grid &g, std::vector<S> p, const Query &q, const Cfg &c)
{
    if (p.empty()) return ""; if (c.rev) std::reverse(p.begin(), p.end()); const Pose2d &from = c.rev ? q.t : q.s, &to = c.rev ? q.s : q.t; std::string why;
    if (p[0].x != std::floor(from.x) || p[0].y != std::floor(from.y) || std::fabs(wrap(p[0].th - from.theta)) > 1e-9) return "does not start at the start pose"; if (g.occ(p[0].x, p[0].y)) return "starts on an occupied cell"; p[0].n = 0; p[0].left = 0; p[0].cost = 0;
    for (size_t i = 1; i < p.size(); ++i) {
        S &n = p[i]; const S &o = p[i - 1]; if (!line_ok(g, o, n, why)) return mc::fmt("step %zu ", i) + why;
        bool pos = false, ok = false; // the goal's own cell counts as a place to begin: the direction may be chosen anew there
        bool fresh = i == 1 || (std::floor(o.x) == std::floor(to.x) && std::floor(o.y) == std::floor(to.y) && std::fabs(wrap(o.th - to.theta)) < BIN);
        for (int k = 0; k < 1 + fresh && !ok; ++k) { if (i == 1 && !k) continue; for (auto &m : moves(o, c, g.res, k == 1)) if (std::hypot(m.x - n.x, m.y - n.y) < 1e-6 && std::fabs(wrap(m.th - n.th)) < 1e-6) { pos = true; if (m.fwd == n.fwd && std::fabs(m.cost - n.cost) < 1e-6) { ok = true; n.n = m.n; n.left = m.left; break; } } }
        if (!pos) return mc::fmt("step %zu is not a permitted move", i); if (!ok) return mc::fmt("step %zu does not carry the direction or cost of its move", i);
    }
    const S &e = p.back(); if (std::fabs(wrap(e.th - to.theta)) > M_PI / 8 + BIN) return "does not end with the goal heading"; double tol = c.step / g.res / 2 + 1; if (std::fabs(e.x - std::floor(to.x)) > tol || std::fabs(e.y - std::floor(to.y)) > tol) return mc::fmt("ends (%g,%g) from the goal", e.x - to.x, e.y - to.y);
    return "";
}
template <class A> void one(int k, const Grid &g, const GridMap2d *m, const Query &q, const SearchOptions &so, const Query *before)
{
    A a; a.setMap(m); Cfg c = cfg<A>(); auto p = search(a, q, so, before != nullptr); mc::exec(); std::string e = judge(g, p, q, c);
    if (e.empty() && before && !c.rev) { A b; b.setMap(m); search(b, *before, so); auto r = search(b, q, so); if (show(r) != show(p)) e = "but after another query " + show(r); }
    if (!e.empty()) mc::fail("%s (%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f) on %s, oversearch %g, duplicates %d: path %s: %s", NAME[k], q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, show(g).c_str(), so.oversearch_distance, !verif_queue_dedup, show(p).c_str(), e.c_str());
    if (p.size() > 1) { mc::nontrivial(); mc::Hash h; for (auto &x : p) h.q(x.x).q(x.y).q(x.th); mc::state(h.h); }
}
static void kind(int k, const Grid &g, const GridMap2d *m, const Query &q, const SearchOptions &so, const Query *before)
{ switch (k) { case 0: one<N0>(k, g, m, q, so, before); break; case 1: one<N1>(k, g, m, q, so, before); break; case 2: one<N2>(k, g, m, q, so, before); break; case 3: one<N3>(k, g, m, q, so, before); break; case 4: one<N4>(k, g, m, q, so, before); break; default: one<N5>(k, g, m, q, so, before); } }
static const double DIR8[] = {0, M_PI / 4, M_PI / 2, 3 * M_PI / 4, M_PI, -3 * M_PI / 4, -M_PI / 2, -M_PI / 4};
static void obstacles(uint64_t i)
{
    Dec d(i); int k = d(6), h = d(8), bx = d(8), by = d(6), gi = d(3); Grid g{9, 7, 1, std::vector<uint8_t>(63)}; for (int y = by; y < by + 2; ++y) for (int x = bx; x < bx + 2; ++x) g.c[y * 9 + x] = (x + y) % 4 == 3 ? 1 : 2; auto m = to_map(g); mc::describe(show(g));
    verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; double t = DIR8[h]; Query q{{4.5, 3.5, t}, {4.5 + 3 * std::cos(t), 3.5 + 3 * std::sin(t), t}}; if (gi == 1) q.t = Pose2d(4.5 - 3 * std::cos(t), 3.5 - 3 * std::sin(t), t); if (gi == 2) q.t = Pose2d(4.5 + 2 * std::cos(t) - 1.3 * std::sin(t), 3.5 + 2 * std::sin(t) + 1.3 * std::cos(t), t + 0.9);
    kind(k, g, m.get(), q, SearchOptions(), nullptr);
}
static const char *MAPS[] = {"........../........../..######../......#.../......#.../...#....../...#......", "..#......./..#...#.../..#...#.../......#.../......#...", "........../.##.??.##./.##.??.##./..........", "#########/#.......#/#.......#/#...#...#/#.......#/#########",
    "................../................../................../......##........../......##........../......##........../......##........../...############.../..........##....../..........##....../..##......##....../..##............../..##............../..................", "....#......#....../....#......#....../....#......#....../....#............./...........#....../...........#....../....#......#....../....#......#....../....#............./....#......#....../....#......#......"};
static void clutter(uint64_t i)
{
    Dec d(i); int k = d(6), mi = d(6), h = d(8), si = d(6), gi = d(4), dd = d(2), ri = d(2); Grid g = parse(MAPS[mi], ri ? 0.5 : 1); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = dd; mc::pick_policy = POLICY[(i / 7) % 3];
    static const double X[] = {0.5, 4, 8.7, 1.2, 5.9, 7.3}, Y[] = {0.5, 3.2, 1.5, 2.9, 0.1, 3.99}; double fx = mi < 4 ? 1 : g.w / 9., fy = mi < 4 ? 1 : g.h / 4.; int ei = (si + 1 + gi) % 6; Query q{{X[si] * fx, Y[si] * fy, DIR8[h]}, {X[ei] * fx, Y[ei] * fy, DIR8[(h + gi * 3) % 8]}}; SearchOptions so; if (gi == 2) so.oversearch_distance = 1.5;
    Query b{q.t, q.s}; kind(k, g, m.get(), q, so, gi == 1 ? &b : nullptr);
}
// in free space every pose reached by a few moves is reached by the planner, at no higher cost (up to the grid)
template <class A> static void reach(uint64_t i)
{
    Dec d(i); int h = d(4); double res = 0.5; Grid g{32, 32, res, std::vector<uint8_t>(32 * 32)}; auto m = to_map(g); verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; Cfg c = cfg<A>(); S s{16, 16, DIR8[2 * h] + 0.1 * h, true, 0, 0, 0, 0}; std::string what; int depth = 1 + d(mc::thorough ? 5 : 4); bool sw = false, back = false;
    for (int k = 0; k < depth; ++k) { auto mv = moves(s, c, res, k == 0); unsigned pick = d(10); if (pick >= mv.size()) return; sw = sw || (k && mv[pick].fwd != s.fwd); s = mv[pick]; if (std::hypot(s.x - 16, s.y - 16) < 2) back = true; what += mc::fmt("%s%g ", s.fwd ? ">" : "<", s.turn * c.turn); } for (int k = depth; k < (mc::thorough ? 5 : 4); ++k) if (d(10)) return;
    unsigned off = (i / 5) % 4; if (off && (i / 20) % 3) off = 0; // the goal lies aside, within the tolerance; its heading may be given in another turn
    S t = s; if (off) { double w = c.step / res / 2; t.x += (off == 1 ? 0.9 : -0.9) * w; t.y += (off == 3 ? 0.9 : -0.4) * w; t.x = std::floor(t.x); t.y = std::floor(t.y); if (std::fabs(t.x - s.x) > w - 1e-6) t.x += t.x < s.x ? 1 : -1; if (std::fabs(t.y - s.y) > w - 1e-6) t.y += t.y < s.y ? 1 : -1; t.th += (off == 2 ? 0.35 : -0.35) + (off == 1 ? 2 * M_PI : 0); if (c.rev) t = s; }
    Query q{{16, 16, DIR8[2 * h] + 0.1 * h}, {t.x, t.y, t.th}}; if (c.rev) q = {q.t, q.s}; mc::describe(mc::fmt("goal reached by %s", what.c_str())); if (!g.in(std::floor(t.x), std::floor(t.y))) return; A a; a.setMap(m.get()); auto p = search(a, q, SearchOptions()); mc::exec();
    std::string e = judge(g, p, q, c); if (p.empty()) e = "no path although the goal is reached by these moves"; double cost = p.empty() ? 0 : c.rev ? p[0].cost : p.back().cost; if (e.empty() && c.shortest && (!sw || (c.straight == 1 && !back)) && p.size() > 1 && cost > s.cost + c.step) e = mc::fmt("cost %g, these moves cost %g", cost, s.cost);
    if (!e.empty()) mc::fail("%s, empty map, (%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f) = moves %s: %s %s", "reach", q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, what.c_str(), e.c_str(), show(p).c_str());
    if (p.size() > 1) mc::nontrivial(); mc::state(mc::Hash().q(cost).u(p.size()).h);
}
// the whole state space from one start: every state follows from its predecessor by a move, and every move from a state leads to a state
template <class A> struct All {
    std::vector<const typename A::NodeT *> *id; std::vector<const void *> *prev; std::vector<S> *s;
    bool terminate(const typename A::NodeT *n) const { id->push_back(n); prev->push_back(n->prev); s->push_back({n->x, n->y, n->theta, n->forward, n->distance, 0, 0, 0}); return false; }
    const Pose2d *getHeuristicGoal() const { return nullptr; }
};
// certainly free, wherever positions on a cell border are counted
static bool clear(const Grid &g, const S &a, const S &b)
{
    for (int v = 0; v < 4; ++v) { int x0 = std::floor(a.x), y0 = std::floor(a.y), x1 = std::floor(b.x + (v & 1 ? 1e-6 : -1e-6)), y1 = std::floor(b.y + (v & 2 ? 1e-6 : -1e-6)), n = std::max(std::abs(x1 - x0), std::abs(y1 - y0)); if (!g.in(x1, y1)) return false;
        for (int i = 1; i <= n; ++i) { double fx = x0 + 0.5 + (double) (x1 - x0) * i / n, fy = y0 + 0.5 + (double) (y1 - y0) * i / n; for (int k = 0; k < 4; ++k) if (g.occ(std::floor(fx + (k & 1 ? 1e-9 : -1e-9)), std::floor(fy + (k & 2 ? 1e-9 : -1e-9)))) return false; } }
    return true;
}
template <class A> void space(int k, const Grid &g, const GridMap2d *m, const Pose2d &from)
{
    A a; a.setMap(m); Cfg c = cfg<A>(); std::vector<const typename A::NodeT *> id; std::vector<const void *> prev; std::vector<S> s; All<A> t{&id, &prev, &s}; mc::step(); bool in = g.in(std::floor(from.x), std::floor(from.y)) && !g.occ(std::floor(from.x), std::floor(from.y));
    try { a.findPath(from, t, SearchOptions()); } catch (const OutsideMapException &) {} catch (const std::logic_error &) {} mc::exec(); std::string w = mc::fmt("%s, all states from (%.2f,%.2f,%.2f) on %s, duplicates %d", NAME[k], from.x, from.y, from.theta, show(g).c_str(), !verif_queue_dedup);
    if (s.empty() == in) mc::fail("%s: %zu states", w.c_str(), s.size()); std::map<const void *, size_t> at; std::map<std::pair<int, int>, std::vector<size_t>> cell; std::string why; double last = 0;
    for (size_t i = 0; i < s.size(); ++i) { S &n = s[i]; std::string here = mc::fmt("%s: state (%.3f,%.3f,%.3f%s)", w.c_str(), n.x, n.y, n.th, n.fwd ? ">" : "<"); cell[{(int) std::floor(n.x), (int) std::floor(n.y)}].push_back(i); if (n.cost < last - 1e-9) mc::fail("%s with cost %g after one with cost %g", here.c_str(), n.cost, last); last = n.cost;
        if (!at.insert({id[i], i}).second) { if (verif_queue_dedup) mc::fail("%s is expanded again", here.c_str()); n = s[at[id[i]]]; continue; }
        if (!prev[i]) { if (n.x != std::floor(from.x) || n.y != std::floor(from.y) || std::fabs(wrap(n.th - from.theta)) > 1e-9 || n.cost != 0) mc::fail("%s has no predecessor", here.c_str()); continue; }
        auto p = at.find(prev[i]); if (p == at.end() || p->second >= i) mc::fail("%s: its predecessor was not expanded before", here.c_str()); const S &o = s[p->second]; bool ok = false; if (!line_ok(g, o, n, why)) mc::fail("%s from (%.3f,%.3f,%.3f%s) %s", here.c_str(), o.x, o.y, o.th, o.fwd ? ">" : "<", why.c_str());
        for (auto &q : moves(o, c, g.res, !prev[p->second])) if (!ok && std::hypot(q.x - n.x, q.y - n.y) < 1e-6 && std::fabs(wrap(q.th - n.th)) < 1e-6 && q.fwd == n.fwd && std::fabs(q.cost - n.cost) < 1e-6) { ok = true; n.n = q.n; n.left = q.left; }
        if (!ok) mc::fail("%s with cost %g does not follow from its predecessor (%.3f,%.3f,%.3f%s) with cost %g, %d straight moves, %d owed", here.c_str(), n.cost, o.x, o.y, o.th, o.fwd ? ">" : "<", o.cost, o.n, o.left); }
    for (size_t i = 0; i < s.size(); ++i) for (auto &q : moves(s[i], c, g.res, !prev[i])) if (clear(g, s[i], q)) { bool ok = false; int x = std::floor(q.x - 1e-6), y = std::floor(q.y - 1e-6);
        for (int v = 0; v < 4 && !ok; ++v) { int u = x + (v & 1), b = y + (v >> 1); if (u > std::floor(q.x + 1e-6) || b > std::floor(q.y + 1e-6)) continue; auto it = cell.find({u, b}); if (it != cell.end()) for (size_t j : it->second) if (s[j].fwd == q.fwd && std::fabs(wrap(s[j].th - q.th)) < BIN && s[j].cost <= q.cost + 1e-6) { ok = true; break; } }
        if (!ok) mc::fail("%s: the move from (%.3f,%.3f,%.3f%s) to (%.3f,%.3f,%.3f%s) is never made", w.c_str(), s[i].x, s[i].y, s[i].th, s[i].fwd ? ">" : "<", q.x, q.y, q.th, q.fwd ? ">" : "<"); }
    if (s.size() > 10) mc::nontrivial(); mc::state(mc::Hash().u(s.size()).q(last).u(k).h); mc::step(s.size());
}
static void whole(int k, const Grid &g, const GridMap2d *m, const Pose2d &f)
{ switch (k) { case 0: space<N0>(k, g, m, f); break; case 1: space<N1>(k, g, m, f); break; case 2: space<N2>(k, g, m, f); break; case 3: space<N3>(k, g, m, f); break; case 4: space<N4>(k, g, m, f); break; default: space<N5>(k, g, m, f); } }
static void spaces(uint64_t i)
{
    Dec d(i); int k = d(6), mi = d(6), h = d(8), si = d(6), dd = d(2), ri = d(mc::thorough ? 2 : 1); if (!mc::thorough) ri = (i / 3) & 1; Grid g = parse(MAPS[mi], ri ? 0.5 : 1); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = dd; mc::pick_policy = POLICY[(i / 7) % 3]; static const double X[] = {0.5, 4, 8.7, 1.2, 5.9, 7.3}, Y[] = {0.5, 3.2, 1.5, 2.9, 0.1, 3.99}; double fx = mi < 4 ? 1 : g.w / 9., fy = mi < 4 ? 1 : g.h / 4.; Pose2d f(X[si] * fx, Y[si] * fy, DIR8[h] + (si == 2 ? 0.3 : 0));
    whole(k, g, m.get(), f);
}
// maps that lie askew in the world: poses, converted to the world, drive along their headings
static void rotated(uint64_t i)
{
    Dec d(i); int k = d(6), mi = d(6), h = d(8), si = d(6), gi = d(2), yi = d(3); static const double YAW[] = {0.3, M_PI / 2, -2.0}; Grid g = parse(MAPS[mi], mi < 4 ? 1 : 0.5); ROT = YAW[yi]; RotatedGridMap2d m(g.w, g.h, ROT, g.res); m.setOrigin(Point2d(1.5, -2)); m.setLowerThreshold(50); m.setUpperThreshold(200); m.setNoInformationValue(-1); fill(m, g);
    mc::describe(show(g) + mc::fmt(" rotated by %g", ROT)); verif_queue_dedup = (i / 5) & 1; mc::pick_policy = POLICY[(i / 7) % 3]; static const double X[] = {0.5, 4, 8.7, 1.2, 5.9, 7.3}, Y[] = {0.5, 3.2, 1.5, 2.9, 0.1, 3.99}; double fx = mi < 4 ? 1 : g.w / 9., fy = mi < 4 ? 1 : g.h / 4.; int ei = (si + 1 + gi) % 6; Query q{{X[si] * fx, Y[si] * fy, DIR8[h] + 0.2}, {X[ei] * fx, Y[ei] * fy, DIR8[(h + gi * 3) % 8]}};
    { double a, b, c, w; m.cell2pointSubPixel(3, 2, a, b); m.cell2pointSubPixel(3 + std::cos(0.7 - ROT), 2 + std::sin(0.7 - ROT), c, w); if (std::fabs(c - a - std::cos(0.7) * g.res) > 1e-6 || std::fabs(w - b - std::sin(0.7) * g.res) > 1e-6) mc::fail("a map rotated by %g does not turn world headings by it", ROT); }
    struct R { ~R() { ROT = 0; } } r; kind(k, g, &m, q, SearchOptions(), nullptr); if (gi) whole(k, g, &m, q.s);
}
void mc_setup()
{
    mc::bound("a 2x2 obstacle at every place of a 9x7 map x 8 headings x 3 goals; 6 cluttered maps x 2 resolutions x 8 headings x 24 start/goal pairs x 2 open set disciplines, some after another query on the same object, some with oversearch; complete searches of six planners (A*, uninformed, over-estimating and obstacle heuristics; forward only, both directions, half steps, reversed; 1, 2 or 3 straight moves at switches)");
    mc::bound("goals given by every sequence of up to %d permitted moves from 4 headings", mc::thorough ? 5 : 4);
    mc::assumption("start and goal are taken to the corner of their cell; a pose in the goal's own cell and bin counts as a place to begin (direction free, straight moves only); headings are those of the world, also on rotated maps");
    mc::family("obstacles", 6 * 8 * 8 * 6 * 3, obstacles); mc::family("clutter", 6 * 6 * 8 * 6 * 4 * 2 * 2, clutter);
    mc::bound("the complete state space from 48 starts on 6 maps: edges, order, costs, closure under all permitted moves"); mc::family("state spaces", 6 * 6 * 8 * 6 * 2 * (mc::thorough ? 2 : 1), spaces);
    mc::bound("6 maps x 3 map rotations x 8 headings x 12 start/goal pairs x 6 planners, half of them also with the complete state space"); mc::family("rotated maps", 6 * 6 * 8 * 6 * 2 * 3, rotated);
    uint64_t n = mc::thorough ? 4ull * 5 * 100000 : 4ull * 4 * 10000; mc::family("reach both", n, reach<N0>, 64); mc::family("reach half steps", n, reach<N1>, 64); mc::family("reach uninformed", n, reach<N2>, 64); mc::family("reach reversed", n, reach<N3>, 64);
}

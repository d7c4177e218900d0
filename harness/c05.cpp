// C05: path candidates, oversearch distance and the caller's acceptance
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
template <class A> struct Cfg;
template <> struct Cfg<L2_4> { enum { N = 4, D = 1 }; static double h(double dx, double dy) { return std::hypot(dx, dy); } static const char *name() { return "4-connected/L2"; } };
template <> struct Cfg<L2_8> { enum { N = 8, D = 1 }; static double h(double dx, double dy) { return std::hypot(dx, dy); } static const char *name() { return "8-connected/L2"; } };
template <> struct Cfg<LI_8> { enum { N = 8, D = 1 }; static double h(double dx, double dy) { return std::max(std::fabs(dx), std::fabs(dy)); } static const char *name() { return "8-connected/Linf"; } };
template <> struct Cfg<L2_8x2> { enum { N = 8, D = 2 }; static double h(double dx, double dy) { return std::hypot(dx, dy); } static const char *name() { return "8-connected, two cells a step"; } };
struct PP { double x, y, distance; };
static int cell(const Grid &g, const PP &p) { return (int) p.y * g.w + (int) p.x; }
template <class P> std::vector<PP> copy(const P &p) { std::vector<PP> r; for (auto &n : p) r.push_back({(double) n.x, (double) n.y, n.distance}); return r; }
static bool same(const std::vector<PP> &a, const std::vector<PP> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].x != b[i].x || a[i].y != b[i].y || a[i].distance != b[i].distance) return false; return true; }
// what the reference expects: for every cell in reach of the goal its total estimated cost
struct Expect { std::vector<double> f, dist; double first; int reach; };
template <class A> Expect expect(const Grid &g, const Query &q, const std::vector<double> &D)
{
    Expect e; e.f.assign(g.w * g.h, INFINITY); e.dist.assign(g.w * g.h, INFINITY); e.first = INFINITY; e.reach = 0; Tolerance tol(g, q, Cfg<A>::D);
    for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) { int k = y * g.w + x; if (!tol(x, y) || !std::isfinite(D[k])) continue; e.f[k] = D[k] + Cfg<A>::h(x - tol.gx, y - tol.gy) * g.res; e.dist[k] = std::hypot(x - tol.gx, y - tol.gy); e.first = std::min(e.first, e.f[k]); ++e.reach; }
    return e;
}
// one query; over: oversearch distance in cells; accept: -2 no callback, -1 never, j: accepts its j-th path
template <class A> void one(A &a, const Grid &g, const Query &q, double over, int accept, const std::string &hist)
{
    auto what = [&] { return mc::fmt("%s%s %s on %s, oversearch %g cells, %s", hist.c_str(), Cfg<A>::name(), show(q).c_str(), show(g).c_str(), over, accept == -2 ? "no callback" : accept == -1 ? "callback rejects all" : mc::fmt("callback accepts path %d", accept).c_str()); };
    int sx = std::floor(q.s.x), sy = std::floor(q.s.y); bool ok = g.in(sx, sy) && !g.occ(sx, sy);
    std::vector<double> D(g.w * g.h, INFINITY); if (ok) D = reference(g, sx, sy, Cfg<A>::N, Cfg<A>::D);
    Expect e = expect<A>(g, q, D); Tolerance tol(g, q, Cfg<A>::D);
    std::vector<std::vector<PP>> offered; int n = 0; typedef typename A::PathT PT;
    std::function<bool(const PT &)> cb; if (accept != -2) cb = [&](const PT &p) { offered.push_back(copy(p)); return n++ == accept; };
    a.setPathCandidateCallback(cb);
    SearchOptions so; so.oversearch_distance = over * g.res; auto p = copy(ask(a, q, so));
    std::vector<std::vector<PP>> cand; for (auto &c : a.getPathCandidates()) cand.push_back(copy(c));
    mc::exec();
    std::string j = judge(g, p, q, Cfg<A>::N, Cfg<A>::D, VALID | COST, true, tol, &D); if (!j.empty()) mc::fail("%s: result %s", what().c_str(), j.c_str());
    for (auto &o : offered) { j = judge(g, o, q, Cfg<A>::N, Cfg<A>::D, VALID | COST, true, tol, &D); if (o.empty()) j = "empty"; if (!j.empty()) mc::fail("%s: path offered to the callback %s", what().c_str(), j.c_str()); }
    std::set<int> cells; for (auto &c : cand) { j = judge(g, c, q, Cfg<A>::N, Cfg<A>::D, VALID | COST, true, tol, &D); if (c.empty()) j = "empty"; if (!j.empty()) mc::fail("%s: candidate %s", what().c_str(), j.c_str()); if (!cells.insert(cell(g, c.back())).second && verif_queue_dedup) mc::fail("%s: two candidates end in the same cell", what().c_str()); }
    if (over == 0) {
        if (!cand.empty()) mc::fail("%s: %zu candidates collected without oversearch", what().c_str(), cand.size());
        if (!offered.empty()) mc::fail("%s: the callback was asked without oversearch", what().c_str());
        if (!p.empty() && e.f[cell(g, p.back())] > e.first + 1e-6 * (1 + e.first)) mc::fail("%s: ends in a cell of total cost %g, the first candidate has %g", what().c_str(), e.f[cell(g, p.back())], e.first);
        return;
    }
    double lim = e.first + over * g.res; int must = 0, beyond = 0; auto whole = [](double v) { return v == std::floor(v); }; bool exact = g.res >= 1 && whole(over) && whole(e.first);   // costs without rounding: the limit itself is within
    auto within = [&](size_t k) { return e.f[k] < lim - 1e-6 || (exact && std::isfinite(lim) && e.f[k] == lim); };
    for (size_t k = 0; k < e.f.size(); ++k) if (std::isfinite(e.f[k])) { if (within(k)) ++must; if (e.f[k] > lim + 1e-6 && cells.count(k)) ++beyond; }
    bool accepted = accept >= 0 && (int) offered.size() > accept;
    if (accept != -2 && offered.size() != cand.size()) mc::fail("%s: %zu paths offered to the callback, %zu candidates", what().c_str(), offered.size(), cand.size());
    if (beyond > 1) mc::fail("%s: %d candidates beyond the limit", what().c_str(), beyond);
    if (accepted) {
        if ((int) offered.size() != accept + 1) mc::fail("%s: the callback was asked again after it had accepted", what().c_str());
        if (!same(p, offered[accept])) mc::fail("%s: returned %s instead of the accepted %s", what().c_str(), show_path(p).c_str(), show_path(offered[accept]).c_str());
    } else {
        if (accept >= 0 && must > accept) mc::fail("%s: only %zu paths offered, at least %d lie within the limit", what().c_str(), offered.size(), must);
        for (size_t k = 0; k < e.f.size(); ++k) if (within(k) && !cells.count(k)) mc::fail("%s: the candidate in cell %zu (total cost %g, limit %g) is missing", what().c_str(), k, e.f[k], lim);
        if (e.reach && cand.empty()) mc::fail("%s: no candidate", what().c_str());
        double best = INFINITY; for (int k : cells) best = std::min(best, e.dist[k]);
        if (!cand.empty() && (p.empty() || e.dist[cell(g, p.back())] > best + 1e-9)) mc::fail("%s: returned %s, a candidate ends %g from the goal", what().c_str(), show_path(p).c_str(), best);
        if (!cand.empty()) { bool in = false; for (auto &c : cand) in = in || same(c, p); if (!in) mc::fail("%s: the result %s is not one of the candidates", what().c_str(), show_path(p).c_str()); }
        for (size_t i = 1; i < cand.size(); ++i) if (e.dist[cell(g, cand[i].back())] < e.dist[cell(g, cand[i - 1].back())] - 1e-9) mc::fail("%s: candidates are not listed best first", what().c_str());
    }
    if (cand.size() > 1 || accepted) mc::nontrivial(); mc::state(mc::Hash().u(cand.size()).u(offered.size()).u(p.size()).u(accept).u(must).u(path_hash(p)).h);
}
static const double OVER[] = {0, 0.3, 1, 1.6, 3, 100};
static const double RES[] = {1, 0.1, 2};
template <class A> void query(uint64_t i, const Grid &g, const GridMap2d *m, int s, int t)
{
    Query q{{s % g.w + 0.0, s / g.w + 0.0, 0}, {t % g.w + 0.0, t / g.w + 0.0, 0}}; mc::pick_policy = POLICY[(i + t) % 3]; verif_queue_dedup = s & 1;
    for (int o = 0; o < 6; ++o) {
        int lo = mc::thorough ? -2 : -2 + (int) (i + o + s) % 3, st = mc::thorough ? 1 : 3;
        for (int acc = lo; acc < 6; acc += st) { A a; a.setMap(m); one(a, g, q, OVER[o], acc, ""); }
    }
}
template <int W, int H> static void maps(uint64_t i)
{
    int n = W * H; Grid g{W, H, RES[i % 3], std::vector<uint8_t>(n)}; uint64_t v = i; for (auto &c : g.c) { c = v & 1 ? (i % 5 == 4 ? 1 : 2) : 0; v >>= 1; } mc::describe(show(g)); auto m = to_map(g);
    for (int s = i % 2; s < n; s += mc::thorough ? 1 : 3) for (int t = (i / 2 + s) % 3; t < n; t += mc::thorough ? 1 : 3) switch ((i + s + t) % 4) {
        case 0: query<L2_4>(i, g, m.get(), s, t); break; case 1: query<L2_8>(i, g, m.get(), s, t); break; case 2: query<LI_8>(i, g, m.get(), s, t); break; default: query<L2_8x2>(i, g, m.get(), s, t); }
}
// histories of three queries on one object, with and without oversearch and callback
template <class A> static void histories(uint64_t i)
{
    static const char *MAPS[] = {"...../.##../...#./.#...", ".../.../...", "..#../#..#./.....", "#../###/..."};
    Dec d(i); int mi = d(4); Grid g = parse(MAPS[mi], RES[mi % 3]); auto m = to_map(g); A a; a.setMap(m.get()); std::string h = "history: "; mc::describe(show(g) + " histories");
    const Query Q[] = {{{0, 0, 0}, {g.w - 1.0, g.h - 1.0, 0}}, {{g.w - 1.0, 0, 0}, {1, g.h - 1.0, 0}}, {{0, 0, 0}, {2, 0, 0}}, {{0, 0, 0}, {500, 500, 0}}};
    static const int OV[] = {0, 1, 3, 5}; static const int ACC[] = {-2, -1, 0, 2}; mc::pick_policy = POLICY[d(3)]; verif_queue_dedup = mi & 1;
    for (int k = 0; k < 3; ++k) { int qi = d(4), o = d(4), ac = d(mc::thorough ? 4 : 2); if (!mc::thorough) ac = (ac + qi + o) % 4; one(a, g, Q[qi], OVER[OV[o]], ACC[ac], h); h += mc::fmt("%s oversearch %g accept %d; ", show(Q[qi]).c_str(), OVER[OV[o]], ACC[ac]); }
}
// candidates registered by the caller's own goal test: the cheapest of them (in the caller's measure) is the answer
struct Own { L2_8 *a; const std::vector<double> *cost; int w, stop; mutable int n; mutable std::vector<int> reg; const Pose2d *getHeuristicGoal() const { return nullptr; }
    bool terminate(const L2_8::NodeT *c) const { int k = (int) c->y * w + (int) c->x; if ((*cost)[k] >= 0) { a->addGoalCandidate(c, (*cost)[k]); reg.push_back(k); ++n; } return n == stop; } };
static void own(uint64_t i)
{
    Dec d(i); int v = d(512); Grid g{3, 3, RES[i % 3], std::vector<uint8_t>(9)}; for (auto &c : g.c) { c = v & 1 ? 2 : 0; v >>= 1; } mc::describe(show(g) + " own goal test"); auto m = to_map(g); L2_8 a; a.setMap(m.get());
    for (int s = 0; s < 9; ++s) { if (g.c[s]) continue; auto D = reference(g, s % 3, s / 3, 8, 1); for (int pat = 1; pat < 27; ++pat) for (int stop : {-1, 1, 2}) for (double over : {0.0, 0.5, 2.0}) {
        if (!mc::thorough && (pat + s + stop) % 3) continue;
        std::vector<double> cost(9, -1); int k1 = (s + 4) % 9, k2 = (s + 7) % 9, k3 = s; cost[k1] = pat % 3 - 1; cost[k2] = pat / 3 % 3 - 1; cost[k3] = pat / 9 - 1;
        Own t{&a, &cost, 3, stop, 0, {}}; SearchOptions so; so.oversearch_distance = over * g.res; Pose2d from(s % 3, s / 3, 0); mc::step(); auto p = copy(a.findPath(from, t, so)); mc::exec();
        auto what = [&] { return mc::fmt("own goal test from (%d,%d) on %s, oversearch %g, costs %g %g %g at cells %d %d %d, stop at %d", s % 3, s / 3, show(g).c_str(), over, cost[k1], cost[k2], cost[k3], k1, k2, k3, stop); };
        double first = INFINITY, best = INFINITY; for (int k = 0; k < 9; ++k) if (cost[k] >= 0) first = std::min(first, D[k]);
        std::set<int> reg(t.reg.begin(), t.reg.end()); if (reg.size() != t.reg.size() && verif_queue_dedup) mc::fail("%s: a cell was tested twice", what().c_str());
        if (stop < 0) { int extra = 0; for (int k = 0; k < 9; ++k) if (cost[k] >= 0) { double lim = over > 0 ? first + over * g.res : INFINITY; bool exact = g.res >= 1 && std::isfinite(lim) && lim == std::floor(lim) && first == std::floor(first) && D[k] == lim; if (std::isfinite(D[k]) && (D[k] < lim - 1e-6 || exact || over == 0) && !reg.count(k)) mc::fail("%s: cell %d was not tested", what().c_str(), k); if (D[k] > lim + 1e-6 && reg.count(k)) ++extra; } if (extra > 1) mc::fail("%s: %d cells tested beyond the limit", what().c_str(), extra); }
        else if ((int) t.reg.size() > stop) mc::fail("%s: tested on after termination", what().c_str());
        for (int k : reg) best = std::min(best, cost[k]);
        if (reg.empty() != p.empty()) mc::fail("%s: %zu candidates, path of %zu steps", what().c_str(), reg.size(), p.size());
        if (!p.empty()) { std::string j = judge(g, p, {from, from}, 8, 1, VALID | COST, true, [&](int x, int y) { return reg.count(y * 3 + x) && cost[y * 3 + x] <= best; }, &D); if (!j.empty()) mc::fail("%s: %s", what().c_str(), j.c_str()); }
        if (reg.size() > 1) mc::nontrivial(); mc::state(mc::Hash().u(reg.size()).u(p.size()).u(pat).h);
    } }
}
// steering planner: the returned path is the accepted one, offered paths end at the goal
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, 1> SD;
static void steering(uint64_t i)
{
    DynamicSteeringNeighborhood::distance_step = 1.0; DynamicSteeringNeighborhood::MAX_STEER_ANGLE = 60; DynamicSteeringNeighborhood::STEER_DELTA = 30; DynamicSteeringNeighborhood::steer_steps = 1; DynamicSteeringNeighborhood::allow_backward = true; DynamicSteeringNeighborhood::goal_dist_threshold = 1.5; DynamicSteeringNeighborhood::goal_angle_threshold = 1.0;
    Dec d(i); static const char *MAPS[] = {"......./......./.....##/.......", "..#../#..#./....."}; int mi = d(2), acc = (int) d(5) - 2, over = d(3); Grid g = parse(MAPS[mi], 1); auto m = to_map(g); mc::describe(show(g) + " steering"); SD a; a.setMap(m.get()); verif_queue_dedup = 1;
    for (int rep = 0; rep < 2; ++rep) {
        Query q{{0.5, 0.5, 0}, {g.w - 2.0, 1 + rep, 0}}; std::vector<std::vector<PP>> off; int n = 0; std::function<bool(const SD::PathT &)> cb; if (acc != -2) cb = [&](const SD::PathT &p) { off.push_back(copy(p)); return n++ == acc; };
        a.setPathCandidateCallback(cb); a.setTimeLimit(3); clock_reads = 0; clock_jump_at = 120; SearchOptions so; so.oversearch_distance = over * 0.8; auto raw = ask(a, q, so); auto p = copy(raw); mc::exec(); auto cand = a.getPathCandidates();
        auto what = [&] { return mc::fmt("steering %s on %s, oversearch %g, accept %d", show(q).c_str(), show(g).c_str(), over * 0.8, acc); };
        auto ends = [&](const PP &x) { return std::hypot(x.x - q.t.x, x.y - q.t.y) < 1.5 + 0.5; };
        if (!p.empty() && !ends(p.back())) mc::fail("%s: ends at (%g,%g)", what().c_str(), p.back().x, p.back().y);
        for (auto &o : off) if (o.empty() || !ends(o.back())) mc::fail("%s: an offered path does not end at the goal", what().c_str());
        for (auto &c : cand) { auto o = copy(c); if (o.empty() || !ends(o.back())) mc::fail("%s: a candidate does not end at the goal", what().c_str()); }
        if (over == 0) { if (!off.empty() || !cand.empty()) mc::fail("%s: candidates without oversearch", what().c_str()); continue; }
        if (acc >= 0 && (int) off.size() > acc) { mc::nontrivial(); if (!same(p, off[acc])) mc::fail("%s: returned %s instead of the accepted %s", what().c_str(), show_path(p).c_str(), show_path(off[acc]).c_str()); if ((int) off.size() != acc + 1) mc::fail("%s: asked after acceptance", what().c_str()); }
        else if (cand.empty() != p.empty()) mc::fail("%s: %zu candidates, path of %zu", what().c_str(), cand.size(), p.size());
        else if (!cand.empty()) { mc::nontrivial(); double best = INFINITY; for (auto &c : cand) best = std::min(best, std::hypot(c.back().x - q.t.x, c.back().y - q.t.y)); if (std::hypot(p.back().x - q.t.x, p.back().y - q.t.y) > best + 1.5) mc::fail("%s: not the best candidate", what().c_str()); }
        mc::state(mc::Hash().u(off.size()).u(cand.size()).u(p.size()).h);
    }
}
void mc_setup()
{
    mc::bound("every %s map of free/blocked cells x start/goal pairs x oversearch distance {0, 0.3, 1, 1.6, 3, 100 cells} x {no callback, rejects all, accepts the 1st..6th path}; four grid planners; three tie orders", mc::thorough ? "3x3 and 4x3" : "3x3 and every eighth 4x3");
    mc::bound("all histories of three queries over 4 queries x 4 oversearch distances x %d callbacks on 4 maps; caller-supplied goal tests registering up to 3 candidates with costs 0/1 on every 3x3 map", mc::thorough ? 4 : 2);
    mc::assumption("the first candidate is the one of least cost plus heuristic; one candidate beyond the limit may be collected because a node is tested before the limit is");
    mc::family("maps 3x3", 512, maps<3, 3>);
    if (mc::thorough) mc::family("maps 4x3", 4096, maps<4, 3>); else mc::family("maps 4x3", 512, [](uint64_t i) { maps<4, 3>((i * 8 + i % 8) & 4095); });
    uint64_t n = 4 * 3 * mc::ipow(16 * (mc::thorough ? 4 : 2), 3); mc::family("histories", n, histories<L2_8>); if (mc::thorough) mc::family("histories, 4-connected", n, histories<L2_4>);
    mc::family("own goal test", 512, own);
    mc::family("steering", 2 * 5 * 3, steering, 1, 200);
}

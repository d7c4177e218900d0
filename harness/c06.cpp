// C06: paths of the steering planners are drivable and free of collisions
#include "steer.h"
#include <map>
template <class A> void one(const char *name, const Grid &g, const GridMap2d *m, const Query &q, const SearchOptions &so, int cap)
{
    A a; a.setMap(m); Cfg c = cfg<A>(); auto p = search(a, q, so, cap); std::string e = judge(g, p, q, c, so);
    if (!e.empty()) mc::fail("%s (%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f) on %s, step %g, LA %g, steering %d x %g up to %d%s%s%s, duplicates %d: path %s: %s", name, q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, show(g).c_str(), c.step, c.la, c.steps, c.delta, c.maxs, c.fwd ? ", forward" : "", c.bwd ? ", backward" : "", c.rev ? ", reversed" : "", verif_queue_dedup, show(p).c_str(), e.c_str());
    mc::exec(); if (p.size() > 1) { mc::nontrivial(); mc::Hash h; for (auto &x : p) h.q(x.x).q(x.y).q(x.th); mc::state(h.h); }
}
static void kind(int k, const Grid &g, const GridMap2d *m, const Query &q, const SearchOptions &so, int cap)
{
    switch (k) { case 0: one<SD>("dynamic", g, m, q, so, cap); break; case 5: one<S3>("static, three straight moves", g, m, q, so, cap); break; case 6: one<SR2>("static, reversed, two straight moves", g, m, q, so, cap); break; case 7: one<Plain<SN3>>("static, uninformed", g, m, q, so, cap); break; case 8: one<Plain<DSN>>("dynamic, uninformed", g, m, q, so, cap); break; case 1: one<S1>("static", g, m, q, so, cap); break; case 2: one<S2>("static, two steering steps", g, m, q, so, cap); break; case 3: one<SF>("static, forward only", g, m, q, so, cap); break; default: one<SR>("static, reversed", g, m, q, so, cap); }
}
static const double DIR8[] = {0, M_PI / 4, M_PI / 2, 3 * M_PI / 4, M_PI, -3 * M_PI / 4, -M_PI / 2, -M_PI / 4};
// one obstacle block at every position of a 9x7 map, goals ahead / behind / beside, eight headings
static void obstacles(uint64_t i)
{
    Dec d(i); int k = d(9), h = d(8), bx = d(8), by = d(6), gi = d(3); defaults(); Grid g{9, 7, 1, std::vector<uint8_t>(63)}; for (int y = by; y < by + 2; ++y) for (int x = bx; x < bx + 2; ++x) g.c[y * 9 + x] = (x + y) % 4 == 3 ? 1 : 2; auto m = to_map(g); mc::describe(show(g));
    verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; double t = DIR8[h]; Query q{{4.5, 3.5, t}, {4.5 + 3 * std::cos(t), 3.5 + 3 * std::sin(t), t}}; if (gi == 1) q.t = Pose2d(4.5 - 3 * std::cos(t), 3.5 - 3 * std::sin(t), t); if (gi == 2) q.t = Pose2d(4.5 + 2 * std::cos(t) - 1.3 * std::sin(t), 3.5 + 2 * std::sin(t) + 1.3 * std::cos(t), t + 0.9);
    kind(k, g, m.get(), q, SearchOptions(), mc::thorough ? 400 : 150);
}

// longer searches: walls with gaps, many start cells, all option combinations of the dynamic neighbourhood
static const char *MAPS[] = {"........../........../..######../......#.../......#.../...#....../...#......", "..#......./..#...#.../..#...#.../......#.../......#...", "........../.##.??.##./.##.??.##./..........", "#########/#.......#/#.......#/#...#...#/#.......#/#########"};
static int g_cap = 0;
static void clutter(uint64_t i)
{
    Dec d(i); int k = d(9), mi = d(4), h = d(8), si = d(6), gi = d(4), dd = mc::thorough || g_cap ? d(2) : i / 9 & 1; defaults(); Grid g = parse(MAPS[mi]); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = dd; mc::pick_policy = POLICY[(i / 7) % 3];
    static const double X[] = {0.5, 4, 8.7, 1.2, 5.9, 7.3}, Y[] = {0.5, 3.2, 1.5, 2.9, 0.1, 3.99}; Query q{{X[si], Y[si], DIR8[h]}, {X[(si + 1 + gi) % 6], Y[(si + 1 + gi) % 6], DIR8[(h + gi * 3) % 8]}}; SearchOptions so; if (gi == 1) { so.penalty_backward = 1; so.penalty_turn = 1; } if (gi == 2) { so.oversearch_distance = 1.5; }
    kind(k, g, m.get(), q, so, g_cap ? g_cap : mc::thorough ? 1500 : 250);
}
// in free space every pose reached by a few moves is reached by the planner, at no higher cost (up to the grid)
template <class A> static void reach(uint64_t i)
{
    defaults(); Dec d(i); int h = d(4); double res = 0.25; Grid g{28, 28, res, std::vector<uint8_t>(28 * 28)}; auto m = to_map(g); verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; SearchOptions so; if (d(2)) { so.penalty_backward = 1; so.penalty_turn = 1.5; }
    Cfg c = cfg<A>(); S s{14, 14, DIR8[2 * h] + 0.1 * h, 0, true, 0, 0}; std::string what; int depth = 1 + d(3); bool sw = false;
    for (int k = 0; k < depth; ++k) { std::vector<S> mv; if (k == 0) { for (int f = 0; f < 2; ++f) { S s0 = s; s0.fwd = f; for (auto &x : moves(s0, c, res, true, so)) mv.push_back(x); } } else mv = moves(s, c, res, false, so); std::vector<S> u; for (auto &x : mv) { bool dup = false; for (auto &y : u) dup = dup || (y.steer == x.steer && y.fwd == x.fwd); if (!dup) u.push_back(x); } unsigned pick = d(6); if (pick >= u.size()) return; sw = sw || (k && u[pick].fwd != s.fwd); s = u[pick]; what += mc::fmt("%s%d ", s.fwd ? ">" : "<", s.steer); }
    Query q{{14, 14, DIR8[2 * h] + 0.1 * h}, {s.x, s.y, s.th}}; mc::describe(mc::fmt("goal reached by %s", what.c_str())); A a; a.setMap(m.get()); auto p = search(a, q, so, 100000); mc::exec();
    std::string e = judge(g, p, q, c, so); if (p.empty()) e = "no path although the goal is reached by these moves"; if (e.empty() && !sw && p.size() > 1 && p.back().cost > s.cost + 0.75) e = mc::fmt("cost %g, these moves cost %g", p.back().cost, s.cost);
    if (!e.empty()) mc::fail("empty map, (%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f) = moves %s: %s %s", q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, what.c_str(), e.c_str(), show(p).c_str());
    if (p.size() > 1) mc::nontrivial(); mc::state(mc::Hash().q(p.empty() ? -1 : p.back().cost).u(p.size()).h);
}

// the state space from one start: every expanded state follows from its predecessor by a motion, in order of cost, and every clear motion from a state leads to a state
template <class A> struct All {
    size_t cap; std::vector<const typename A::NodeT *> *id; std::vector<const void *> *prev; std::vector<S> *s;
    bool terminate(const typename A::NodeT *n) const { id->push_back(n); prev->push_back(n->prev); s->push_back({n->x, n->y, n->theta, n->steering_angle, n->forward, n->distance, n->custom}); return id->size() >= cap; }
    const Pose2d *getHeuristicGoal() const { return nullptr; }
};
static bool clear(const Grid &g, const S &a, const S &b)
{
    for (int v = 0; v < 16; ++v) { int x0 = std::floor(a.x + (v & 4 ? 1e-9 : -1e-9)), y0 = std::floor(a.y + (v & 8 ? 1e-9 : -1e-9)), x1 = std::floor(b.x + (v & 1 ? 1e-6 : -1e-6)), y1 = std::floor(b.y + (v & 2 ? 1e-6 : -1e-6)), n = std::max(std::abs(x1 - x0), std::abs(y1 - y0)); if (x1 < -32 || y1 < -32 || x1 >= g.w + 32 || y1 >= g.h + 32) return false;
        for (int i = 1; i <= n; ++i) { double fx = x0 + 0.5 + (double) (x1 - x0) * i / n, fy = y0 + 0.5 + (double) (y1 - y0) * i / n; for (int k = 0; k < 4; ++k) { int cx = std::floor(fx + (k & 1 ? 1e-9 : -1e-9)), cy = std::floor(fy + (k & 2 ? 1e-9 : -1e-9)); if (g.in(cx, cy) && g.occ(cx, cy)) return false; } } }
    return true;
}
template <class A> void space(const char *name, const Grid &g, const GridMap2d *m, const Pose2d &from, const SearchOptions &so, size_t cap)
{
    A a; a.setMap(m); Cfg c = cfg<A>(); int N = c.straight; std::vector<const typename A::NodeT *> id; std::vector<const void *> prev; std::vector<S> s; All<A> t{cap, &id, &prev, &s}; mc::step(); a.setTimeLimit(3); clock_reads = 0; clock_step_ns = 0; clock_jump_at = 1 << 30;
    try { a.findPath(from, t, so); } catch (const OutsideMapException &) {} catch (const std::logic_error &) {} mc::exec(); std::string w = mc::fmt("%s, states from (%.2f,%.2f,%.2f) on %s, step %g, LA %g, steering %d x %g up to %d%s%s%s, penalties %g %g, duplicates %d", name, from.x, from.y, from.theta, show(g).c_str(), c.step, c.la, c.steps, c.delta, c.maxs, c.fwd ? ", forward" : "", c.bwd ? ", backward" : "", c.rev ? ", reversed" : "", so.penalty_turn, so.penalty_backward, !verif_queue_dedup);
    bool in = g.in(std::floor(from.x), std::floor(from.y)) && !g.occ(std::floor(from.x), std::floor(from.y)); if (s.empty() == in) mc::fail("%s: %zu states", w.c_str(), s.size()); if (s.empty()) return; std::map<const void *, size_t> at; std::map<std::pair<int, int>, std::vector<size_t>> cell; std::string why; double last = 0; std::vector<K> k(s.size()); bool cut = s.size() >= cap; unsigned starts = 0;
    for (size_t i = 0; i < s.size(); ++i) { S &n = s[i]; auto here = [&] { return mc::fmt("%s: state %zu (%.3f,%.3f,%.3f%s%d)", w.c_str(), i, n.x, n.y, n.th, n.fwd ? ">" : "<", n.steer); }; cell[{(int) std::floor(n.x), (int) std::floor(n.y)}].push_back(i); if (n.cost < last - 1e-9) mc::fail("%s with cost %g after one with cost %g", here().c_str(), n.cost, last); last = n.cost;
        if (!at.insert({id[i], i}).second) { if (verif_queue_dedup) mc::fail("%s is expanded again", here().c_str()); n = s[at[id[i]]]; k[i] = k[at[id[i]]]; continue; }
        if (!prev[i]) { ++starts; if (n.x != std::floor(from.x) || n.y != std::floor(from.y) || std::fabs(wrap(n.th - from.theta)) > 1e-9 || n.cost != 0 || n.steer) mc::fail("%s has no predecessor", here().c_str()); continue; }
        auto p = at.find(prev[i]); if (p == at.end() || p->second >= i) mc::fail("%s: its predecessor was not expanded before", here().c_str()); size_t j = p->second; const S &o = s[j]; bool first = !prev[j], ok = false; if (!line_ok(g, o, n, 32, why)) mc::fail("%s from (%.3f,%.3f,%.3f%s%d) %s", here().c_str(), o.x, o.y, o.th, o.fwd ? ">" : "<", o.steer, why.c_str());
        for (auto &q : moves(o, c, g.res, first, so)) if (!ok && allowed(o, k[j], q, N, first) && std::hypot(q.x - n.x, q.y - n.y) < 1e-6 && std::fabs(wrap(q.th - n.th)) < 1e-6 && q.fwd == n.fwd && q.steer == n.steer && std::fabs(q.cost - n.cost) < 1e-6) { ok = true; k[i] = follow(o, k[j], q, N, first); }
        if (!ok) mc::fail("%s with cost %g does not follow from its predecessor (%.3f,%.3f,%.3f%s%d) with cost %g, %d straight moves, %d owed", here().c_str(), n.cost, o.x, o.y, o.th, o.fwd ? ">" : "<", o.steer, o.cost, k[j].n, k[j].left); }
    if (!cut || s.size() > 2) if (starts != (unsigned) c.fwd + c.bwd && !(c.rev && starts == 1) && starts != 2) mc::fail("%s: %u states begin the search", w.c_str(), starts);
    for (size_t i = 0; i < s.size(); ++i) for (auto &q : moves(s[i], c, g.res, !prev[i], so)) if (allowed(s[i], k[i], q, N, !prev[i]) && (!cut || q.cost < last - 1e-6) && clear(g, s[i], q)) { bool ok = false; int x = std::floor(q.x - 1e-6), y = std::floor(q.y - 1e-6);
        for (int v = 0; v < 4 && !ok; ++v) { int u = x + (v & 1), b = y + (v >> 1); if (u > std::floor(q.x + 1e-6) || b > std::floor(q.y + 1e-6)) continue; auto it = cell.find({u, b}); if (it != cell.end()) for (size_t j : it->second) if (s[j].fwd == q.fwd && std::fabs(wrap(s[j].th - q.th)) < BIN && s[j].cost <= q.cost + 1e-6) { ok = true; break; } }
        if (!ok) mc::fail("%s: the motion from (%.3f,%.3f,%.3f%s%d) to (%.3f,%.3f,%.3f%s%d) is never made", w.c_str(), s[i].x, s[i].y, s[i].th, s[i].fwd ? ">" : "<", s[i].steer, q.x, q.y, q.th, q.fwd ? ">" : "<", q.steer); }
    if (s.size() > 10) mc::nontrivial(); mc::state(mc::Hash().u(s.size()).q(last).h); mc::step(s.size());
}
// every combination of step length, wheel base, steering and permitted directions; several resolutions
static void options(uint64_t i)
{
    Dec d(i); defaults(); static const double STEP[] = {0.4, 1, 1.5}, LA[] = {0.5, 1.2}, DEL[] = {20, 30}, RES[] = {1, 0.25, 0.4}; static const int MAX[] = {30, 50};
    DSN::distance_step = STEP[d(3)]; DSN::LA = LA[d(2)]; DSN::STEER_DELTA = DEL[d(2)]; DSN::steer_steps = 1 + d(2); DSN::MAX_STEER_ANGLE = MAX[d(2)]; int dir = d(3); DSN::allow_forward = dir != 1; DSN::allow_backward = dir != 0; DSN::reversed = d(2); double res = RES[d(3)]; int h = d(4), beh = d(2);
    if (DSN::distance_step < res) DSN::distance_step = 1.1 * res;   // moves within one cell are not meant
    Grid g = parse(MAPS[2], res); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; double t = DIR8[2 * h] + 0.3; double r = 1.5 * (beh ? -1 : 1) / res;
    Query q{{4.5, 0.5, t}, {4.5 + r * std::cos(t), 0.5 + r * std::sin(t), t + 0.1}}; one<SD>("dynamic", g, m.get(), q, SearchOptions(), mc::thorough ? 400 : 120);
    SearchOptions so; if (beh) { so.penalty_turn = 1.5; so.penalty_backward = 1.25; } space<SD>("dynamic", g, m.get(), q.s, so, mc::thorough ? 2000 : 120);
}
static size_t g_deep = 0;
static void spaces(uint64_t i)
{
    Dec d(i); int k = d(8), mi = d(4), h = d(8), si = d(6), dd = d(2), pi = d(2); defaults(); Grid g = parse(MAPS[mi]); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = dd; mc::pick_policy = POLICY[(i / 7) % 3]; static const double X[] = {0.5, 4, 8.7, 1.2, 5.9, 7.3}, Y[] = {0.5, 3.2, 1.5, 2.9, 0.1, 3.99}; Pose2d f(X[si], Y[si], DIR8[h] + (si == 2 ? 0.3 : 0)); SearchOptions so; if (pi) { so.penalty_backward = 1; so.penalty_turn = 1; } size_t cap = g_deep ? g_deep : mc::thorough ? 6000 : 500;
    switch (k) { case 0: space<SD>("dynamic", g, m.get(), f, so, cap); break; case 1: space<S1>("static", g, m.get(), f, so, cap); break; case 2: space<S2>("static, two steering steps", g, m.get(), f, so, cap); break; case 3: space<SF>("static, forward only", g, m.get(), f, so, cap); break; case 4: space<SR>("static, reversed", g, m.get(), f, so, cap); break; case 6: space<SR2>("static, reversed, two straight moves", g, m.get(), f, so, cap); break; case 7: space<Plain<SN3>>("static, uninformed", g, m.get(), f, so, cap); break; default: space<S3>("static, three straight moves", g, m.get(), f, so, cap); }
}

// the goal tolerance: an uninformed search ends at the first state, in order of cost, that lies within it
static int at_goal(const Cfg &c, double gx, double gy, double gth, double res, const S &s, const S *prev)   // -1: on the edge
{
    double a = std::fabs(wrap(gth - s.th)); if (std::fabs(a - c.ang_thr) < 1e-6) return -1; if (a > c.ang_thr) return 0; if (c.rev && !c.dyn) { if (s.left) return 0; if (!s.fwd) { gx -= std::cos(gth) * c.la / res; gy -= std::sin(gth) * c.la / res; } }
    double d = std::hypot(gx - s.x, gy - s.y) * res, t = c.dyn ? c.dist_thr : 0.05; if (std::fabs(d - t) < 1e-6) return -1; if (d < t) return 1; if (c.dyn || !prev) return 0;
    double vx = s.x - prev->x, vy = s.y - prev->y, l = vx * vx + vy * vy, u = std::max(0., std::min(1., ((gx - prev->x) * vx + (gy - prev->y) * vy) / l)); d = std::hypot(prev->x + u * vx - gx, prev->y + u * vy - gy) * res; return std::fabs(d - 0.1) < 1e-6 ? -1 : d < 0.1;
}
template <class A> static void tolerance(uint64_t i)
{
    Dec d(i); int h = d(4), ki = d(mc::thorough ? 60 : 16), oi = d(4); defaults(); DSN::goal_dist_threshold = 0.25; DSN::goal_angle_threshold = 0.2; DSN::reversed = h & 1; double res = 0.1; Grid g{90, 90, res, std::vector<uint8_t>(8100)}; auto m = to_map(g); verif_queue_dedup = 1; mc::pick_policy = POLICY[i % 3]; SearchOptions so; Cfg c = cfg<A>(); Pose2d from(45, 45, DIR8[2 * h] + 0.37 * h);
    static std::map<int, std::vector<S>> seen; static std::map<int, std::vector<int>> links; A a; a.setMap(m.get()); int key = h * 3 + i % 3; // the states of a search, explored once
    if (!seen.count(key)) { std::vector<const typename A::NodeT *> id; std::vector<const void *> prev; std::vector<S> s; All<A> t{(size_t) (mc::thorough ? 400 : 100), &id, &prev, &s}; a.setTimeLimit(3); clock_reads = 0; clock_step_ns = 0; clock_jump_at = 1 << 30; mc::step(); a.findPath(from, t, so); std::vector<int> l; for (auto p : prev) { l.push_back(-1); for (size_t j = 0; j < id.size(); ++j) if (id[j] == p) l.back() = j; } seen[key] = s; links[key] = l; }
    const auto &s = seen[key]; const auto &l = links[key]; double last = s.back().cost; size_t j = std::min(s.size() - 1, ki < 4 ? (size_t) ki : (size_t) ki * s.size() / (mc::thorough ? 60 : 16)); if (s[j].cost > last - 1e-6 && j) return; static const double TH[] = {0, 0.37, -0.37, 0.44}; double gth = s[j].th + TH[oi] * (c.dyn ? 0.5 : 1) + (oi == 2 ? 2 * M_PI : 0);
    double ex = s[j].x, ey = s[j].y; if (c.rev && !c.dyn && !s[j].fwd) { ex += std::cos(gth) * c.la / res; ey += std::sin(gth) * c.la / res; } double mid = l[j] < 0 ? 0 : 0.5, mx = l[j] < 0 ? 0 : (s[l[j]].x - s[j].x) * mid, my = l[j] < 0 ? 0 : (s[l[j]].y - s[j].y) * mid;
    for (int part = 0; part < 2; ++part) for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) { if (!mc::thorough && ((dx + dy + part) & 1)) continue; int gx = std::floor(ex + part * mx + dx), gy = std::floor(ey + part * my + dy); if (!g.in(gx, gy)) continue;
        int f = -1; bool edge = false, touched = false; for (size_t k = 0; k < s.size() && f < 0; ++k) { int r = at_goal(c, gx, gy, gth, res, s[k], l[k] < 0 ? nullptr : &s[l[k]]); if (r < 0) edge = true; if (r > 0) f = k; }
        if (edge || f < 0 || s[f].cost > last - 1e-6) continue; // a state in the goal's own cell and bin shifts the goal
        for (size_t k = 0; k < s.size() && s[k].cost <= s[f].cost + 1e-6 && !touched; ++k) { if (std::fabs(s[k].x - gx) < 1.001 && std::fabs(s[k].y - gy) < 1.001 && std::fabs(wrap(s[k].th - gth)) < BIN && l[k] >= 0) touched = true; for (auto &q : moves(s[k], c, res, l[k] < 0, so)) if (std::fabs(q.x - gx) < 1.001 && std::fabs(q.y - gy) < 1.001 && std::fabs(wrap(q.th - gth)) < BIN) touched = true; }
        if (touched) continue; Query q{from, {(double) gx, (double) gy, gth}}; if (c.rev) q = {q.t, q.s}; auto p = search(a, q, so, 100000); mc::exec(); std::string e; double cost = p.empty() ? -1 : c.rev ? p[0].cost : p.back().cost; if (p.empty()) e = "no path"; else if (std::fabs(cost - s[f].cost) > 1e-6) e = mc::fmt("cost %g", cost);
        if (!e.empty()) mc::fail("uninformed, step %g, LA %g, %d straight moves%s, empty map res 0.1, (%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f): %s, but the first state within the tolerance is (%.3f,%.3f,%.3f%s) with cost %g: %s", c.step, c.la, c.straight, c.rev ? ", reversed" : "", q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, e.c_str(), s[f].x, s[f].y, s[f].th, s[f].fwd ? ">" : "<", s[f].cost, show(p).c_str());
        if (p.size() > 1) mc::nontrivial(); mc::state(mc::Hash().q(cost).q(gth).u(gx).u(gy).h); }
}

void mc_setup()
{
    mc::bound("a 2x2 obstacle at every place of a 9x7 map x 8 headings x 3 goals, 4 cluttered maps x 8 headings x 24 start/goal pairs x 2 open set disciplines, for nine planners (configurable, static, static with two steering steps, forward only, reversed, two or three straight motions at switches, uninformed); searches cut after %d steps", mc::thorough ? 1500 : 250);
    mc::bound("3456 option combinations of the configurable neighbourhood (step, wheel base, steering step/count/limit, directions, reversed, resolution)");
    mc::bound("goal cells around %d poses and driven segments of five uninformed searches x 4 starts x 4 goal headings, resolution 0.1", mc::thorough ? 60 : 16);
    mc::bound("goals reached by every sequence of up to 3 moves in free space, two penalty settings, three planners, four headings");
    mc::bound("the first %d expanded states from 192 starts x 8 planners x 2 disciplines x 2 penalty settings, and %d per option combination: order, motions, costs, straight rule, every clear motion made", mc::thorough ? 6000 : 500, mc::thorough ? 2000 : 120);
    mc::assumption("start and goal are taken to the corner of their cell, as the planner's discretisation does; the planning area extends 32 cells beyond the map, outside counts as unknown");
    mc::assumption("when the resolution is finer than 0.5 only the poses and every (0.5/resolution)-th cell between them are collision tested by design; cells in between are judged only at coarser resolutions");
    mc::family("obstacle", 9 * 8 * 8 * 6 * 3, obstacles, 4, 120);
    mc::family("clutter", 9 * 4 * 8 * 6 * 4 * (mc::thorough ? 2 : 1), clutter, 4, 120);
    if (!mc::thorough) mc::family("long searches", 4 * 8 * 4 * 2, [](uint64_t i) { Dec d(i); int k = d(2), mi = d(2), h = d(8), si = d(4), dd = d(2); g_cap = 1500; clutter(k + 9 * (mi + 4 * (h + 8 * (si + 6 * (3 + 4 * dd))))); g_cap = 0; }, 4, 120);
    mc::family("options", 3 * 2 * 2 * 2 * 2 * 3 * 2 * 3 * 4 * 2, options, 4, 120);
    mc::family("state spaces", 8 * 4 * 8 * 6 * 2 * 2, spaces, 4, 120);
    if (!mc::thorough) mc::family("state spaces, deeper", 3 * 4 * 8 * 2, [](uint64_t i) { Dec d(i); static const int K[] = {2, 6, 7}; int k = K[d(3)], mi = d(4), h = d(8), pi = d(2); g_deep = 2500; spaces(k + 8 * (mi + 4 * (h + 8 * (h % 6 + 6 * ((h + mi) % 2 + 2 * pi))))); g_deep = 0; }, 1, 120);
    { uint64_t n = 4 * (mc::thorough ? 60 : 16) * 4; mc::family("tolerance, static", n, tolerance<Plain<SN3>>, 4, 120); mc::family("tolerance, reversed", n, tolerance<Plain<SNR>>, 4, 120); mc::family("tolerance, reversed, two straight", n, tolerance<Plain<SNR2>>, 4, 120); mc::family("tolerance, dynamic", n, tolerance<Plain<DSN>>, 4, 120); mc::family("tolerance, forward", n, tolerance<Plain<SNF>>, 4, 120); }
    mc::family("reach, dynamic", 4 * 2 * 3 * 216, reach<SD>, 4, 120);
    mc::family("reach, static", 4 * 2 * 3 * 216, reach<S1>, 4, 120);
    mc::family("reach, forward", 4 * 2 * 3 * 216, reach<SF>, 4, 120);
}

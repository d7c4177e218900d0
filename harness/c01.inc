// shared by C01 (validity) and C02 (completeness, optimality): WHAT selects what is judged
#include "generic.h"
using mc::Dec;
template <class A> void one(const char *name, const Grid &g, const GridMap2d *m, const Query &q, int N, int d, bool adm, const std::vector<double> *D, int pol, int dedup)
{
    mc::pick_policy = POLICY[pol]; verif_queue_dedup = dedup; A a; a.setMap(m);
    auto p = ask(a, q); std::string e = judge(g, p, q, N, d, WHAT, adm, Tolerance(g, q, d), D);
    if (!e.empty()) mc::fail("%s %s on %s (ties %d, duplicates %d): %s", name, show(q).c_str(), show(g).c_str(), pol, dedup, e.c_str());
    mc::exec(); if (p.size() > 1) { mc::nontrivial(); mc::state(mc::Hash().u(path_hash(p)).u(N).h); }
}
static void all(const Grid &g, const GridMap2d *m, const Query &q, int only, int pol, int dedup)
{
    int sx = std::floor(q.s.x), sy = std::floor(q.s.y); bool in = g.in(sx, sy); std::vector<double> d4, d8, d82;
    if (in) { d4 = reference(g, sx, sy, 4, 1); d8 = reference(g, sx, sy, 8, 1); if (only & 16) d82 = reference(g, sx, sy, 8, 2); }
    if (only & 1) one<L2_4>("4-connected/L2", g, m, q, 4, 1, true, in ? &d4 : nullptr, pol, dedup);
    if (only & 2) one<L2_8>("8-connected/L2", g, m, q, 8, 1, true, in ? &d8 : nullptr, pol, dedup);
    if (only & 4) one<L1_4>("4-connected/L1", g, m, q, 4, 1, true, in ? &d4 : nullptr, pol, dedup);
    if (only & 8) one<LI_8>("8-connected/Linf", g, m, q, 8, 1, true, in ? &d8 : nullptr, pol, dedup);
    if (only & 16) one<L2_8x2>("8-connected, two cells a step", g, m, q, 8, 2, true, in ? &d82 : nullptr, pol, dedup);
    if (only & 32) one<L1_8>("8-connected/L1", g, m, q, 8, 1, false, in ? &d8 : nullptr, pol, dedup);
    if (only & 64) one<NO_8>("8-connected/uninformed", g, m, q, 8, 1, true, in ? &d8 : nullptr, pol, dedup);
    if (only & 128) one<FIFO_4>("4-connected/breadth first", g, m, q, 4, 1, true, in ? &d4 : nullptr, pol, dedup);
}
static Grid ternary(uint64_t i, int w, int h, double res) { Grid g{w, h, res, std::vector<uint8_t>(w * h)}; for (auto &c : g.c) { c = i % 3; i /= 3; } return g; }
static Grid binary(uint64_t i, int w, int h, double res) { Grid g{w, h, res, std::vector<uint8_t>(w * h)}; for (auto &c : g.c) { c = i & 1 ? 2 : 0; i >>= 1; } return g; }
static const double RES[] = {1, 0.05, 2.5};
// every map of 3x3 cells of free / unknown / occupied, all start and goal cells
static void small(uint64_t i)
{
    Grid g = ternary(i, 3, 3, RES[i % 3]); mc::describe(show(g)); auto m = to_map(g);
    for (int s = 0; s < 9; ++s) for (int t = 0; t < 9; ++t) all(g, m.get(), {{s % 3 + 0.0, s / 3 + 0.0, 0.5}, {t % 3 + 0.0, t / 3 + 0.0, 0}}, mc::thorough ? 255 : 1 << ((i / 7 + s + t) % 8), (s + t) % 3, t & 1);
}
// every map of 4x3 / 5x3 free / occupied cells
template <int W, int H, int STEP> static void medium(uint64_t i)
{
    Grid g = binary(i, W, H, RES[i % 3]); mc::describe(show(g)); auto m = to_map(g); int n = W * H;
    for (int s = 0; s < n; ++s) { if (g.c[s]) continue; for (int t = (i + s) % STEP; t < n; t += mc::thorough ? 1 : STEP) all(g, m.get(), {{s % W + 0.0, s / W + 0.0, 0}, {t % W + 0.0, t / W + 0.0, 0}}, mc::thorough ? 255 : 3 << (2 * ((i + t) % 4)), (i + s + t) % 3, (i + t) & 1); }
}
// larger maps: every combination of walls with one gap
static void walls(uint64_t i)
{
    Dec d(i); int W = 9, H = 8; Grid g{W, H, RES[i % 3], std::vector<uint8_t>(W * H)};
    int g1 = d(H + 1), g2 = d(H + 1), g3 = d(H + 1), dense = d(2); int gaps[3] = {g1, g2, g3};
    for (int k = 0; k < 3; ++k) for (int y = 0; y < H; ++y) g.c[y * W + 2 + 2 * k] = y == gaps[k] ? 0 : 2;
    if (dense) { g.c[1 * W + 3] = 2; g.c[5 * W + 5] = 1; g.c[3 * W + 1] = 2; g.c[6 * W + 7] = 1; }
    mc::describe(show(g)); auto m = to_map(g);
    static const int Q[][4] = {{0, 0, 8, 7}, {0, 7, 8, 0}, {8, 4, 0, 4}, {3, 3, 7, 7}, {5, 0, 0, 0}};
    for (auto &q : Q) for (int pol = 0; pol < 3; ++pol) all(g, m.get(), {{q[0] + 0.0, q[1] + 0.0, 1}, {q[2] + 0.0, q[3] + 0.0, 0}}, 255, pol, (pol + q[0]) & 1);
}
// every pair (thorough: triple) of bars of one to four cells on an open map
struct Bar { int x, y, dx, n; };
static std::vector<Bar> bars_of(int W, int H) { std::vector<Bar> b; for (int n = 1; n <= 4; ++n) for (int dx = 0; dx < (n == 1 ? 1 : 2); ++dx) for (int y = 0; y + (dx ? 0 : n - 1) < H; ++y) for (int x = 0; x + (dx ? n - 1 : 0) < W; ++x) b.push_back({x, y, dx, n}); return b; }
static const int BW = 7, BH = 6; static const std::vector<Bar> BARS = bars_of(BW, BH);
static void bars(uint64_t i)
{
    Dec d(i); int a = d(BARS.size()), b = d(BARS.size()); int c = mc::thorough ? (int) d((BARS.size() + 6) / 7) * 7 + (a + b) % 7 : -1; if (b > a || c >= (int) BARS.size()) return;
    Grid g{BW, BH, RES[i % 3], std::vector<uint8_t>(BW * BH)}; for (int k : {a, b, c}) if (k >= 0) for (int j = 0; j < BARS[k].n; ++j) g.c[(BARS[k].y + (BARS[k].dx ? 0 : j)) * BW + BARS[k].x + (BARS[k].dx ? j : 0)] = 2;
    mc::describe(show(g)); auto m = to_map(g);
    static const int Q[][4] = {{0, 0, BW - 1, BH - 1}, {0, BH - 1, BW - 1, 1}, {BW - 1, 2, 0, 2}}; int k = 0;
    for (auto &q : Q) { all(g, m.get(), {{q[0] + 0.0, q[1] + 0.0, 1}, {q[2] + 0.0, q[3] + 0.0, 0}}, 3 << (2 * ((i / 3 + k) % 4)) | 2, (a + b + k) % 3, (a + k) & 1); ++k; }
}
// positions inside cells, on cell borders and outside the map
static void poses(uint64_t i)
{
    Dec d(i); int mi = d(3); static const char *MAPS[] = {"..../.#../....", "..../##?./....", ".#../..../...."};
    static const double X[] = {-2, -1, -0.5, 0, 0.25, 0.999, 1, 1.5, 2, 2.999, 3, 3.999, 4, 4.5, 70, -70}; static const double Y[] = {-1, -0.25, 0, 0.75, 1.5, 2, 2.999, 3, 40};
    double sx = X[d(16)], sy = Y[d(9)]; Grid g = parse(MAPS[mi], RES[mi]); auto m = to_map(g); mc::describe(show(g) + mc::fmt(" from (%g,%g)", sx, sy));
    for (double tx : X) for (double ty : Y) all(g, m.get(), {{sx, sy, 0}, {tx, ty, 0}}, 67, 0, 1);
}
// all ties of the open set, up to a number of deviations
static void ties(uint64_t i)
{
    Dec d(i); uint64_t c = d(512); int s = d(4), dedup = d(2); static const int S[] = {0, 2, 6, 8};
    Grid g = binary(c, 3, 3, 1); g.c[S[s]] = 0; auto m = to_map(g); int t = 8 - S[s]; Query q{{S[s] % 3 + 0.0, S[s] / 3 + 0.0, 0}, {t % 3 + 0.0, t / 3 + 0.0, 0}}; mc::describe(show(g) + " " + show(q) + ", all ties");
    verif_queue_dedup = dedup;
    int dev = mc::thorough ? 4 : 2;
    mc::explore([&] { A4 a; a.setMap(m.get()); auto p = ask(a, q); std::string e = judge(g, p, q, 4, 1, WHAT, true, Tolerance(g, q, 1)); if (!e.empty()) mc::fail("4-connected %s on %s: %s", show(q).c_str(), show(g).c_str(), e.c_str()); mc::exec(); if (p.size() > 1) { mc::nontrivial(); mc::state(path_hash(p)); } }, dev, 200000);
    mc::explore([&] { A8 a; a.setMap(m.get()); auto p = ask(a, q); std::string e = judge(g, p, q, 8, 1, WHAT, true, Tolerance(g, q, 1)); if (!e.empty()) mc::fail("8-connected %s on %s: %s", show(q).c_str(), show(g).c_str(), e.c_str()); mc::exec(); if (p.size() > 1) { mc::nontrivial(); mc::state(path_hash(p)); } }, dev, 200000);
}
// caller-supplied goal tests: exact cell, a set of cells, everything
template <class A> struct CellTest {
    A *a; std::vector<std::pair<int, int>> cells; Pose2d hint; bool use_hint;
    const Pose2d *getHeuristicGoal() const { return use_hint ? &hint : nullptr; }
    bool contains(int x, int y) const { for (auto &c : cells) if (c.first == x && c.second == y) return true; return false; }
    bool terminate(const typename A::NodeT *n) const { if (!contains(n->x, n->y)) return false; a->addGoalCandidate(n, 0); return true; }
};
template <class A> void goal_one(const char *name, const Grid &g, const GridMap2d *m, int s, const std::vector<std::pair<int, int>> &cells, int N, bool hint, int pol)
{
    mc::pick_policy = POLICY[pol]; verif_queue_dedup = pol & 1; A a; a.setMap(m); CellTest<A> t{&a, cells, Pose2d(cells[0].first, cells[0].second, 0), hint};
    Query q{{s % g.w + 0.0, s / g.w + 0.0, 0}, {0, 0, 0}}; mc::step(); auto p = a.findPath(q.s, t);
    std::string e = judge(g, p, q, N, 1, WHAT, true, [&](int x, int y) { return t.contains(x, y); });
    if (e.empty() && (WHAT & COST) && !p.empty()) { auto D = reference(g, q.s.x, q.s.y, N, 1); double best = INFINITY; for (auto &c : cells) best = std::min(best, D[c.second * g.w + c.first]); if (std::fabs(best - path_cost(p, g.res)) > 1e-6 * (1 + best)) e = mc::fmt("costs %g, the cheapest of the goals %g: ", path_cost(p, g.res), best) + show_path(p); }
    if (!e.empty()) mc::fail("%s goal test from (%g,%g) on %s: %s", name, q.s.x, q.s.y, show(g).c_str(), e.c_str());
    mc::exec(); if (p.size() > 1) mc::nontrivial();
}
static void goal_tests(uint64_t i)
{
    Grid g = binary(i, 4, 3, RES[i % 3]); mc::describe(show(g) + ", goal tests"); auto m = to_map(g);
    for (int s = 0; s < 12; ++s) { if (g.c[s]) continue; for (int t = (i + s) % 2; t < 12; t += mc::thorough ? 1 : 2) {
        std::vector<std::pair<int, int>> one{{t % 4, t / 4}}, two{{t % 4, t / 4}, {(t + 5) % 12 % 4, (t + 5) % 12 / 4}}; auto &c = (i + t) & 1 ? one : two;
        goal_one<A4>("4-connected", g, m.get(), s, c, 4, (s + t) & 1, (i + t) % 3); goal_one<A8>("8-connected", g, m.get(), s, c, 8, (s + t) & 1, (i + s) % 3);
    } }
}
void mc_setup()
{
    mc::bound("every 3x3 map of free/unknown/occupied cells x 81 start/goal pairs; every 4x3 map%s of free/occupied cells x start/goal pairs; 1458 9x8 maps with three walls and one gap each; every %s of bars of 1-4 cells on a 7x6 map; resolutions 1, 0.05, 2.5; values on both ends of each class", mc::thorough ? " and 5x3 map" : "", mc::thorough ? "triple (every seventh third bar)" : "pair");
    mc::bound("planners: 4- and 8-connected with L2, L1, Linf heuristics, uninformed, breadth first and two-cell steps; open set ties: three fixed orders everywhere, all orders up to %d deviations on 3x3 maps; open set with and without duplicates", mc::thorough ? 4 : 2);
    mc::bound("start and goal positions inside cells, on borders and outside (16x9 each); caller-supplied goal tests on every 4x3 map");
    mc::assumption("the open set (package cslibs_navigation_utilities, not installed) hands out an element no other one is cheaper than; ties are the explorer's choice");
    mc::family("maps 3x3 ternary", 19683, small);
    mc::family("maps 4x3", 4096, medium<4, 3, 2>);
    if (mc::thorough) mc::family("maps 5x3", 32768, medium<5, 3, 5>);
    mc::family("walls", 9 * 9 * 9 * 2, walls);
    mc::family("bars", BARS.size() * BARS.size() * (mc::thorough ? (BARS.size() + 6) / 7 : 1), bars, 16);
    mc::family("positions", 3 * 16 * 9, poses);
    mc::family("ties", 512 * 4 * 2, ties);
    mc::family("goal tests", 4096, goal_tests);
}

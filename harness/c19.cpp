// C19: selection among words, collisions, no memory
#include "rs.h"
#include <set>
using namespace rs; using mc::Dec;
static std::vector<std::string> W;
static std::vector<Segs> WS;
static const double R = 3.25, SPC = 0.5;
static void setup(CurveGenerator &g, double res = 1.0) { g.set_circle_radius(R * res); g.set_max_waypoint_distance(SPC * res); }
static bool parse(CurveGenerator &g, const std::string &w) { std::stringstream ss; return g.parse(w, ss); }
static const Costs CO[] = {{1, 1, 1, 1}, {1, 2.5, 1.3, 1}, {2, 1, 1, 1.5}};
static void costs(CurveGenerator &g, const Costs &c) { g.set_cost_forwards(c.fwd); g.set_cost_backwards(c.bwd); g.set_cost_curve(c.curve); g.set_cost_straight(c.straight); }
// reference answers of the pose grid, computed once
struct Known { bool have = false, edge = false; std::vector<Sol> sols; };
static std::vector<Known> TABLE;
static const Known &known(int w, int ci, int pose, const P &st, const P &go)
{
    size_t k = ((size_t) pose * 3 + ci) * 80 + w; if (TABLE.size() <= k) TABLE.resize(k + 1);
    Known &n = TABLE[k]; if (!n.have) { n.have = true; n.sols = solve(WS[w], st, go, R, CO[ci], n.edge); for (auto &s : n.sols) Segs().swap(s.segs); }
    return n;
}
// --- the least weight among the words, with and without a limit on the total turn --------------------
static void selection(uint64_t i)
{
    Dec d(i); int kind = d(4), shift = d(80), ci = d(3), lim = d(4);
    static const double LIM[] = {0, M_PI, TAU, 1.0};
    if (!mc::thorough && kind < 2 && shift % 8) return;
    CurveGenerator g; setup(g); costs(g, CO[ci]); if (lim) g.set_max_curve_arc(LIM[lim]);
    std::vector<int> set;
    if (kind == 0) for (int k = 0; k < 80; ++k) set.push_back((k + shift) % 80);              // every rotation
    else if (kind == 1) for (int k = 0; k < 80; ++k) set.push_back((shift * 1 + 79 * k) % 80); // every reversed rotation
    else if (kind == 2) for (int k = 0; k <= shift; ++k) set.push_back(k);                      // every prefix
    else for (int k = 0; k < 4; ++k) set.push_back((shift + 23 * k) % 80);                      // small sets
    mc::describe(mc::fmt("%zu words beginning with %s, costs %d, turn limit %g", set.size(), W[set[0]].c_str(), ci, LIM[lim]));
    for (int w : set) parse(g, W[w]);
    auto m = freemap(3, 3, 1.0); P st = {5.3, 6.1, 0.4};
    int n = mc::thorough ? 4 : 2, nh = mc::thorough ? 12 : 6;
    for (int iy = -n; iy <= n; ++iy) for (int ix = -n; ix <= n; ++ix) for (int h = 0; h < nh; ++h) {
        P go = {st.x + ix * (mc::thorough ? 3.37 : 6.7) + 0.11, st.y + iy * (mc::thorough ? 3.29 : 6.5) - 0.07, h * TAU / nh + 0.21};
        // per word the cheaper of its solutions counts; the limit applies to that one
        double best = 1e300, sure = 1e300; bool vague = false;
        for (int w : set) {
            const Known &kn = known(w, ci, ((iy + n) * (2 * n + 1) + ix + n) * nh + h, st, go); auto &sols = kn.sols; if (kn.edge) vague = true; if (sols.empty()) continue;
            double bw = 1e300; for (auto &s : sols) bw = std::min(bw, s.weight);
            bool any = false, all = true;
            for (auto &s : sols) if (s.weight <= bw + tolw(bw)) { bool ok = !lim || s.arc < LIM[lim]; if (lim && std::fabs(s.arc - LIM[lim]) < 1e-3) vague = true; any |= ok; all &= ok; }
            if (any) best = std::min(best, bw);
            if (all) sure = std::min(sure, bw);
        }
        if (vague) continue;
        std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m.get(), true)); mc::step(); mc::exec();
        if (!c) { if (sure < 1e299) mc::fail("%zu words beginning with %s to %s: nothing found, a curve of weight %g exists", set.size(), W[set[0]].c_str(), str(go).c_str(), sure); continue; }
        if (best > 1e299) mc::fail("%zu words beginning with %s to %s: curve of weight %g and turn %g reported, no word allows one", set.size(), W[set[0]].c_str(), str(go).c_str(), c->weight(), c->curve_arc());
        if (c->weight() > sure + tolw(sure) || c->weight() < best - tolw(best)) mc::fail("%zu words beginning with %s to %s: weight %g, the cheapest is %g", set.size(), W[set[0]].c_str(), str(go).c_str(), c->weight(), sure);
        if (lim && !(c->curve_arc() < LIM[lim])) mc::fail("the curve turns by %g, the limit is %g", c->curve_arc(), LIM[lim]);
        mc::nontrivial(); mc::state(mc::Hash().q(c->weight(), 1e-3).u(set[0]).h);
    }
}
// --- collisions --------------------------------------------------------------------------------------
enum { MW = 34, MH = 30 };
struct Class { bool blocked, clear; };
static Class classify(const Sol &s, const P &st, double r, const std::vector<char> &occ)
{
    Class c = {false, true};
    sample(s, st, r, 0.35, [&](const P &p) {
        int cx = (int) std::floor(p.x), cy = (int) std::floor(p.y), bad = 0, in = 0;
        for (int y = cy - 3; y <= cy + 3; ++y) for (int x = cx - 3; x <= cx + 3; ++x) { bool o = x < 0 || y < 0 || x >= MW || y >= MH || occ[y * MW + x]; bad += o; in++; }
        if (bad) c.clear = false;
        if (bad == in) c.blocked = true;
    });
    return c;
}
static void judge(CurveGenerator &g, const std::vector<int> &set, const P &st, const P &go, SimpleGridMap2d *m, const std::vector<char> &occ, const Costs &k, const char *what)
{
    bool vague = false; double must = 1e300; std::vector<std::pair<Sol, int>> may;
    for (int w : set) {
        bool edge; auto sols = solve(WS[w], st, go, R, k, edge); vague |= edge;
        for (auto &s : sols) { Class c = classify(s, st, R, occ); if (c.clear) must = std::min(must, s.weight); if (!c.blocked) may.push_back({s, w}); }
    }
    if (vague) return;
    std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m)); mc::step(); mc::exec();
    bool valid = c && c->is_valid();
    auto at = [&]() { return mc::fmt("%s, %s from %s to %s", what, set.size() == 1 ? W[set[0]].c_str() : "all words", str(st).c_str(), str(go).c_str()); };
    if (!valid) { if (must < 1e299) mc::fail("%s: nothing found although a curve of weight %g is clear of obstacles and border by three cells", at().c_str(), must); mc::state(1); return; }
    if (c->weight() > must + tolw(must)) mc::fail("%s: weight %g although a curve of weight %g is clear", at().c_str(), c->weight(), must);
    bool ok = false; for (auto &s : may) if (std::fabs(s.first.weight - c->weight()) <= tolw(c->weight())) ok = true;
    if (!ok) mc::fail("%s: the curve of weight %g runs through cells that are occupied or outside with all cells around them", at().c_str(), c->weight());
    // the way-points themselves never sit in the middle of an occupied region
    for (auto &p : waypoints(*c)) {
        int cx = (int) std::floor(p.x), cy = (int) std::floor(p.y); bool all = true;
        for (int y = cy - 3; y <= cy + 3 && all; ++y) for (int x = cx - 3; x <= cx + 3 && all; ++x) all = x < 0 || y < 0 || x >= MW || y >= MH || occ[y * MW + x];
        if (all) mc::fail("%s: the way-point (%g,%g) of the curve reported lies inside an obstacle", at().c_str(), p.x, p.y);
    }
    mc::nontrivial(); mc::state(mc::Hash().q(c->weight(), 1e-3).h);
}
static const P GOALS[] = {{24.4, 18.7, 0.6}, {20.2, 6.3, 2.5}, {9.1, 22.2, -1.9}, {24.9, 14.2, 3.3}, {14.6, 16.1, 0.2}, {22.3, 22.8, 1.6}};
static void obstacle(uint64_t i)
{
    Dec d(i); int w = d(W.size() + 1), gi = d(6), size = d(2); P st = {11.7, 12.4, 0.5}; P go = GOALS[gi];
    std::vector<int> set; if (w < (int) W.size()) set.push_back(w); else for (size_t k = 0; k < W.size(); ++k) set.push_back(k);
    int stride = w < (int) W.size() ? (mc::thorough ? 1 : 2) : 2, n = size ? 11 : 7;
    CurveGenerator g; setup(g); costs(g, CO[1]); for (int k : set) parse(g, W[k]);
    mc::describe(mc::fmt("%s to goal %d, every position of a block of %d cells", set.size() == 1 ? W[w].c_str() : "all words", gi, n));
    auto m = freemap(MW, MH, 1.0); 
    for (int by = 2 - n; by < MH - 1; by += stride) for (int bx = 2 - n; bx < MW - 1; bx += stride) {
        std::vector<char> occ(MW * MH, 0);
        for (int y = 0; y < MH; ++y) for (int x = 0; x < MW; ++x) { bool o = x >= bx && x < bx + n && y >= by && y < by + n; occ[y * MW + x] = o; m->setValue(x, y, o ? 250 : 0); }
        judge(g, set, st, go, m.get(), occ, CO[1], mc::fmt("block of %d at (%d,%d)", n, bx, by).c_str());
    }
}
// one occupied cell: with headings along the axes, poses in the middle of cells and a radius of whole cells the first and
// last arc and lines along an axis have their cells without any rounding. A cell through whose middle they run blocks
static void single(uint64_t i)
{
    static const int GX[] = {9, -8, 14, 3, 0, 12, -11, 6, 0}, GY[] = {0, 0, 5, -9, 7, -12, 8, 6, -10};
    Dec d(i); int w = d(W.size()), gi = d(9), hs = d(4), hg = d(4); int rc = 3 + d(2), cost = d(2); double res = d(2) ? 0.5 : 1.0;
    if (!mc::thorough && (w + gi + hs + hg) % 4) return;
    mc::describe(mc::fmt("%s turned by %d, goal %d turned by %d, radius %d cells, resolution %g, map costs %d: every single occupied cell", W[w].c_str(), hs * 90, gi, hg * 90, rc, res, cost));
    // find_path takes cells
    P st = {18.5, 16.5, hs * M_PI / 2}, go = {st.x + GX[gi], st.y + GY[gi], hg * M_PI / 2}; bool edge; auto sols = solve(WS[w], st, go, rc, Costs(), edge); if (edge || sols.empty()) return;
    CurveGenerator g; g.set_circle_radius(rc * res); g.set_max_waypoint_distance(SPC * res); parse(g, W[w]); if (cost) g.set_use_map_cost(true);
    enum { N = 42 }; auto m = freemap(N, N, res); const int base = cost ? 55 : 0; for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) m->setValue(x, y, base);
    std::vector<int> hit(N * N, 0), near(N * N, 0); // bits: solutions
    for (size_t k = 0; k < sols.size(); ++k) {
        P p = st; auto &sg = sols[k].segs;
        for (size_t q = 0; q < sg.size(); ++q) {
            Seg s = sg[q]; P c = {p.x - rc * s.steer * sin(p.th), p.y + rc * s.steer * cos(p.th), 0}; bool ends = q == 0 || q + 1 == sg.size(), axis = std::fabs(sin(2 * p.th)) < 1e-9 && std::fabs(p.x - std::floor(p.x) - 0.5) < 1e-6 && std::fabs(p.y - std::floor(p.y) - 0.5) < 1e-6;
            if (q + 1 == sg.size() && s.steer) c = {go.x - rc * s.steer * sin(go.th), go.y + rc * s.steer * cos(go.th), 0};
            for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) {
                double mx = x + 0.5, my = y + 0.5; if (std::fabs(mx - p.x) > s.len + 8 || std::fabs(my - p.y) > s.len + 8) continue;
                if (s.steer == 0) {
                    double u = s.dir * ((mx - p.x) * cos(p.th) + (my - p.y) * sin(p.th)), v = std::fabs((my - p.y) * cos(p.th) - (mx - p.x) * sin(p.th));
                    if (axis && s.len > 1e-3 && v < 0.01 && u > -0.01 && u < s.len + 0.01) hit[y * N + x] |= 1 << k;
                } else if (ends) {
                    double rd = std::hypot(mx - c.x, my - c.y), a = wrap0(s.dir * s.steer * (atan2(my - c.y, mx - c.x) - (p.th - s.steer * M_PI / 2)));
                    if (std::fabs(rd - rc) < 0.3 && a > 0.02 && a < s.len / rc - 0.02) hit[y * N + x] |= 1 << k;
                }
            }
            // arcs without length have no cells but those where they begin
            int n = std::max(1, (int) std::ceil(s.len / 0.2));
            for (int j = 0; j <= n; ++j) { P t = advance(p, s, s.len * j / n, rc); for (int y = std::max(0, (int) std::floor(t.y) - 3); y <= std::min(N - 1, (int) std::floor(t.y) + 3); ++y) for (int x = std::max(0, (int) std::floor(t.x) - 3); x <= std::min(N - 1, (int) std::floor(t.x) + 3); ++x) if (std::max(std::fabs(x + 0.5 - t.x), std::fabs(y + 0.5 - t.y)) < 2.6) near[y * N + x] |= 1 << k; }
            p = advance(p, s, s.len, rc);
        }
    }
    const int all = (1 << sols.size()) - 1; int border = 0;
    for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) if (!x || !y || x == N - 1 || y == N - 1) border |= near[y * N + x];
    auto at = [&]() { return mc::fmt("%s from %s to %s, radius %d cells, resolution %g", W[w].c_str(), str(st).c_str(), str(go).c_str(), rc, res); };
    for (int y = 0; y < N; ++y) for (int x = 0; x < N; ++x) {
        int j = y * N + x; if (!near[j] && (x * 3 + y) % 11) continue;
        m->setValue(x, y, 250); std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m.get())); m->setValue(x, y, base); mc::step(); mc::exec();
        bool valid = c && c->is_valid(); 
        if (valid && hit[j] == all) mc::fail("%s: a curve is reported although it runs through the middle of the occupied cell (%d,%d)", at().c_str(), x, y);
        if (!valid && ((near[j] | border) & all) != all) mc::fail("%s: nothing found although the only occupied cell (%d,%d) is far from the curve", at().c_str(), x, y);
        if (hit[j] == all) mc::nontrivial(); mc::state(mc::Hash().u(valid).u(hit[j]).u(near[j]).u(w).u(gi).h);
    }
}
// the border of the map: every position of start and goal close to it, and beyond
static void border(uint64_t i)
{
    Dec d(i); int w = d(W.size()), h0 = d(mc::thorough ? 8 : 4), h1 = d(4); std::vector<int> set(1, w);
    CurveGenerator g; setup(g); parse(g, W[w]); auto m = freemap(MW, MH, 1.0); std::vector<char> occ(MW * MH, 0);
    mc::describe(mc::fmt("%s along the border", W[w].c_str()));
    static const double X[] = {-5.2, 0.4, 3.6, 7.3, 17.1, 26.2, 30.4, 33.5, 39.4}, Y[] = {-5.3, 0.3, 3.7, 7.1, 15.2, 22.4, 26.3, 29.7, 35.2};
    for (int a = 0; a < 81; a += 2) for (int k = 0; k < 10; ++k) {
        P st = {X[a % 9], Y[a / 9], h0 * TAU / (mc::thorough ? 8 : 4) + 0.1}; double ang = k * TAU / 10, len = k & 1 ? 9.3 : 5.2;
        P go = {st.x + len * cos(ang), st.y + len * sin(ang), h1 * TAU / 4 + 0.3};
        judge(g, set, st, go, m.get(), occ, CO[0], "empty map");
    }
}
// --- nothing is remembered ----------------------------------------------------------------------------
struct Res { bool valid; double weight; std::vector<Pose2d> w; };
static bool operator==(const Res &a, const Res &b)
{
    if (a.valid != b.valid || a.weight != b.weight || a.w.size() != b.w.size()) return false;
    for (size_t i = 0; i < a.w.size(); ++i) if (a.w[i].x != b.w[i].x || a.w[i].y != b.w[i].y || a.w[i].theta != b.w[i].theta) return false;
    return true;
}
static SimpleGridMap2d *hmap(int k)
{
    static std::unique_ptr<SimpleGridMap2d> m[3];
    if (!m[k]) { m[k] = freemap(k == 2 ? 60 : MW, MH, k == 2 ? 0.5 : 1.0); for (int y = 0; y < MH; ++y) for (int x = 0; x < MW; ++x) m[k]->setValue(x, y, k == 1 && x > 15 && x < 19 && y > 10 ? 250 : k == 1 ? 30 : 5); }
    return m[k].get();
}
static const int NQ = 5;
static Res query(CurveGenerator &g, int q)
{
    static const struct { P st, go; int map; bool ignore; } QQ[] = {{{8.3, 15.2, 0.3}, {25.2, 16.1, 0.9}, 0, false}, {{8.3, 15.2, 0.3}, {25.2, 16.1, 0.9}, 1, false}, {{9.1, 9.3, 2.0}, {14.6, 12.9, -1.2}, 2, false}, {{8.3, 15.2, 0.3}, {8.9, 15.4, 0.9}, 0, true}, {{25.0, 20.0, M_PI}, {14.0, 20.0, M_PI}, 1, true}};
    std::unique_ptr<Curve> c(g.find_path(pose(QQ[q].st), pose(QQ[q].go), hmap(QQ[q].map), QQ[q].ignore)); mc::step();
    Res r = {false, 0, {}}; if (c) { r.valid = c->is_valid(); r.weight = c->weight(); r.w = waypoints(*c); } return r;
}
struct Settings { int v[8]; };
static void apply(CurveGenerator &g, int what, int val)
{
    switch (what) {
    case 0: g.set_circle_radius(val ? 2.0 : 3.25); break;
    case 1: g.set_max_waypoint_distance(val ? 1.5 : 0.5); break;
    case 2: g.set_cost_backwards(val ? 3.0 : 1.0); break;
    case 3: g.set_cost_forwards(val ? 2.0 : 1.0); break;
    case 4: g.set_cost_curve(val ? 1.4 : 1.0); break;
    case 5: g.set_cost_straight(val ? 1.6 : 1.0); break;
    case 6: g.set_use_map_cost(val); break;
    case 7: g.set_min_cell_cost(val ? 25 : 10); break;
    case 8: g.set_max_curve_arc(val ? 2.0 : 100.0); break;
    }
}
static const char *SETS[3][8] = {{"LSL", "LSR", "RSL", "RSR", "LRL", "RLR", 0, 0}, {"|LSL", "LS|R", "L|R|L", "R|L|R", "LR|LR", "RL|R", "RL|RL", 0}, {"R|S|L", "LRLR", "RSR", "LSR", "|L|RL", 0, 0, 0}};
static void history(uint64_t i)
{
    Dec d(i); int set = d(3), o1 = d(9 + NQ), o2 = d(9 + NQ), o3 = d(9 + NQ), extra = d(mc::thorough ? 9 + NQ : 1);
    mc::describe(mc::fmt("word set %d, operations %d %d %d %d", set, o1, o2, o3, extra));
    CurveGenerator g; setup(g); for (int k = 0; k < 8 && SETS[set][k]; ++k) parse(g, SETS[set][k]);
    int val[9] = {0, 0, 0, 0, 0, 0, 0, 0, 0}; bool touched[9] = {false};
    int ops[] = {o1, o2, o3, extra}; int n = mc::thorough ? 4 : 3; std::unique_ptr<Curve> kept;
    for (int k = 0; k < n; ++k) {
        if (ops[k] < 9) { val[ops[k]] ^= 1; touched[ops[k]] = true; apply(g, ops[k], val[ops[k]]); mc::step(); }
        else query(g, ops[k] - 9);
    }
    for (int q = 0; q < NQ; ++q) {
        Res r = query(g, q); CurveGenerator f; setup(f); for (int k = 0; k < 9; ++k) if (touched[k]) apply(f, k, val[k]);
        // the words in the opposite order: the same weight (ties may fall to another word)
        for (int k = 0; k < 8 && SETS[set][k]; ++k) parse(f, SETS[set][k]);
        Res e = query(f, q); mc::exec(); if (e.valid) mc::nontrivial();
        if (!(r == e)) mc::fail("query %d after operations %d %d %d (word set %d): weight %.17g, %zu way-points; a fresh generator with the same settings: %.17g, %zu", q, o1, o2, o3, set, r.weight, r.w.size(), e.weight, e.w.size());
        CurveGenerator b; setup(b); for (int k = 0; k < 9; ++k) if (touched[k]) apply(b, k, val[k]);
        for (int k = 7; k >= 0; --k) if (SETS[set][k]) parse(b, SETS[set][k]);
        Res x = query(b, q); if (x.valid != e.valid || std::fabs(x.weight - e.weight) > tolw(e.weight)) mc::fail("query %d: with the words in the opposite order the weight is %g instead of %g", q, x.weight, e.weight);
        mc::state(mc::Hash().u(q).q(e.weight, 1e-4).u(e.w.size()).h);
    }
}
// a curve stays what it was while its generator answers other queries, takes other words or is destroyed
static void lifetime(uint64_t i)
{
    Dec d(i); int set = d(3), q = d(NQ), p = d(NQ), dead = d(3);
    mc::describe("curves kept across queries");
    std::unique_ptr<CurveGenerator> g(new CurveGenerator); setup(*g); for (int k = 0; k < 8 && SETS[set][k]; ++k) parse(*g, SETS[set][k]);
    static const P ST = {8.3, 15.2, 0.3}; static const P GO[] = {{25.2, 16.1, 0.9}, {20.2, 9.1, 2.2}, {9.0, 5.5, -2.0}, {16.2, 24.4, 0.1}, {3.9, 20.4, 1.0}};
    std::unique_ptr<Curve> c(g->find_path(pose(ST), pose(GO[q]), hmap(0))); mc::exec(); if (!c) return;
    double w = c->weight(); auto wp = waypoints(*c); size_t half = wp.size() / 2;
    c->reset_iteration(); for (size_t k = 0; k < half; ++k) c->next();
    std::unique_ptr<Curve> o(g->find_path(pose(ST), pose(GO[p]), hmap(1)));
    g->set_circle_radius(1.5); g->set_max_waypoint_distance(2.0); o.reset(g->find_path(pose(ST), pose(GO[p]), hmap(2)));
    if (dead == 1) parse(*g, "LRL"); if (dead == 2) g.reset();
    for (size_t k = half; k < wp.size(); ++k) { if (!c->has_next()) mc::fail("the iteration ends early"); Pose2d x = c->next(); if (x.x != wp[k].x || x.y != wp[k].y || x.theta != wp[k].theta) mc::fail("way-point %zu of a curve changed while its generator was used", k); }
    if (c->has_next() || c->weight() != w) mc::fail("a curve changed while its generator was used");
    mc::nontrivial(); mc::state(mc::Hash().u(i).h);
}
void mc_setup()
{
    W = words(); for (auto &w : W) { Segs s; spell(w, s); WS.push_back(s); }
    mc::bound("every rotation, reversed rotation and prefix of the 80 words and small sets, 3 cost settings, 4 limits of the total turn, %d goal poses each", mc::thorough ? 9 * 9 * 12 : 5 * 5 * 6);
    mc::bound("every position (step %d) of blocks of 7 and 11 cells on a %dx%d map, each word and all words together, 6 goals; starts and goals on, near and beyond the border", mc::thorough ? 1 : 2, MW, MH);
    mc::bound("every single occupied cell on and near the curve of each word, 9 goals, 4 headings each, 2 radii, 2 resolutions, with and without map costs%s", mc::thorough ? "" : " (every fourth)");
    mc::bound("every sequence of %d setter calls and queries (9 setters, 5 queries on 3 maps) with 3 word sets against a fresh generator", mc::thorough ? 4 : 3);
    mc::assumption("collision tests work on cells: a curve is judged free or colliding only where all or none of the cells up to three around a point of it are blocked");
    mc::family("selection", 4 * 80 * 3 * 4, selection, 30);
    mc::family("obstacle blocks", (W.size() + 1) * 6 * 2, obstacle, 2);
    mc::family("single cells", W.size() * 9 * 16 * 8, single, 30);
    mc::family("border", W.size() * (mc::thorough ? 8 : 4) * 4, border);
    mc::family("histories", 3 * mc::ipow(9 + NQ, 3) * (mc::thorough ? 9 + NQ : 1), history);
    mc::family("lifetimes", 3 * NQ * NQ * 3, lifetime);
}

// C32: curve costs on cost maps
#include "rs.h"
using namespace rs; using mc::Dec;
static std::vector<std::string> W; static std::vector<Segs> WS;
enum { MW = 46, MH = 42, BASE = 6, NEAR = 3 };
static const Costs CO = {1, BASE, BASE * BASE, 1};           // every kind of motion has its own digit in the weight
static int kind(const Seg &s) { return (s.dir > 0 ? 0 : 1) + (s.steer ? 2 : 0); }
static void costs(CurveGenerator &g, const Costs &c) { g.set_cost_forwards(c.fwd); g.set_cost_backwards(c.bwd); g.set_cost_curve(c.curve); g.set_cost_straight(c.straight); }
static void setup(CurveGenerator &g, double res, const Costs &c, int min) { g.set_circle_radius(5.25 * res); g.set_max_waypoint_distance(0.5 * res); costs(g, c); g.set_use_map_cost(true); g.set_min_cell_cost(min); }
static bool parse(CurveGenerator &g, int w) { std::stringstream ss; return g.parse(W[w], ss); }
static const P START = {21.7, 20.4, 0.5};
static const P GOALS[] = {{33.4, 26.7, 0.6}, {30.2, 14.3, 2.5}, {15.1, 29.2, -1.9}, {26.9, 22.2, 3.3}, {12.6, 13.1, 0.2}, {22.3, 31.8, 1.6}, {37.3, 20.1, -0.9}, {21.2, 25.6, 0.5}};
static const int NGOALS = sizeof GOALS / sizeof *GOALS;
static std::string finger(Curve &c) { mc::Hash h; for (auto &p : waypoints(c)) h.q(p.x, 1e-4).q(p.y, 1e-4); return mc::fmt("%llx", (unsigned long long) h.h); }
static void fill(SimpleGridMap2d &m, int pattern, std::vector<int> &v)
{
    v.assign(MW * MH, 0);
    for (int y = 0; y < MH; ++y) for (int x = 0; x < MW; ++x) {
        int c = pattern == 0 ? 0 : pattern == 1 ? 50 : pattern == 2 ? (x * 7 + y * 13) % 59 : pattern == 3 ? x + (y > 20 ? 13 : 0) : pattern == 4 ? ((x / 4 + y / 4) & 1 ? 55 : 3) : (x * x + 3 * y) % 250;
        v[y * MW + x] = c; if ((unsigned) x < m.getWidth() && (unsigned) y < m.getHeight()) m.setValue(x, y, c);
    }
}
// how often every cell is charged, found by raising one cell after the other; compared with the curve and with all other maps
static void cells(uint64_t i)
{
    Dec d(i); int w = d(W.size()), gi = d(mc::thorough ? NGOALS : 5); double res = d(2) ? 0.5 : 1.0; const P go = GOALS[gi]; double r = 5.25; bool edge;
    auto sols = solve(WS[w], START, go, r, CO, edge); mc::describe(mc::fmt("%s to goal %d, resolution %g", W[w].c_str(), gi, res)); if (edge || sols.empty()) return;
    CurveGenerator g; setup(g, res, CO, 10); parse(g, w); auto m = freemap(MW, MH, res); std::vector<int> v; fill(*m, 0, v);
    auto find = [&](bool ignore) { mc::step(); return std::unique_ptr<Curve>(g.find_path(pose(START), pose(go), m.get(), ignore)); };
    auto at = [&]() { return mc::fmt("%s to %s, resolution %g", W[w].c_str(), str(go).c_str(), res); };
    auto c = find(true); mc::exec(); if (!c) mc::fail("%s: no curve with map costs", at().c_str());
    std::string f = finger(*c); double w0 = c->weight(); const Sol *sol = nullptr; std::string why;
    { auto wp = waypoints(*c); for (auto &s : sols) if (!sol && follows(wp, s, START, go, r, 0.5, why)) sol = &s; }
    if (!sol) mc::fail("%s: the curve with map costs is not one of the word: %s", at().c_str(), why.c_str());
    // distance of every cell to the segments of every kind
    struct Near { double any[4]; int n[4]; }; std::vector<Near> near(MW * MH); for (auto &n : near) for (int k = 0; k < 4; ++k) n.any[k] = 1e9, n.n[k] = 0;
    P p = START; double len[4] = {0, 0, 0, 0}; int cnt[4] = {0, 0, 0, 0}; std::vector<std::pair<P, int>> inner;
    for (auto &s : sol->segs) { int k = kind(s), n = std::max(1, (int) std::ceil(s.len / 0.2)); std::vector<double> dist(MW * MH, 1e9);
        for (int j = 0; j <= n; ++j) { double l = s.len * j / n; P q = advance(p, s, l, r); if (l > 3.2 && l < s.len - 3.2) inner.push_back({q, k}); int qx = (int) std::floor(q.x), qy = (int) std::floor(q.y); for (int y = std::max(0, qy - 4); y <= std::min(MH - 1, qy + 4); ++y) for (int x = std::max(0, qx - 4); x <= std::min(MW - 1, qx + 4); ++x) dist[y * MW + x] = std::min(dist[y * MW + x], (double) std::max(std::abs(x - qx), std::abs(y - qy))); }
        for (int j = 0; j < MW * MH; ++j) { if (dist[j] <= NEAR) near[j].n[k]++; near[j].any[k] = std::min(near[j].any[k], dist[j]); }
        len[k] += s.len; if (s.len > 1e-3) cnt[k]++; p = advance(p, s, s.len, r); }
    std::vector<int> charge(MW * MH, 0), dig[4]; for (auto &x : dig) x.assign(MW * MH, 0); bool flipped = false; long total[4] = {0, 0, 0, 0};
    for (int y = 0; y < MH; ++y) for (int x = 0; x < MW; ++x) { int j = y * MW + x; const Near &n = near[j]; bool close = n.n[0] + n.n[1] + n.n[2] + n.n[3]; if (!close && !mc::thorough && (x + y * 5) % 7) continue;
        m->setValue(x, y, 30); auto b = find(true); m->setValue(x, y, 0); mc::exec(); if (!b) mc::fail("%s: no curve once cell (%d,%d) costs 30", at().c_str(), x, y); if (b->weight() < w0 - 1e-3) mc::fail("%s: the weight falls from %g to %g when cell (%d,%d) becomes dearer", at().c_str(), w0, b->weight(), x, y);
        if (finger(*b) != f) { flipped = true; continue; }                                // the other solution has become cheaper
        double q = (b->weight() - w0) * res / 20; long k = std::lround(q); if (std::fabs(q - k) > 0.05) mc::fail("%s: raising cell (%d,%d) by 20 changes the weight by %g", at().c_str(), x, y, b->weight() - w0);
        charge[j] = k; for (int t = 0; t < 4; ++t) { dig[t][j] = k % BASE; k /= BASE; total[t] += dig[t][j]; if (dig[t][j] > n.n[t]) mc::fail("%s: cell (%d,%d) is charged %d times for motions of kind %d, which come near it %d times", at().c_str(), x, y, dig[t][j], t, n.n[t]); }
        if (k) mc::fail("%s: cell (%d,%d) is charged too often", at().c_str(), x, y);
    }
    mc::state(mc::Hash().s(f.c_str()).h);
    if (!flipped) { mc::nontrivial();
        for (auto &q : inner) { int qx = (int) std::floor(q.first.x), qy = (int) std::floor(q.first.y); bool in = true, any = false; for (int y = qy - NEAR; y <= qy + NEAR; ++y) for (int x = qx - NEAR; x <= qx + NEAR; ++x) if (x < 0 || y < 0 || x >= MW || y >= MH) in = false; else any |= dig[q.second][y * MW + x] > 0; if (in && !any) mc::fail("%s: no cell within %d cells of (%g,%g) on the curve is charged", at().c_str(), NEAR, q.first.x, q.first.y); }
        for (int t = 0; t < 4; ++t) { bool out = false; if (cnt[t]) { P a = START; for (auto &s : sol->segs) { for (int j = 0; j <= 20; ++j) { P q = advance(a, s, s.len * j / 20, r); if (q.x < 3 || q.y < 3 || q.x > MW - 3 || q.y > MH - 3) out = true; } a = advance(a, s, s.len, r); } }
            if (total[t] > 1.1 * len[t] + 4 * cnt[t] || (!out && total[t] < 0.65 * len[t] - 4 * cnt[t])) mc::fail("%s: %ld cells are charged for %g cells of motions of kind %d", at().c_str(), total[t], len[t], t); }
    }
    // every other map: the charges times the cell costs
    if (!flipped) for (int pat = 0; pat < 6; ++pat) for (int min : {0, 1, 10, 40}) for (int cut = 0; cut < 2; ++cut) {
        std::unique_ptr<SimpleGridMap2d> o = freemap(cut ? 24 : MW, cut ? 23 : MH, res); fill(*o, pat, v); g.set_min_cell_cost(min);
        std::unique_ptr<Curve> b(g.find_path(pose(START), pose(go), o.get(), true)); mc::step(); mc::exec(); if (!b) { if (!cut) mc::fail("%s: no curve on map %d", at().c_str(), pat); continue; }
        if (finger(*b) != f) continue;
        double sum = 0; for (int y = 0; y < (int) o->getHeight(); ++y) for (int x = 0; x < (int) o->getWidth(); ++x) sum += (double) charge[y * MW + x] * std::max(min, v[y * MW + x]);
        if (std::fabs(b->weight() - sum / res) > 1e-3 * sum / res + 1e-3) mc::fail("%s, minimum %d, map %d%s: weight %g, the cells sum up to %g", at().c_str(), min, pat, cut ? " cut off" : "", b->weight(), sum / res);
    }
    // without map costs the values do not matter
    g.set_use_map_cost(false); double lw = 1e300; for (auto &s : sols) lw = std::min(lw, s.weight);
    for (int pat : {0, 2, 5}) { auto o = freemap(MW, MH, res); fill(*o, pat, v); std::unique_ptr<Curve> b(g.find_path(pose(START), pose(go), o.get(), true)); mc::step(); mc::exec(); if (!b || std::fabs(b->weight() - lw) > tolw(lw)) mc::fail("%s without map costs on map %d: weight %g instead of %g", at().c_str(), pat, b ? b->weight() : -1, lw); }
}
// the cheapest of several words by their costs on the map; expensive blobs everywhere
static void choice(uint64_t i)
{
    Dec d(i); int gi = d(NGOALS), first = d(80), n = d(3); static const int N[] = {2, 5, 80}; if (!mc::thorough && first % 8) return;
    std::vector<int> set; for (int k = 0; k < N[n]; ++k) set.push_back((first + 23 * k) % 80); mc::describe(mc::fmt("%d words beginning with %s to goal %d", N[n], W[set[0]].c_str(), gi)); const P go = GOALS[gi];
    static const Costs C[] = {{1, 1, 1, 1}, {1, 2.5, 1.3, 1}}; const Costs &co = C[first / 8 & 1];
    CurveGenerator g; setup(g, 1, co, 5); for (int w : set) parse(g, w); auto m = freemap(MW, MH, 1); std::vector<std::unique_ptr<CurveGenerator>> one; for (int w : set) { one.emplace_back(new CurveGenerator); setup(*one.back(), 1, co, 5); parse(*one.back(), w); }
    for (int by = 0; by < MH; by += mc::thorough ? 6 : 12) for (int bx = 0; bx < MW; bx += mc::thorough ? 6 : 12) for (int val : {58, 200}) {
        for (int y = 0; y < MH; ++y) for (int x = 0; x < MW; ++x) m->setValue(x, y, x >= bx && x < bx + 12 && y >= by && y < by + 12 ? val : (x * 3 + y) % 20);
        std::unique_ptr<Curve> c(g.find_path(pose(START), pose(go), m.get())); mc::step(); mc::exec(); double best = 1e300; for (auto &o : one) { std::unique_ptr<Curve> b(o->find_path(pose(START), pose(go), m.get())); mc::step(); if (b && b->is_valid()) best = std::min(best, b->weight()); }
        if (!c != (best > 1e299)) mc::fail("%d words beginning with %s to %s, block of value %d at (%d,%d): %s", N[n], W[set[0]].c_str(), str(go).c_str(), val, bx, by, c ? "a curve, although no word alone has one" : "no curve, although a word has one");
        if (c && std::fabs(c->weight() - best) > 1e-3 + 1e-5 * best) mc::fail("%d words beginning with %s to %s, block of value %d at (%d,%d): weight %g, the cheapest word costs %g", N[n], W[set[0]].c_str(), str(go).c_str(), val, bx, by, c->weight(), best);
        if (c) { mc::nontrivial(); mc::state(mc::Hash().q(c->weight(), 1e-3).h); }
    }
}
// large curves over dear cells: proportional to the cell value, whatever the total
static void large(uint64_t i)
{
    Dec d(i); int w = d(W.size()), di = d(6); bool circles = WS[w].size() == 4 || WS[w][1].steer; double r = circles ? 120.25 : 40.25; static std::unique_ptr<SimpleGridMap2d> m[3]; static const int V[] = {1, 120, 250};
    for (int k = 0; k < 3; ++k) if (!m[k]) { m[k] = freemap(1500, 1500, 1); m[k]->setLowerThreshold(251); m[k]->setUpperThreshold(253); for (int y = 0; y < 1500; ++y) for (int x = 0; x < 1500; ++x) m[k]->setValue(x, y, V[k]); }
    double a = di * TAU / 6 + 0.2, len = circles ? 180 : 600; P st = {700.3, 720.6, 0.9}, go = {st.x + len * cos(a), st.y + len * sin(a), 0.9 + di * 1.1}; static const Costs C = {1, 30, 20, 1}; bool edge; auto sols = solve(WS[w], st, go, r, C, edge); mc::describe(mc::fmt("%s over %g cells", W[w].c_str(), len)); if (edge) return;
    CurveGenerator g; g.set_circle_radius(r); g.set_max_waypoint_distance(5); costs(g, C); g.set_use_map_cost(true); g.set_min_cell_cost(1); parse(g, w); double wt[3];
    for (int k = 0; k < 3; ++k) { std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m[k].get(), true)); mc::step(); mc::exec(); if (!c != sols.empty()) mc::fail("%s from %s to %s on a map of value %d: %s", W[w].c_str(), str(st).c_str(), str(go).c_str(), V[k], c ? "a curve where there is none" : "no curve"); wt[k] = c ? c->weight() : 0; }
    if (sols.empty()) return; mc::nontrivial(); mc::state(mc::Hash().q(wt[0], 1e-2).h);
    for (int k = 1; k < 3; ++k) if (std::fabs(wt[k] - V[k] * wt[0]) > 1e-4 * wt[k]) mc::fail("%s from %s to %s: weight %g on cells of value 1, %g on cells of value %d", W[w].c_str(), str(st).c_str(), str(go).c_str(), wt[0], wt[k], V[k]);
    double lo = 1e300, hi = 0; for (auto &s : sols) { lo = std::min(lo, s.weight); hi = std::max(hi, s.weight); } if (wt[0] < 0.65 * lo - 5000 || wt[0] > 1.1 * hi + 5000) mc::fail("%s from %s to %s: weight %g, the curve's lengths times the costs give %g", W[w].c_str(), str(st).c_str(), str(go).c_str(), wt[0], lo);
}
void mc_setup()
{
    W = words(); WS.resize(W.size()); for (size_t i = 0; i < W.size(); ++i) spell(W[i], WS[i]);
    mc::bound("%zu words x %d goals x 2 resolutions: every cell around the curve (%s) raised on its own, then 6 maps x 3 minimum costs x whole and cut-off maps", W.size(), mc::thorough ? NGOALS : 5, mc::thorough ? "and every other cell" : "and every seventh other");
    mc::bound("sets of 2, 5 and 80 words x %d goals x all positions of a dear or impassable block on a %d-cell grid", NGOALS, mc::thorough ? 6 : 12);
    mc::assumption("a cell is taken to be on the curve within three cells, as the curve is walked on whole cells around whole-numbered centres");
    mc::family("cells", W.size() * (mc::thorough ? NGOALS : 5) * 2, cells);
    mc::bound("curves of up to several thousand cells over cells of value 1, 120 and 250");
    mc::family("large", W.size() * 6, large);
    mc::family("choice", NGOALS * 80 * 3, choice);
}

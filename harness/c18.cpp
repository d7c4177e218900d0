// C18: geometry of Reeds-Shepp curves
#include "rs.h"
using namespace rs; using mc::Dec;
static std::vector<std::string> W;
static const double SP[] = {0.4, 1.0, 6.5}; static const double RES[] = {1.0, 0.5, 0.1};
struct Cfg { double res, radius, spacing; Costs c; };
static Cfg cfg(int i)
{
    static const Cfg C[] = {{1, 4, 1, {1, 1, 1, 1}}, {0.5, 1.25, 0.2, {1, 1, 1, 1}}, {0.125, 0.25, 1.25, {1, 2, 1.3, 1}}, {1, 6.25, 0.37, {1.5, 0.5, 1, 2}}, {0.25, 2.125, 3, {1, 3, 2, 0.5}}, {1, 1, 0.5, {1, 1, 1, 1}}};
    return C[i];
}
static void setup(CurveGenerator &g, const Cfg &k)
{
    g.set_circle_radius(k.radius); g.set_max_waypoint_distance(k.spacing);
    g.set_cost_forwards(k.c.fwd); g.set_cost_backwards(k.c.bwd); g.set_cost_curve(k.c.curve); g.set_cost_straight(k.c.straight);
}
static void check(CurveGenerator &g, const Segs &word, const P &st, const P &go, const Cfg &k, GridMap2d *m, bool ignore, const char *w)
{
    double r = k.radius / k.res; bool edge; auto sols = solve(word, st, go, r, k.c, edge);
    std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m, ignore)); mc::step(); mc::exec();
    auto at = [&]() { return mc::fmt("%s from %s to %s, radius %g cells", w, str(st).c_str(), str(go).c_str(), r); };
    if (!c) { if (!sols.empty() && !edge) { double best = 1e300; for (auto &s : sols) best = std::min(best, s.weight); if (best > 0.01) mc::fail("%s: no curve found, one of weight %g exists", at().c_str(), best); } return; }
    if (sols.empty()) { if (edge) return; mc::fail("%s: a curve is reported where the word has none", at().c_str()); }
    if (!c->is_valid()) mc::fail("%s: the curve returned is not valid, weight %g", at().c_str(), c->weight());
    Pose2d a = c->start(), b = c->goal();
    if (a.x != st.x || a.y != st.y || a.theta != st.th || b.x != go.x || b.y != go.y || b.theta != go.th) mc::fail("%s: the curve reports another start or goal", at().c_str());
    double best = 1e300; for (auto &s : sols) best = std::min(best, s.weight);
    if (std::fabs(c->weight() - best) > tolw(best)) mc::fail("%s: weight %.9g, the lengths times the costs give %.9g", at().c_str(), c->weight(), best);
    std::vector<Pose2d> wp = waypoints(*c); std::string why; bool ok = false; const Sol *used = nullptr;
    for (auto &s : sols) if (std::fabs(s.weight - best) <= tolw(best) && follows(wp, s, st, go, r, k.spacing / k.res, why)) { ok = true; used = &s; break; }
    if (!ok) mc::fail("%s: %s", at().c_str(), why.c_str());
    if (std::fabs(c->curve_arc() - used->arc) > 1e-3) mc::fail("%s: total turn reported %.9g, is %.9g", at().c_str(), c->curve_arc(), used->arc);
    for (size_t i = 1; i < wp.size(); ++i) if (wp[i].distance_to(wp[i - 1]) > k.spacing / k.res + 1e-3) mc::fail("%s: way-points %zu and %zu are %g apart, at most %g configured", at().c_str(), i - 1, i, wp[i].distance_to(wp[i - 1]), k.spacing / k.res);
    if (k.c.fwd == 1 && k.c.bwd == 1 && k.c.curve == 1 && k.c.straight == 1 && c->weight() < std::hypot(st.x - go.x, st.y - go.y) - 1e-3) mc::fail("%s: weight %g is below the straight-line distance", at().c_str(), c->weight());
    mc::nontrivial(); mc::state(mc::Hash().s(w).q(best, 1e-3).u(wp.size()).h);
    static unsigned cnt = 0;
    if (++cnt % 16 == 0) { // the curve can be iterated again, and a copy outlives it
        Curve copy(*c); auto w2 = waypoints(*c); c.reset(); auto w3 = waypoints(copy);
        auto same = [&](const std::vector<Pose2d> &o) { if (o.size() != wp.size()) return false; for (size_t i = 0; i < o.size(); ++i) if (o[i].x != wp[i].x || o[i].y != wp[i].y || o[i].theta != wp[i].theta) return false; return true; };
        if (!same(w2)) mc::fail("%s: the second iteration gives other way-points", at().c_str());
        if (!same(w3)) mc::fail("%s: a copy of the curve gives other way-points", at().c_str());
    }
}
static void grid(uint64_t i)
{
    Dec d(i); int w = d(W.size()), ci = d(mc::thorough ? 6 : 4), sh = d(mc::thorough ? 6 : 3), sub = d(2);
    Cfg k = cfg(ci); double r = k.radius / k.res;
    static const double SH[] = {0, 2.2, -M_PI / 2, M_PI, -0.7, 0.9};
    mc::describe(mc::fmt("word %s, configuration %d, start heading %g", W[w].c_str(), ci, SH[sh]));
    CurveGenerator g; setup(g, k); std::stringstream ss; if (!g.parse(W[w], ss)) mc::fail("word %s is refused", W[w].c_str());
    Segs word; spell(W[w], word); auto m = freemap(3, 3, k.res);
    P st = {40.3, -7.6, SH[sh]}; int n = mc::thorough ? 7 : 4, nh = mc::thorough ? 24 : 16;
    for (int iy = -n; iy <= n; ++iy) for (int ix = -n; ix <= n; ++ix) for (int h = 0; h < nh; ++h) {
        // sub 0: multiples of half the radius (aligned and tangent poses), sub 1: generic positions; headings relative to the start
        double u = sub ? ix * r * 0.61 + 0.017 : ix * r * 0.5, v = sub ? iy * r * 0.61 - 0.023 : iy * r * 0.5;
        P go = {st.x + u * cos(st.th) - v * sin(st.th), st.y + u * sin(st.th) + v * cos(st.th), st.th + h * TAU / nh + (sub ? 0.05 : 0)};
        if (h % 3 == 1) go.th -= TAU; 
        check(g, word, st, go, k, m.get(), true, W[w].c_str());
    }
}
// on a large free map the collision test changes nothing
static void onmap(uint64_t i)
{
    Dec d(i); int w = d(W.size()), sub = d(4);
    Cfg k = {0.5, 2.25, 0.4, {1, 1, 1, 1}};
    CurveGenerator g; setup(g, k); std::stringstream ss; g.parse(W[w], ss); Segs word; spell(W[w], word); auto m = freemap(90, 80, k.res);
    mc::describe(mc::fmt("word %s on a free map", W[w].c_str()));
    P st = {45.5, 40.2, sub * 1.7};
    for (int iy = -12; iy <= 12; iy += 2) for (int ix = -12; ix <= 12; ix += 2) for (int h = 0; h < 12; ++h) check(g, word, st, {st.x + ix, st.y + iy, h * TAU / 12 + 0.01 * ix}, k, m.get(), false, W[w].c_str());
}
// map costs: proportional to the (uniform) cell value, about one cell per cell of length
static void mapcost(uint64_t i)
{
    Dec d(i); int w = d(W.size()); double res = d(2) ? 0.5 : 1.0;
    Cfg k = {res, 5.25 * res, 0.4, {1, 1, 1, 1}};
    mc::describe(mc::fmt("word %s with map costs", W[w].c_str()));
    Segs word; spell(W[w], word); std::unique_ptr<SimpleGridMap2d> m[3]; uint8_t val[] = {0, 20, 50};
    for (int j = 0; j < 3; ++j) { m[j] = freemap(90, 80, res); for (int y = 0; y < 80; ++y) for (int x = 0; x < 90; ++x) m[j]->setValue(x, y, val[j]); }
    CurveGenerator g; setup(g, k); std::stringstream ss; g.parse(W[w], ss); g.set_use_map_cost(true); g.set_min_cell_cost(10);
    P st = {45.5, 40.2, 0.4};
    for (int iy = -12; iy <= 12; iy += 3) for (int ix = -12; ix <= 12; ix += 3) for (int h = 0; h < 8; ++h) {
        P go = {st.x + ix, st.y + iy, h * TAU / 8 + 0.01}; bool edge; auto sols = solve(word, st, go, 5.25, k.c, edge); if (edge) continue;
        double wt[3]; for (int j = 0; j < 3; ++j) { std::unique_ptr<Curve> c(g.find_path(pose(st), pose(go), m[j].get())); mc::step(); if (!c != sols.empty()) mc::fail("%s from %s to %s with map costs: %s", W[w].c_str(), str(st).c_str(), str(go).c_str(), c ? "curve reported where there is none" : "no curve found"); wt[j] = c ? c->weight() : 0; }
        mc::exec(); if (sols.empty()) continue; mc::nontrivial();
        if (std::fabs(wt[1] - 2 * wt[0]) > 1e-3 * wt[1] || std::fabs(wt[2] - 5 * wt[0]) > 1e-3 * wt[2]) mc::fail("%s from %s to %s: weights %g %g %g on maps of value 0, 20, 50 with a minimum of 10", W[w].c_str(), str(st).c_str(), str(go).c_str(), wt[0], wt[1], wt[2]);
        double cells = wt[0] * res / 10, lo = 1e300, hi = 0; for (auto &s : sols) { lo = std::min(lo, s.len); hi = std::max(hi, s.len); }
        if (cells < 0.65 * lo - 8 || cells > 1.1 * hi + 8) mc::fail("%s from %s to %s: %g cells are charged for a curve of %g cells", W[w].c_str(), str(st).c_str(), str(go).c_str(), cells, lo);
    }
}
void mc_setup()
{
    W = words();
    mc::bound("%zu words: circle-line-circle, three and four circles with every combination of directions", W.size());
    mc::bound("goal positions on a grid of +-%d half radii (aligned, tangent) and of +-%d generic steps, %d headings, %d start headings, %d configurations of radius, resolution, spacing and costs", mc::thorough ? 7 : 4, mc::thorough ? 7 : 4, mc::thorough ? 24 : 16, mc::thorough ? 6 : 3, mc::thorough ? 6 : 4);
    mc::assumption("the reference solutions are validated by integrating the motion from the start to the goal");
    mc::family("word x pose grid", W.size() * (mc::thorough ? 6 * 6 : 4 * 3) * 2, grid);
    mc::family("free map", W.size() * 4, onmap);
    mc::family("map costs", W.size() * 2, mapcost);
}

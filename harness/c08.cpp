// C08: segment predicates of the map managers
#include "generic.h"
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood> SD;
typedef SD::MapManager Dyn; typedef SD::NodeT DNode;
struct StateNbh : public NeighborhoodBase { static constexpr bool reversed = false; template <class P> struct NodeHolder { typedef OrientedNode<P> NodeType; }; };
typedef GenericParameter<Pose2d, HeuristicL2, GridMap2d, StateNbh, NoExpansion, PriorityQueueManager, DirectionalStateSpaceManager> DirParam;
typedef DirParam::MapManager Dir; typedef L2_8::MapManager GridM; typedef L2_8::NodeT GNode;
enum { ANYFREE = 0, UNKNOWN = 1, OCC = 2 };
// the cells a digital line from cell a to cell b must visit (at most half a cell off the line, no tie) and may visit, in order, start excluded unless it is the end
struct Line { std::vector<std::pair<int, int>> must; std::vector<std::vector<std::pair<int, int>>> may; };
static Line line(int x0, int y0, int x1, int y1)
{
    Line l; int n = std::max(std::abs(x1 - x0), std::abs(y1 - y0)); if (n == 0) { l.must.push_back({x1, y1}); l.may.push_back({{x1, y1}}); return l; }
    bool xm = std::abs(x1 - x0) == n; for (int i = 1; i <= n; ++i) {
        int num = (xm ? y1 - y0 : x1 - x0) * i, base = xm ? y0 : x0; int fl = (int) std::floor((double) num / n), rem = num - fl * n; std::vector<int> c; if (2 * rem <= n) c.push_back(base + fl); if (2 * rem >= n) c.push_back(base + fl + 1);
        int M = (xm ? x0 : y0) + i * (((xm ? x1 - x0 : y1 - y0) > 0) ? 1 : -1); std::vector<std::pair<int, int>> cells; for (int v : c) cells.push_back(xm ? std::make_pair(M, v) : std::make_pair(v, M)); l.may.push_back(cells); if (cells.size() == 1) l.must.push_back(cells[0]); else l.must.push_back({INT32_MIN, 0});
    }
    return l;
}
// a map that records the headings it is asked with
struct Rec : SimpleGridMap2d {
    mutable std::vector<double> th; Rec(unsigned w, unsigned h, double r) : SimpleGridMap2d(w, h, r) {}
    using SimpleGridMap2d::isFree; using SimpleGridMap2d::isOccupied; using SimpleGridMap2d::isNoInformation;
    bool isFree(const unsigned x, const unsigned y, double t) const override { th.push_back(t); return SimpleGridMap2d::isFree(x, y); }
    bool isOccupied(const unsigned x, const unsigned y, double t) const override { th.push_back(t); return SimpleGridMap2d::isOccupied(x, y); }
    bool isNoInformation(const unsigned x, const unsigned y, double t) const override { th.push_back(t); return SimpleGridMap2d::isNoInformation(x, y); }
};
static std::unique_ptr<Rec> rec(const Grid &g) { std::unique_ptr<Rec> m(new Rec(g.w, g.h, g.res)); m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(-1); fill(*m, g); return m; }
// bad(x,y): the cell makes the predicate fail. `ans`: the predicate's answer (true: all fine). skip: cells left out between two samples
template <class B> std::string judge(const Line &l, bool ans, int skip, B bad)
{
    auto end = l.may.back()[0]; bool anybad = false, run = false; int n = 0;
    for (auto &c : l.may) { bool all = true, any = false; for (auto &p : c) { bool b = bad(p.first, p.second); any = any || b; all = all && b; } anybad = anybad || any; n = all ? n + 1 : 0; if (n > skip) run = true; }
    if (ans && bad(end.first, end.second)) return "accepts a segment whose end does not satisfy it";
    if (ans && run) return "accepts a segment across cells that do not satisfy it";
    if (!ans && !anybad) return "rejects a segment all cells of which satisfy it";
    return "";
}
template <class M> void base(M &t, const Rec &m, const Grid &g, double sx, double sy, double ex, double ey)
{
    auto what = [&](const char *p) { return mc::fmt("%s (%.3f,%.3f)-(%.3f,%.3f) on %s", p, sx, sy, ex, ey, show(g).c_str()); };
    int x0 = std::floor(sx), y0 = std::floor(sy), x1 = std::floor(ex), y1 = std::floor(ey); double th = std::atan2(ey - sy, ex - sx); std::string e;
    for (int k = 0; k < 2; ++k) { m.th.clear(); bool r = k ? t.isFreeOrUnknown(sx, sy, ex, ey) : t.isFree(sx, sy, ex, ey); mc::step(); mc::exec(); const char *n = k ? "isFreeOrUnknown" : "isFree";
        for (double a : m.th) if (std::fabs(a - th) > 1e-9) mc::fail("%s: cells are tested with heading %g, the segment has %g", what(n).c_str(), a, th);
        if (!g.in(x0, y0) || !g.in(x1, y1)) { if (r) mc::fail("%s: accepts a segment with an end outside the map", what(n).c_str()); continue; }
        Line l = line(x0, y0, x1, y1); e = judge(l, r, 0, [&](int x, int y) { return k ? g.occ(x, y) : !g.free(x, y); }); if (!e.empty()) mc::fail("%s: %s", what(n).c_str(), e.c_str()); if (!r) mc::nontrivial(); mc::state(mc::Hash().u(k).u(x1 - x0 + 99).u(y1 - y0 + 99).u(r).h); }
}
static void dyn(Dyn &t, const Rec &m, const Grid &g, double sx, double sy, double ex, double ey)
{
    auto what = [&](const char *p) { return mc::fmt("padded %s (%.3f,%.3f)-(%.3f,%.3f) on %s", p, sx, sy, ex, ey, show(g).c_str()); };
    int x0 = std::floor(sx), y0 = std::floor(sy), x1 = std::floor(ex), y1 = std::floor(ey), skip = 0.5 / g.res; double th = std::atan2(ey - sy, ex - sx); std::string e; Line l = line(x0, y0, x1, y1); bool r[3]; static const char *N[] = {"isFree", "isFreeOrUnknown", "isOccupied"};
    for (int k = 0; k < 3; ++k) { m.th.clear(); bool a = k == 0 ? t.isFree(sx, sy, ex, ey) : k == 1 ? t.isFreeOrUnknown(sx, sy, ex, ey) : t.isOccupied(sx, sy, ex, ey); r[k] = a; mc::step(); mc::exec();
        for (double h : m.th) if (std::fabs(h - th) > 1e-9) mc::fail("%s: cells are tested with heading %g, the segment has %g", what(N[k]).c_str(), h, th);
        e = judge(l, k == 2 ? !a : a, skip, [&](int x, int y) { return k == 0 ? !g.free(x, y) : g.in(x, y) && g.occ(x, y); }); if (!e.empty()) mc::fail("%s %s: %s", what(N[k]).c_str(), a ? "holds" : "does not hold", e.c_str()); if (a == (k == 2)) mc::nontrivial(); mc::state(mc::Hash().u(k).u(x1 - x0 + 99).u(y1 - y0 + 99).u(a).h); }
    if (r[0] && r[2]) mc::fail("%s: free and occupied at once", what("segment").c_str()); if (r[0] && !r[1]) mc::fail("%s: free but not free or unknown", what("segment").c_str()); if (r[1] == r[2]) mc::fail("%s: isFreeOrUnknown and isOccupied are both %d", what("segment").c_str(), r[1]);
}
// the managers have worked on another map before: of the same size but finer or coarser, smaller, or none
struct All { GridM gm; Dir dir; Dyn dynm; std::unique_ptr<Rec> m; Grid g; explicit All(const Grid &g, int before = 0) : m(rec(g)), g(g) { if (before) { Grid o{before == 3 ? 2 : g.w, before == 3 ? 1 : g.h, g.res * (before == 1 ? 0.04 : before == 2 ? 20 : 3), {}}; o.c.assign(o.w * o.h, 2); auto om = rec(o); gm.setMap(om.get()); dir.setMap(om.get()); dynm.setMap(om.get()); dynm.isFree(0.5, 0.5, 1.5, 0.5); gm.setMap(m.get()); dir.setMap(m.get()); dynm.setMap(m.get()); return; } gm.setMap(m.get()); dir.setMap(m.get()); dynm.setMap(m.get()); }
    void seg(double sx, double sy, double ex, double ey, int which) { if (which & 1) dyn(dynm, *m, g, sx, sy, ex, ey); if ((which & 2) && sx >= 0 && sy >= 0 && ex >= 0 && ey >= 0) base(gm, *m, g, sx, sy, ex, ey); if ((which & 4) && sx >= 0 && sy >= 0 && ex >= 0 && ey >= 0) base(dir, *m, g, sx, sy, ex, ey); } };
static Grid ternary(uint64_t i, int w, int h, double res) { Grid g{w, h, res, std::vector<uint8_t>(w * h)}; for (auto &c : g.c) { c = i % 3; i /= 3; } return g; }
static const double F[] = {0, 0.25, 0.5, 0.75, 0.999};
// every ternary 3x3 map, all cell pairs from one cell around the map
static void small(uint64_t i)
{
    All a(ternary(i, 3, 3, 1), i % 4); mc::describe(show(a.g)); static const double X[] = {-1, 0, 1, 2, 3};
    for (double sx : X) for (double sy : X) for (double ex : X) for (double ey : X) { int k = (int) (sx * 7 + sy * 3 + ex * 5 + ey + i + 40); if (!mc::thorough && k % 3) continue; a.seg(sx + F[k % 5], sy + F[(k / 5) % 5], ex + F[(k / 2) % 5], ey + F[(k / 3) % 5], k % 2 ? 1 : k % 4 ? 3 : 5); }
}
// one or two blocking cells on a larger map, every pair of cells
static void blocks(uint64_t i)
{
    Dec d(i); int W = 7, H = 6, c1 = d(42), rest = d(43); int kind = d(2); Grid g{W, H, 1, std::vector<uint8_t>(W * H)}; g.c[c1] = kind ? 1 : 2; if (rest < 42) { if (!mc::thorough && (rest + c1) % 7) return; g.c[rest] = 2; } All a(g); mc::describe(show(g));
    for (int s = 0; s < 42; ++s) for (int e = (int) ((i + s) % 2); e < 42; e += mc::thorough ? 1 : 2) a.seg(s % W + F[s % 5], s / W + F[(s + e) % 5], e % W + F[e % 5], e / W + F[(e + 2) % 5], (s + e) % 3 == 0 ? 1 : (s + e) % 3 == 1 ? 2 : 4);
}
// fine resolutions: samples are several cells apart; walls of every thickness across the segment
static void fine(uint64_t i)
{
    Dec d(i); static const double RES[] = {0.5, 0.25, 0.1, 0.05, 2}; double res = RES[d(5)]; int thick = 1 + d(13), pos = d(24), vert = d(2); Grid g{26, 26, res, std::vector<uint8_t>(26 * 26)}; for (int k = pos; k < std::min(26, pos + thick); ++k) for (int j = 0; j < 26; ++j) g.c[vert ? j * 26 + k : k * 26 + j] = (i & 1) ? 2 : 1 + (j & 1); All a(g, (thick + pos) % 4); mc::describe(show(g));
    static const int P[][4] = {{0, 0, 25, 25}, {0, 3, 25, 3}, {3, 25, 3, 0}, {25, 20, 0, 1}, {0, 0, 25, 11}, {11, 25, 0, 0}, {-20, -5, 30, 40}, {-30, 12, 55, 13}, {12, -32, 12, 57}, {5, 5, 17, 9}, {20, 6, 9, 19}, {40, 40, 3, 3}, {2, 2, 2, 2}, {-3, -3, -3, -3}};
    for (auto &p : P) for (int r = 0; r < 2; ++r) for (int s = 0; s < 26; s += 5) { double x0 = p[0], y0 = p[1], x1 = p[2], y1 = p[3]; if (vert) { std::swap(x0, y0); std::swap(x1, y1); } if (r) { std::swap(x0, x1); std::swap(y0, y1); } a.seg(x0 + F[s % 5], y0, x1, y1 + F[(s + 1) % 5], 7); if (!mc::thorough) break; x1 += (s % 3) - 1; a.seg(x0, y0, x1, y1, 7); }
}
// segments inside, across and outside the padding on a small map with occupied border cells
static void padding(uint64_t i)
{
    Dec d(i); int b = d(256); Grid g{3, 3, 1, std::vector<uint8_t>(9)}; static const int RING[] = {0, 1, 2, 5, 8, 7, 6, 3}; for (int k = 0; k < 8; ++k) g.c[RING[k]] = b >> k & 1 ? 2 : 0; g.c[4] = b % 3; All a(g); mc::describe(show(g)); static const double X[] = {-32, -7.5, -1, -0.25, 0, 1.5, 2.75, 3, 8.5, 34.9};
    for (double sx : X) for (double sy : X) for (double ex : X) for (double ey : X) { int k = (int) (sx * 4 + sy * 12 + ex * 20 + ey * 28 + b + 10000); if (!mc::thorough && k % 3) continue; a.seg(sx, sy, ex, ey, k % 2 ? 1 : 3); }
}
// single cells: integer cells and nodes, map and padding
static void cells(uint64_t i)
{
    All a(ternary(i, 3, 3, 1)); mc::describe(show(a.g)); const Grid &g = a.g;
    for (int y = -3; y < 6; ++y) for (int x = -3; x < 6; ++x) {
        bool in = g.in(x, y); int c = in ? g.at(x, y) : -1; double th = 0.3 * x; mc::exec(); a.m->th.clear();
        if (a.dynm.isFree(x, y, th) != (c == 0) || a.dynm.isOccupied(x, y, th) != (c == 2) || a.dynm.isFreeOrUnknown(x, y, th) != (c != 2)) mc::fail("padded cell (%d,%d) on %s: free %d, occupied %d, free or unknown %d", x, y, show(g).c_str(), a.dynm.isFree(x, y, th), a.dynm.isOccupied(x, y, th), a.dynm.isFreeOrUnknown(x, y, th));
        DNode n; DNode::init(n, Pose2d(x, y, th)); n.theta = th; if (a.dynm.isOccupied(&n) != (c == 2)) mc::fail("padded node (%d,%d) on %s", x, y, show(g).c_str());
        if (in) { GNode k; GNode::init(k, x, y); k.theta = th; if (a.gm.isFree(x, y, th) != (c == 0) || a.gm.isOccupied(x, y, th) != (c == 2) || a.gm.isFree(&k) != (c == 0) || a.gm.isOccupied(&k) != (c == 2)) mc::fail("cell (%d,%d) on %s: free %d, occupied %d", x, y, show(g).c_str(), a.gm.isFree(x, y, th), a.gm.isOccupied(x, y, th)); }
        for (double t : a.m->th) if (t != th) mc::fail("cell (%d,%d) is tested with heading %g instead of %g", x, y, t, th); if (in) mc::nontrivial();
        if (in && a.gm.getValue(x, y) != a.m->getValue((unsigned) x, (unsigned) y)) mc::fail("value of cell (%d,%d) on %s", x, y, show(g).c_str());
    }
    if (a.gm.getResolution() != 1 || a.dynm.getResolution() != 1 || a.gm.getMap() != a.m.get() || a.dynm.getMap() != a.m.get()) mc::fail("map or resolution");
}
void mc_setup()
{
    mc::bound("every 3x3 map of free/unknown/occupied cells x segments between all cells up to one cell outside (%s); one or two blocking cells on 7x6 x all cell pairs; five resolutions x walls of thickness 1..13 at every position x 14 segments both ways; 256 border patterns x segments through the padding", mc::thorough ? "all" : "a third per map"); mc::bound("three of four managers have worked on another map before: same size but finer, same size but coarser, other size");
    mc::bound("predicates of the padded (chunked) manager, the grid manager and the static state table; single-cell predicates on all 3x3 maps and around");
    mc::assumption("the start cell itself is not judged; where a line passes exactly between two cells either may be visited; the padded manager samples every (int(0.5/resolution)+1)-th cell and its end, so only thicker obstacles must be seen");
    mc::family("maps 3x3", 19683, small); mc::family("blocks", 42 * 43 * 2, blocks); mc::family("resolutions", 5 * 13 * 24 * 2, fine); mc::family("padding", 256, padding, 4); mc::family("single cells", 19683, cells);
}

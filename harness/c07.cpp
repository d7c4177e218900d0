// C07: the planners' node tables
#include "generic.h"
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood> SD;
typedef SD::MapManager Dyn; typedef SD::NodeT DNode;
struct StateNbh : public NeighborhoodBase { static constexpr bool reversed = false; template <class P> struct NodeHolder { typedef OrientedNode<P> NodeType; }; };
typedef GenericParameter<Pose2d, HeuristicL2, GridMap2d, StateNbh, NoExpansion, PriorityQueueManager, DirectionalStateSpaceManager> DirParam;
typedef DirParam::MapManager Dir; typedef DirParam::NodeType SNode;
typedef L2_8::MapManager GridM; typedef L2_8::NodeT GNode;
static Grid blank(int w, int h, double res) { return Grid{w, h, res, std::vector<uint8_t>(w * h)}; }
static bool outside(const std::function<void()> &f) { mc::step(); try { f(); } catch (const OutsideMapException &) { return true; } return false; }
// positions inside one cell; the borders belong to the cell above
static const double IN[] = {0, 1e-9, 0.25, 0.5, 0.999999};
template <class N> std::string fresh(const N *n, int x, int y) { if (n->x != x || n->y != y) return mc::fmt("the node of cell (%d,%d) is at (%g,%g)", x, y, n->x, n->y); if (!(std::isinf(n->distance) && n->distance > 0) || n->marked || n->prev || n->custom) return mc::fmt("the node of cell (%d,%d) is not fresh", x, y); return ""; }
template <class N> void spoil(N *n) { n->distance = 1; n->mark(15); n->prev = n; n->custom = 3; n->x += 0.3; n->y += 0.3; }
static const int SIZES[] = {1, 2, 3, 5, 31, 32, 33, 63, 64, 65};
// ---- grid table
static void grid(uint64_t i)
{
    Dec d(i); int w = SIZES[d(10)], h = SIZES[d(10)]; mc::describe(mc::fmt("grid table %dx%d", w, h)); GridM t; auto m = to_map(blank(w, h, 0.5)); t.setMap(m.get()); std::set<GNode *> seen; std::string e;
    for (int rep = 0; rep < 2; ++rep) { seen.clear(); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        GNode *n = t.lookup(x, y); mc::exec(); if (!seen.insert(n).second) mc::fail("grid table %dx%d: cell (%d,%d) shares its node", w, h, x, y); e = fresh(n, x, y); if (!e.empty()) mc::fail("grid table %dx%d: %s", w, h, e.c_str());
        if (!t.hasNode(x, y, 0, true) || !t.contains(x, y)) mc::fail("grid table %dx%d: cell (%d,%d) is not contained", w, h, x, y);
        for (double fx : IN) { double fy = IN[((int) (fx * 8) + x + y) % 5]; Pose2d p(x + fx, y + fy, 1); mc::step(3); if (t.lookup(p) != n || t.lookup(x + fx, y + fy) != n || t.lookup(x + fx, y + fy, 2.0) != n || !t.contains(x + fx, y + fy)) mc::fail("grid table %dx%d: (%.9f,%.9f) is not found in cell (%d,%d)", w, h, p.x, p.y, x, y); }
        spoil(n); mc::nontrivial();
      }
      static const double O[] = {-70, -1, -1e-9, 0, 1e-9, 40};
      for (double ox : O) for (double oy : O) { double x = ox >= 0 ? w + ox : ox, y = oy >= 0 ? h + oy : oy; for (int k = 0; k < 3; ++k) { double px = k == 1 ? 0.5 : x, py = k == 2 ? 0.5 : y; Pose2d p(px, py, 0); int ix = std::floor(px), iy = std::floor(py);
        if (!outside([&] { t.lookup(p); }) || !outside([&] { t.lookup(px, py); }) || !outside([&] { t.lookup(px, py, 1.0); }) || !outside([&] { t.lookup(ix, iy); }) || t.contains(px, py) || t.contains(ix, iy) || t.hasNode(ix, iy, 0, true)) mc::fail("grid table %dx%d: (%g,%g) is not reported outside", w, h, px, py); mc::exec(); } }
      if (rep == 0) { if ((w + h) & 1) t.initMap(false); else t.setMap(m.get()); }   // emptied; the second pass expects fresh nodes again
    }
    mc::state(mc::Hash().u(w).u(h).u(seen.size()).h);
}
// headings: a fine grid over three turns; key: cell
static std::vector<double> headings(int n) { std::vector<double> r; for (int k = 0; k < n; ++k) r.push_back(-M_PI + 2 * M_PI * k / n + 1e-4); return r; }
// bins of one cell seen through `at`: intervals of headings, never wider than two nominal bins, independent of whole turns
template <class F> void bins(const std::string &what, F at, int n)
{
    auto hs = headings(n); std::vector<const void *> v; for (double h : hs) { const void *p = at(h); v.push_back(p); for (int turn : {-2, -1, 1, 2}) if (at(h + turn * 2 * M_PI) != p) mc::fail("%s: heading %.4f and %.4f are different nodes", what.c_str(), h, h + turn * 2 * M_PI); mc::exec(); }
    size_t changes = 0; std::set<const void *> set(v.begin(), v.end()); for (int k = 0; k < n; ++k) changes += v[k] != v[(k + 1) % n]; if (set.size() > 1 && changes != set.size()) mc::fail("%s: %zu heading bins but %zu changes around the circle", what.c_str(), set.size(), changes);
    double width = 2 * 2 * M_PI / 32; int steps = std::ceil(width / (2 * M_PI / n)) + 1; for (int k = 0; k < n; ++k) if (v[k] == v[(k + steps) % n]) mc::fail("%s: headings %.4f and %.4f share a node", what.c_str(), hs[k], hs[(k + steps) % n]);
    if (at(M_PI - 1e-9) == at(0)) mc::fail("%s: opposite headings share a node", what.c_str()); mc::nontrivial();
}
// ---- directional tables, static and dynamic, behind one interface
struct Table { virtual ~Table() {} virtual void map(const GridMap2d *) = 0; virtual void reinit() = 0; virtual const void *at(int x, int y, double th, bool f, int form, double fx, double fy) = 0; virtual std::string isfresh(const void *, int x, int y) = 0; virtual double heading(const void *) = 0; virtual void spoilit(const void *) = 0; virtual bool contains(double x, double y, bool ints) = 0; virtual int member(int x, int y, double th, bool f) = 0; virtual int pad() = 0; };
struct StaticT : Table {
    Dir t; void map(const GridMap2d *m) override { t.setMap(m); } void reinit() override { t.initMap(false); } int pad() override { return 0; }
    const void *at(int x, int y, double th, bool f, int form, double fx, double fy) override { mc::step(); if (form == 0) return t.lookup(x, y, th, f); if (form == 1) return t.lookup(x + fx, y + fy, th, f); if (form == 2 && f) return t.lookup(Pose2d(x + fx, y + fy, th)); SNode n; SNode::init(n, Pose2d(x + fx, y + fy, th)); n.x = x + fx; n.y = y + fy; n.theta = th; n.forward = f; return t.lookup(n); }
    std::string isfresh(const void *n, int x, int y) override { return fresh((const SNode *) n, x, y); } void spoilit(const void *n) override { spoil((SNode *) n); } double heading(const void *n) override { return ((const SNode *) n)->theta; }
    bool contains(double x, double y, bool ints) override { return ints ? t.contains((int) x, (int) y) : t.contains(x, y); } int member(int x, int y, double, bool f) override { return t.hasNode(x, y, 0, f); }
};
struct DynT : Table {
    Dyn t; DynT() { } void map(const GridMap2d *m) override { t.setMap(m); } void reinit() override { t.initMap(false); } int pad() override { return t.padding; }
    const void *at(int x, int y, double th, bool f, int form, double fx, double fy) override { mc::step(); if (form == 0) return t.lookup(x, y, th, (x + y) & 3, f); if (form == 1) return t.lookup(x + fx, y + fy, th, 0, f); if (form == 2 && f) return t.lookup(Pose2d(x + fx, y + fy, th)); if (form == 3) return t.lookup(x, y, t.angle2index(th), -30, f); DNode n; DNode::init(n, Pose2d(x + fx, y + fy, th)); n.x = x + fx; n.y = y + fy; n.theta = th; n.forward = f; return t.lookup(n); }
    std::string isfresh(const void *n, int x, int y) override { return fresh((const DNode *) n, x, y); } void spoilit(const void *n) override { spoil((DNode *) n); } double heading(const void *n) override { return ((const DNode *) n)->theta; }
    bool contains(double x, double y, bool ints) override { return ints ? t.contains((int) x, (int) y) : t.contains(x, y); } int member(int x, int y, double th, bool f) override { return t.hasNode(x, y, t.angle2index(th), f); }
};
static std::unique_ptr<Table> make(bool dyn) { return std::unique_ptr<Table>(dyn ? (Table *) new DynT : (Table *) new StaticT); }
// every cell of the (padded) area: own node, right cell, same node for every way of asking
template <bool DYN> static void cells(uint64_t i)
{
    Dec d(i); int w = SIZES[d(10)], h = SIZES[d(10)]; verif_angle_mode = i & 1; const char *name = DYN ? "dynamic table" : "static table"; mc::describe(mc::fmt("%s %dx%d", name, w, h));
    auto t = make(DYN); auto m = to_map(blank(w, h, 0.5)); t->map(m.get()); int P = DYN ? 32 : 0; if (t->pad() != P) mc::fail("%s: padding %d", name, t->pad()); std::set<const void *> seen; std::string e;
    int st = mc::thorough ? 1 : (w + 2 * P) > 40 ? 3 : 1;
    auto edge = [&](int v, int n) { return v <= -P + 1 || v >= n + P - 2 || (v & 31) == 0 || (v & 31) == 31 || v == n - 1 || v == n; };
    for (int y = -P; y < h + P; ++y) for (int x = -P; x < w + P; ++x) {
        if (st > 1 && !(edge(x, w) && edge(y, h)) && (x + 2 * y + 999) % (st * 4)) continue;
        double th = -3 + 0.37 * ((x * 7 + y * 3 + 4000) % 16); const void *n = t->at(x, y, th, true, 0, 0, 0), *b = t->at(x, y, th, false, 0, 0, 0), *o = t->at(x, y, th + (th < 0 ? 1 : -1), true, 0, 0, 0); mc::exec();
        if (!seen.insert(n).second || !seen.insert(b).second || !seen.insert(o).second) mc::fail("%s %dx%d: cell (%d,%d) heading %.3f shares a node", name, w, h, x, y, th);
        for (const void *p : {n, b, o}) { e = t->isfresh(p, x, y); if (!e.empty()) mc::fail("%s %dx%d: %s", name, w, h, e.c_str()); double want = p == o ? th + (th < 0 ? 1 : -1) : th, off = std::fabs(std::remainder(t->heading(p) - want, 2 * M_PI)); if (!(off <= 2.1 * 2 * M_PI / 32)) mc::fail("%s %dx%d: the fresh %s node of cell (%d,%d) looked up with heading %.3f has heading %.3f", name, w, h, p == b ? "backward" : "forward", x, y, want, t->heading(p)); }
        for (int k = 0; k < 5; ++k) { double fx = IN[k], fy = IN[(k + x + y + 4000) % 5]; for (int form = 1; form < 5; ++form) { if (form == 3 && !DYN) continue; if (t->at(x, y, th, true, form, fx, fy) != n || t->at(x, y, th + 2 * M_PI, false, form, fx, fy) != b) mc::fail("%s %dx%d: pose (%.9f,%.9f,%.3f), form %d, is not found in cell (%d,%d)", name, w, h, x + fx, y + fy, th, form, x, y); } if (!t->contains(x + fx, y + fy, false)) mc::fail("%s %dx%d: (%.9f,%.9f) is not contained", name, w, h, x + fx, y + fy); }
        if (!t->contains(x, y, true) || !t->member(x, y, th, true)) mc::fail("%s %dx%d: cell (%d,%d) has no node", name, w, h, x, y);
        mc::nontrivial();
    }
    static const double O[] = {-70, -1, -1e-9, 0, 1e-9, 40};
    for (double ox : O) for (double oy : O) for (int k = 0; k < 3; ++k) { double x = ox >= 0 ? w + P + ox : ox - P, y = oy >= 0 ? h + P + oy : oy - P; if (k == 1) x = 0.5; if (k == 2) y = 0.5; int ix = std::floor(x), iy = std::floor(y);
        for (int form = 0; form < 5; ++form) { if (form == 3 && !DYN) continue; if (!outside([&] { t->at(ix, iy, 0.3, true, form, x - ix, y - iy); })) mc::fail("%s %dx%d: lookup of (%.9f,%.9f), form %d, is not reported outside", name, w, h, x, y, form); }
        if (t->contains(x, y, false) || t->contains(ix, iy, true)) mc::fail("%s %dx%d: (%.9f,%.9f) is contained", name, w, h, x, y); bool mem = false; outside([&] { mem = t->member(ix, iy, 0, true); }); if (mem) mc::fail("%s %dx%d: (%d,%d) is a member", name, w, h, ix, iy); mc::exec(); }
    mc::state(mc::Hash().u(w).u(h).u(seen.size()).h);
}
template <bool DYN> static void heading_bins(uint64_t i)
{
    Dec d(i); int mode = d(2), f = d(2), form = d(3), c = d(4); verif_angle_mode = mode; auto t = make(DYN); auto m = to_map(blank(4, 3, 1)); t->map(m.get()); int x = c == 0 ? 0 : c == 1 ? 3 : DYN ? -32 : 2, y = c == 0 ? 0 : c == 1 ? 2 : DYN ? 34 : 1; mc::describe("heading bins");
    bins(mc::fmt("%s, cell (%d,%d), %s, form %d", DYN ? "dynamic table" : "static table", x, y, f ? "forward" : "backward", form), [&](double th) { return t->at(x, y, th, f, form, 0.5, 0.5); }, mc::thorough ? 3600 : 720);
}
// membership and re-initialisation: every sequence of first accesses to places around chunk borders
static void member(uint64_t i)
{
    Dec d(i); int w = SIZES[4 + d(6)], h = 33, depth = mc::thorough ? 4 : 3; DynT t; auto m = to_map(blank(w, h, 0.5)); t.map(m.get()); auto m2 = to_map(blank(5, 40, 0.5)); int W = w, H = h; std::string hist;
    static const int PX[] = {-32, -1, 0, 31, 32, 63, 64, 96}, PY[] = {-32, -1, 0, 31, 32, 64}; std::set<std::pair<int, int>> have; std::vector<std::pair<const void *, std::pair<int, int>>> touched;
    for (int k = 0; k < depth; ++k) {
        int op = d(10); if (op >= 8) { if (op == 8) { t.reinit(); hist += "reinit; "; } else { t.map(m2.get()); W = 5; H = 40; hist += "map 5x40; "; } have.clear(); touched.clear(); }
        else { int x = PX[op], y = PY[(op + k + i) % 6]; hist += mc::fmt("(%d,%d); ", x, y); if (x < W + 32 && y < H + 32) { auto n = t.at(x, y, 0.1 * k, k & 1, 0, 0, 0); std::string e = t.isfresh(n, x, y); bool old = false; for (auto &q : touched) old = old || q.first == n; if (!e.empty() && !old) mc::fail("dynamic table %dx%d after %s: %s", W, H, hist.c_str(), e.c_str()); t.spoilit(n); touched.push_back({n, {x, y}}); have.insert({(x + 32) / 32, (y + 32) / 32}); } else if (!outside([&] { t.at(x, y, 0, true, 0, 0, 0); })) mc::fail("dynamic table after %s: outside not reported", hist.c_str()); }
        mc::describe(hist);
        for (int x = -33; x <= W + 32; ++x) for (int y : {-33, -32, -1, 0, 31, 32, H + 31, H + 32}) { bool in = x >= -32 && y >= -32 && x < W + 32 && y < H + 32, has = false, out = outside([&] { has = t.member(x, y, 0.4, true); }); bool want = in && have.count({(x + 32) / 32, (y + 32) / 32}); mc::exec(); if (in && out) mc::fail("dynamic table %dx%d after %s: (%d,%d) reported outside", W, H, hist.c_str(), x, y); if (has != want) mc::fail("dynamic table %dx%d after %s: hasNode(%d,%d) is %d", W, H, hist.c_str(), x, y, has); if (want) mc::nontrivial(); }
    }
    mc::state(mc::Hash().s(hist).h);
}
// the static table after use: re-initialised nodes are fresh, a map of another size is taken over
static void static_reinit(uint64_t i)
{
    Dec d(i); int s1 = d(10), s2 = d(10); int w = SIZES[s1], h = SIZES[(s1 + 3) % 5]; StaticT t; auto m = to_map(blank(w, h, 1)), m2 = to_map(blank(SIZES[s2], SIZES[s1 % 5], 1)); t.map(m.get()); mc::describe(mc::fmt("static table %dx%d then %d", w, h, SIZES[s2])); std::string e;
    for (int pass = 0; pass < 3; ++pass) { if (pass == 1) t.reinit(); if (pass == 2) { t.map(m2.get()); w = SIZES[s2]; h = SIZES[s1 % 5]; } for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int k = 0; k < 4; ++k) for (int f = 0; f < 2; ++f) { auto n = t.at(x, y, -3 + 1.7 * k, f, 0, 0, 0); mc::exec(); e = t.isfresh(n, x, y); if (!e.empty()) mc::fail("static table, pass %d: %s", pass, e.c_str()); t.spoilit(n); mc::nontrivial(); } }
}
void mc_setup()
{
    mc::bound("maps of every width and height of {1,2,3,5,31,32,33,63,64,65} (padding 32, chunk size 32): %s cells x 5 positions in the cell x every way of asking; 36 places outside; heading bins on %d headings over five turns; two angle conventions", mc::thorough ? "all" : "all border and chunk border cells and every third to twelfth of the other", mc::thorough ? 3600 : 720);
    mc::bound("every sequence of %d first accesses / re-initialisations / map changes around chunk borders, membership compared for 8 rows of cells", mc::thorough ? 4 : 3);
    mc::assumption("membership of the chunked table is per 32x32 block; heading bins may be unevenly wide (up to twice a 32nd of a turn)");
    mc::family("grid table", 100, grid, 1); mc::family("static table", 100, cells<false>, 1); mc::family("dynamic table", 100, cells<true>, 1, 120);
    mc::family("static bins", 48, heading_bins<false>, 1); mc::family("dynamic bins", 48, heading_bins<true>, 1);
    mc::family("membership", mc::thorough ? 60000 : 6000, member, 0, 120); mc::family("static reinit", 100, static_reinit, 1);
}

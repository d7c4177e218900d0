// C14: map areas and buffers
#include "mc.h"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <memory>
#include <set>
#include <map>
using namespace lib_path;
using mc::Dec;
typedef std::pair<int, int> C;
typedef std::vector<C> Cells;
static Cells iterate(MapArea2d &a, size_t limit = 5000)
{
    Cells c; a.begin(); int x, y;
    while (a.next()) { a.getCell(x, y); c.push_back({x, y}); mc::step(); if (c.size() > limit) mc::fail("iteration does not end"); }
    if (a.next()) mc::fail("iteration continues after its end");
    return c;
}
static std::string show(const Cells &c) { std::string s; for (auto &p : c) { s += mc::fmt("(%d,%d)", p.first, p.second); if (s.size() > 600) return s + "..."; } return s; }
static std::unique_ptr<SimpleGridMap2d> make(unsigned w, unsigned h, double res, double ox, double oy)
{
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(w, h, res)); m->setOrigin(Point2d(ox, oy)); return m;
}
static Point2d centre(const GridMap2d &m, int x, int y) { double px, py; m.cell2pointSubPixel(x + 0.5, y + 0.5, px, py); return Point2d(px, py); }

// ---- which cells ------------------------------------------------------------------------------------
static void circle_oracle(const Cells &c, int cx, int cy, double radius, double res, const char *what)
{
    std::set<C> s(c.begin(), c.end());
    if (s.size() != c.size()) mc::fail("%s visits a cell twice: %s", what, show(c).c_str());
    if (radius <= res) { if (c.size() != 1 || c[0] != C(cx, cy)) mc::fail("%s with radius of at most a cell is not its centre cell: %s", what, show(c).c_str()); return; }
    double R = std::floor(radius / res + 1e-12);
    for (int y = -R - 3; y <= R + 3; ++y) for (int x = -R - 3; x <= R + 3; ++x) {
        double dist = std::hypot(x, y); bool in = s.count({cx + x, cy + y});
        if (dist <= R - 0.5 && !in) mc::fail("%s around (%d,%d) radius %g cells lacks cell (%d,%d)", what, cx, cy, radius / res, cx + x, cy + y);
        if (dist > R + 0.75 && in) mc::fail("%s around (%d,%d) radius %g cells contains the far cell (%d,%d)", what, cx, cy, radius / res, cx + x, cy + y);
    }
    for (auto &p : c) if (!s.count({2 * cx - p.first, p.second}) || !s.count({p.first, 2 * cy - p.second})) mc::fail("%s is not symmetric at (%d,%d)", what, p.first, p.second);
    for (auto &p : c) if (std::hypot(p.first - cx, p.second - cy) > R + 2) mc::fail("%s contains the far cell (%d,%d)", what, p.first, p.second);
}
static const double RAD[] = {0.3, 1.0, 1.5, 2.0, 2.3, 3.0, 4.0, 5.7, 7.0};
static const double RES[] = {1.0, 0.5, 2.0, 0.1};
static void circles(uint64_t i)
{
    Dec d(i); double res = RES[d(4)]; double rad = RAD[d(9)] * res; unsigned w = 1 + d(6), h = 1 + d(6); int org = d(2);
    auto m = make(w, h, res, org ? -3.3 : 0, org ? 8.1 : 0);
    mc::describe(mc::fmt("map %ux%u res %g origin %d: circles of radius %g around every cell", w, h, res, org, rad));
        for (int cy = -1; cy <= (int) h; ++cy) for (int cx = -1; cx <= (int) w; ++cx) {
        Point2d p = centre(*m, cx, cy); CircleArea a(p, rad, m.get()); Cells c = iterate(a); CircleBuffer b(p, rad, m.get());
        bool in = m->isInMap(cx, cy);
        if (!in) { if (!c.empty()) mc::fail("circle centred outside the map at (%d,%d) has cells %s", cx, cy, show(c).c_str()); if (!iterate(b).empty()) mc::fail("buffer centred outside has cells"); mc::exec(); continue; }
        circle_oracle(c, cx, cy, rad, res, "circle");
        if (iterate(b) != c) mc::fail("buffer and circle differ at (%d,%d)", cx, cy);
        if (iterate(a) != c) mc::fail("second iteration differs");
        { CircleArea z(p, 0.0, m.get()); if (!iterate(z).empty()) mc::fail("circle of radius 0 has cells"); CircleArea n(p, -1.0, m.get()); if (!iterate(n).empty()) mc::fail("circle of negative radius has cells"); }
        // moving the centre shifts the cells
        for (int ny = -1; ny <= (int) h; ++ny) for (int nx = -1; nx <= (int) w; ++nx) {
            CircleArea t(p, rad, m.get()); t.setCenter(centre(*m, nx, ny), m.get()); Cells q = iterate(t); Cells e = c;
            if (m->isInMap(nx, ny)) for (auto &k : e) { k.first += nx - cx; k.second += ny - cy; }
            if (q != e) mc::fail("circle moved from (%d,%d) to (%d,%d) has cells %s, want %s", cx, cy, nx, ny, show(q).c_str(), show(e).c_str());
            mc::exec();
        }
        // re-initialisation
        for (double r2 : {0.3, 3.0}) { CircleArea t(p, rad, m.get()); t.begin(); t.next(); t.init(centre(*m, 0, 0), r2 * res, m.get()); CircleArea u(centre(*m, 0, 0), r2 * res, m.get()); if (iterate(t) != iterate(u)) mc::fail("re-initialised circle differs from a fresh one"); }
        mc::exec(2); mc::nontrivial(); mc::Hash hh; for (auto &k : c) hh.u(k.first + 99).u(k.second + 99); mc::state(hh.h);
    }
}
static void lines(uint64_t i)
{
    Dec d(i); double res = RES[d(4)]; unsigned w = 1 + d(7), h = 1 + d(7); int org = d(2); auto m = make(w, h, res, org ? -3.3 : 0, org ? 8.1 : 0);
    mc::describe(mc::fmt("map %ux%u res %g: line areas between every two points, also outside", w, h, res));
    for (int y0 = -1; y0 <= (int) h; ++y0) for (int x0 = -1; x0 <= (int) w; ++x0) for (int y1 = -1; y1 <= (int) h; ++y1) for (int x1 = -1; x1 <= (int) w; ++x1) {
        LineArea a(centre(*m, x0, y0), centre(*m, x1, y1), m.get()); Cells c = iterate(a); mc::exec();
        if (!m->isInMap(x0, y0) || !m->isInMap(x1, y1)) { if (!c.empty()) mc::fail("line with an end outside, (%d,%d)->(%d,%d), has cells %s", x0, y0, x1, y1, show(c).c_str()); continue; }
        int dx = abs(x1 - x0), dy = abs(y1 - y0);
        if ((int) c.size() != std::max(dx, dy) + 1 || c.front() != C(x0, y0) || c.back() != C(x1, y1)) mc::fail("line (%d,%d)->(%d,%d) has cells %s", x0, y0, x1, y1, show(c).c_str());
        for (size_t k = 0; k < c.size(); ++k) {
            if (k && (abs(c[k].first - c[k - 1].first) > 1 || abs(c[k].second - c[k - 1].second) > 1 || c[k] == c[k - 1])) mc::fail("line (%d,%d)->(%d,%d) has a gap: %s", x0, y0, x1, y1, show(c).c_str());
            long e = labs((long) (x1 - x0) * (c[k].second - y0) - (long) (y1 - y0) * (c[k].first - x0));
            if (2 * e > std::max(dx, dy)) mc::fail("line (%d,%d)->(%d,%d) strays: %s", x0, y0, x1, y1, show(c).c_str());
        }
        LineArea r(centre(*m, 0, 0), centre(*m, w - 1, h - 1), m.get()); r.begin(); r.next(); r.set(centre(*m, x0, y0), centre(*m, x1, y1), m.get());
        if (iterate(r) != c) mc::fail("re-set line differs from a fresh one");
        mc::nontrivial(); mc::Hash hh; for (auto &k : c) hh.u(k.first + 99).u(k.second + 99); mc::state(hh.h);
    }
}
// an area given as an explicit list, to exercise the bulk operations of the map alone
struct ListArea : MapArea2d {
    Cells c; std::vector<int> vals; size_t k = 0;
    void begin() override { k = 0; } bool next() override { if (k >= c.size()) return false; ++k; return true; }
    void getCell(int &x, int &y) const override { x = c[k - 1].first; y = c[k - 1].second; }
    uint8_t getValue() const override { return vals[k - 1]; }
    void setValue(const uint8_t v) override { vals[k - 1] = v; }
};
static const uint8_t V3[3] = {0, 100, 250}; // free, unknown, occupied
static void predicates(uint64_t i)
{
    // every content of a 3x2 map over {free, unknown, occupied}, every list of up to 2 cells in and around it, line areas and circles
    Dec d(i); const unsigned w = 3, h = 2; auto m = make(w, h, 1.0, 0, 0); std::vector<uint8_t> v; for (int k = 0; k < 6; ++k) { v.push_back(V3[d(3)]); } m->set(v, w, h);
    mc::describe(mc::fmt("3x2 map content #%llu: area predicates and bulk set on every area", (unsigned long long) i));
    auto check = [&](MapArea2d &a, const Cells &c, const char *what) {
        bool fr = true, oc = false; int unk = 0, ins = 0;
        for (auto &p : c) if (m->isInMap(p.first, p.second)) { int t = v[p.second * w + p.first]; if (t != 0) fr = false; if (t == 250) oc = true; if (t == 100) ++unk; ++ins; }
        if (m->isAreaFree(a) != fr) mc::fail("%s: area %s reported %sfree", what, show(c).c_str(), fr ? "not " : "");
        if (m->isAreaOccupied(a) != oc) mc::fail("%s: area %s reported %soccupied", what, show(c).c_str(), oc ? "not " : "");
        // no cell or only cells without information: unambiguous; a mixture may be judged either way
        bool no = m->isAreaNoInformation(a); if (ins && !unk && no) mc::fail("%s: area %s without an unknown cell is reported to lack information", what, show(c).c_str()); if (ins && unk == ins && !no) mc::fail("%s: area %s of unknown cells is not reported to lack information", what, show(c).c_str());
        auto t = make(w, h, 1.0, 0, 0); t->set(v, w, h); t->setAreaValue(a, 77);
        for (int y = 0; y < (int) h; ++y) for (int x = 0; x < (int) w; ++x) {
            bool in = std::find(c.begin(), c.end(), C(x, y)) != c.end(); int want = in ? 77 : v[y * w + x];
            if (t->getValue(x, y) != want) mc::fail("%s: after setting area %s cell (%d,%d) reads %d, want %d", what, show(c).c_str(), x, y, t->getValue(x, y), want);
        }
        mc::exec(3); mc::step(3); mc::nontrivial(c.size() > 0); mc::state(mc::Hash().u(fr).u(oc).u(i).u(c.size()).h);
    };
    Cells all; for (int y = -1; y <= (int) h; ++y) for (int x = -1; x <= (int) w; ++x) all.push_back({x, y});
    for (size_t a = 0; a <= all.size(); ++a) for (size_t b = 0; b <= all.size(); ++b) {
        ListArea l; if (a < all.size()) l.c.push_back(all[a]); if (b < all.size()) l.c.push_back(all[b]); l.vals.assign(l.c.size(), 5); check(l, l.c, "list");
        // getAreaValues / setAreaValue with per-cell values
        ListArea g = l; m->getAreaValues(g);
        for (size_t k = 0; k < g.c.size(); ++k) { bool in = m->isInMap(g.c[k].first, g.c[k].second); int want = in ? v[g.c[k].second * w + g.c[k].first] : 5; if (g.vals[k] != want) mc::fail("reading area %s stored %d for cell %zu, want %d", show(g.c).c_str(), g.vals[k], k, want); }
        for (size_t k = 0; k < g.c.size(); ++k) g.vals[k] = 30 + k;
        auto t = make(w, h, 1.0, 0, 0); t->set(v, w, h); t->setAreaValue(g); std::vector<uint8_t> e = v;
        for (size_t k = 0; k < g.c.size(); ++k) if (m->isInMap(g.c[k].first, g.c[k].second)) e[g.c[k].second * w + g.c[k].first] = 30 + k;
        for (int y = 0; y < (int) h; ++y) for (int x = 0; x < (int) w; ++x) if (t->getValue(x, y) != e[y * w + x]) mc::fail("writing area %s: cell (%d,%d) reads %d want %d", show(g.c).c_str(), x, y, t->getValue(x, y), e[y * w + x]);
    }
    for (int a = 0; a < 6; ++a) for (int b = 0; b < 6; ++b) { LineArea l(centre(*m, a % 3, a / 3), centre(*m, b % 3, b / 3), m.get()); check(l, iterate(l), "line"); }
    for (int a = 0; a < 6; ++a) for (double r : {0.5, 1.5, 2.0, 3.0}) { CircleArea c(centre(*m, a % 3, a / 3), r, m.get()); check(c, iterate(c), "circle"); CircleBuffer cb(centre(*m, a % 3, a / 3), r, m.get()); check(cb, iterate(cb), "buffer"); }
}
// ---- histories of buffers ---------------------------------------------------------------------------
struct Buf { std::unique_ptr<CircleBuffer> b; Cells cells; std::vector<int> vals; };
static void histories(uint64_t i)
{
    Dec d(i); const int w = 5, h = 4; static const double R[] = {0.5, 2.0, 3.0};
    int ca = d(w * h), ra = d(3), cb = mc::thorough ? d(w * h) : (d(5) * 7 + 2) % (w * h), rb = d(3); int first = d(10);
    const int depth = mc::thorough ? 5 : 4;
    mc::describe(mc::fmt("5x4 map, buffers A at (%d,%d) r %g, B at (%d,%d) r %g: every sequence of %d operations starting with %d over {save,restore,fill,move,init with the next radius} of A and B", ca % w, ca / w, R[ra], cb % w, cb / w, R[rb], depth, first));
    for (uint64_t seq = 0; seq < mc::ipow(10, depth - 1); ++seq) {
        auto m = make(w, h, 1.0, 0, 0); std::vector<int> v(w * h);
        for (int k = 0; k < w * h; ++k) { v[k] = 10 + k; m->setValue(k % w, k / w, v[k]); }
        Buf B[2]; int c[2] = {ca, cb}, r[2] = {ra, rb};
        for (int k = 0; k < 2; ++k) { B[k].b.reset(new CircleBuffer(centre(*m, c[k] % w, c[k] / w), R[r[k]], m.get())); B[k].cells = iterate(*B[k].b); B[k].vals.assign(B[k].cells.size(), 0); }
        Dec q(seq); int fillv = 100; std::string hist;
        for (int s = 0; s < depth; ++s) {
            int op = s == 0 ? first : q(10); Buf &X = B[op & 1]; const char *nm = "AB"; char nn = nm[op & 1];
            switch (op >> 1) {
            case 0: hist += mc::fmt("save %c; ", nn); m->getAreaValues(*X.b); for (size_t k = 0; k < X.cells.size(); ++k) if (m->isInMap(X.cells[k].first, X.cells[k].second)) X.vals[k] = v[X.cells[k].second * w + X.cells[k].first]; break;
            case 1: hist += mc::fmt("restore %c; ", nn); m->setAreaValue(*X.b); for (size_t k = 0; k < X.cells.size(); ++k) if (m->isInMap(X.cells[k].first, X.cells[k].second)) v[X.cells[k].second * w + X.cells[k].first] = X.vals[k]; break;
            case 2: ++fillv; hist += mc::fmt("fill %c with %d; ", nn, fillv); m->setAreaValue(*X.b, fillv); for (auto &p : X.cells) if (m->isInMap(p.first, p.second)) v[p.second * w + p.first] = fillv; break;
            case 4: { // initialising again leaves what a new buffer is
                int &rr = r[op & 1]; rr = (rr + 1) % 3; int cc = c[op & 1]; hist += mc::fmt("init %c with radius %g; ", nn, R[rr]);
                X.b->init(centre(*m, cc % w, cc / w), R[rr], m.get()); CircleArea z(centre(*m, cc % w, cc / w), R[rr], m.get()); X.cells = iterate(z); X.vals.assign(X.cells.size(), 0); } break;
            default: { int &cc = c[op & 1]; int n = (cc + 6) % (w * h); hist += mc::fmt("move %c to (%d,%d); ", nn, n % w, n / w); X.b->setCenter(centre(*m, n % w, n / w), m.get()); for (auto &p : X.cells) { p.first += n % w - cc % w; p.second += n / w - cc / w; } cc = n; } break;
            }
            mc::step();
        }
        for (int k = 0; k < w * h; ++k) if (m->getValue(k % w, k / w) != v[k]) mc::fail("after %scell (%d,%d) reads %d, want %d", hist.c_str(), k % w, k / w, m->getValue(k % w, k / w), v[k]);
        mc::exec(); mc::nontrivial(); mc::Hash hh; for (int x : v) hh.u(x); mc::state(hh.h);
    }
}
void mc_setup()
{
    mc::bound("circles of 9 radii around every cell in and next to maps up to 6x6, every move of the centre; lines between all points in and next to maps up to 7x7; all 3^6 contents of a 3x2 map x all areas of up to 2 cells, lines and circles");
    mc::bound("histories: two circle buffers at %s pair of centres of a 5x4 map x 9 radius pairs, every sequence of %d operations out of 10", mc::thorough ? "every" : "every (20x5)", mc::thorough ? 5 : 4);
    mc::family("circles", 4 * 9 * 36 * 2, circles, 8);
    mc::family("lines", 4 * 49 * 2, lines, 4);
    mc::family("predicates", 729, predicates, 8);
    mc::family("histories", (uint64_t) (mc::thorough ? 400 : 100) * 9 * 10, histories, 64);
}

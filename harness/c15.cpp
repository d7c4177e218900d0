// C15: digital line traversal
#include "mc.h"
#include <cslibs_path_planning/common/Bresenham2d.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <memory>
#include <set>
using namespace lib_path;
using mc::Dec;
typedef std::vector<std::pair<int, int>> Cells;
static Cells walk(Bresenham2d &b, size_t limit, const GridMap2d *m)
{
    Cells c; unsigned x, y; b.coordinates(x, y); c.push_back({(int) x, (int) y});
    while (b.next()) {
        b.coordinates(x, y); c.push_back({(int) x, (int) y}); mc::step();
        if (c.size() > limit) mc::fail("the walk does not end: more than %zu cells", limit);
        if (!m->isInMap((int) x, (int) y)) mc::fail("the walk leaves the map at (%d,%d)", (int) x, (int) y);
        if (b.value() != m->getValue(x, y) || b.isFree() != m->isFree(x, y) || b.isOccupied() != m->isOccupied(x, y) || b.isNoInformation() != m->isNoInformation(x, y))
            mc::fail("the value or class reported at (%u,%u) is not the one of that cell", x, y);
        Point2d p; b.point(p); double px, py; m->cell2point(x, y, px, py); if (p.x != px || p.y != py) mc::fail("the point reported at (%u,%u) is not the one of that cell", x, y);
    }
    if (b.next()) mc::fail("the walk continues after its end");
    return c;
}
static void oracle(const Cells &c, int x0, int y0, int x1, int y1, const char *what)
{
    int dx = abs(x1 - x0), dy = abs(y1 - y0); size_t n = std::max(dx, dy) + 1;
    std::string s; for (auto &p : c) s += mc::fmt("(%d,%d)", p.first, p.second);
    if (c.front() != std::make_pair(x0, y0)) mc::fail("%s (%d,%d)->(%d,%d): starts elsewhere: %s", what, x0, y0, x1, y1, s.c_str());
    if (c.back() != std::make_pair(x1, y1)) mc::fail("%s (%d,%d)->(%d,%d): ends elsewhere: %s", what, x0, y0, x1, y1, s.c_str());
    if (c.size() != n) mc::fail("%s (%d,%d)->(%d,%d): %zu cells instead of %zu: %s", what, x0, y0, x1, y1, c.size(), n, s.c_str());
    std::set<std::pair<int, int>> seen;
    for (size_t i = 0; i < c.size(); ++i) {
        if (!seen.insert(c[i]).second) mc::fail("%s (%d,%d)->(%d,%d): visits a cell twice: %s", what, x0, y0, x1, y1, s.c_str());
        if (i && (abs(c[i].first - c[i - 1].first) > 1 || abs(c[i].second - c[i - 1].second) > 1)) mc::fail("%s (%d,%d)->(%d,%d): gap: %s", what, x0, y0, x1, y1, s.c_str());
        // distance from the ideal line along the minor axis: |dx*(y-y0) - dy*(x-x0)| <= max/2
        long e = labs((long) (x1 - x0) * (c[i].second - y0) - (long) (y1 - y0) * (c[i].first - x0));
        if (2 * e > std::max(dx, dy)) mc::fail("%s (%d,%d)->(%d,%d): cell (%d,%d) is more than half a cell off the line: %s", what, x0, y0, x1, y1, c[i].first, c[i].second, s.c_str());
    }
    mc::exec(); if (n > 2) mc::nontrivial();
    mc::Hash h; for (auto &p : c) h.u(p.first - x0 + 500).u(p.second - y0 + 500); mc::state(h.h);
}
static std::unique_ptr<SimpleGridMap2d> make(unsigned w, unsigned h, int kind)
{
    std::unique_ptr<SimpleGridMap2d> m;
    if (kind == 2) m.reset(new RotatedGridMap2d(w, h, 0.6, 0.25)); else m.reset(new SimpleGridMap2d(w, h, kind ? 0.5 : 1.0));
    ((GridMap2d *) m.get())->setOrigin(kind ? Point2d(-3.25, 7.5) : Point2d(0, 0));
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) m->setValue(x, y, (x * 37 + y * 91) & 255);
    return m;
}
static const unsigned SW[] = {17, 9, 1, 1, 12, 24, 40}, SH[] = {17, 23, 14, 1, 1, 24, 11};
static void lines(uint64_t i)
{
    Dec d(i); int shape = d(mc::thorough ? 7 : 5), kind = d(3); unsigned w = SW[shape], h = SH[shape]; unsigned cell = d(1024);
    if (cell >= w * h) return;
    auto m = make(w, h, kind); int x0 = cell % w, y0 = cell / w;
    mc::describe(mc::fmt("map %ux%u kind %d: lines from (%d,%d) to every cell", w, h, kind, x0, y0));
    Bresenham2d reused;
    for (int y1 = 0; y1 < (int) h; ++y1) for (int x1 = 0; x1 < (int) w; ++x1) {
        Bresenham2d b; b.setGrid(m.get(), x0, y0, x1, y1); Cells c = walk(b, w + h + 5, m.get()); oracle(c, x0, y0, x1, y1, "cells");
        reused.setGrid(m.get(), x0, y0, x1, y1); if (walk(reused, w + h + 5, m.get()) != c) mc::fail("reused walker differs for (%d,%d)->(%d,%d)", x0, y0, x1, y1);
        Point2d a, e; m->cell2point(x0, y0, a.x, a.y); m->cell2point(x1, y1, e.x, e.y);
        Bresenham2d p; p.set(m.get(), a, e); Cells q = walk(p, w + h + 5, m.get()); oracle(q, x0, y0, x1, y1, "points");
    }
}
static void outside(uint64_t i)
{
    Dec d(i); int kind = d(3); unsigned w = 1 + d(5), h = 1 + d(5); auto m = make(w, h, kind);
    mc::describe(mc::fmt("map %ux%u kind %d: every line with an end outside, fresh and after every line inside", w, h, kind));
    std::vector<std::pair<int, int>> out, in;
    for (int y = -2; y < (int) h + 2; ++y) for (int x = -2; x < (int) w + 2; ++x) (m->isInMap(x, y) ? in : out).push_back({x, y});
    auto pt = [&](std::pair<int, int> c) { double px, py; m->cell2pointSubPixel(c.first + 0.5, c.second + 0.5, px, py); return Point2d(px, py); };
    for (auto &o : out) for (auto &a : in) for (int swap = 0; swap < 2; ++swap) for (int points = 0; points < 2; ++points) {
        for (int prev = 0; prev < 3; ++prev) {
            Bresenham2d b;
            if (prev) { b.setGrid(m.get(), in.front().first, in.front().second, in.back().first, in.back().second); for (int k = 1; k < prev; ++k) b.next(); }
            auto s = swap ? o : a, e = swap ? a : o;
            if (points) b.set(m.get(), pt(s), pt(e)); else b.setGrid(m.get(), s.first, s.second, e.first, e.second);
            if (b.next()) mc::fail("line (%d,%d)->(%d,%d) with an end outside a %ux%u map moves on (by %s, after %d steps of another line)", s.first, s.second, e.first, e.second, w, h, points ? "points" : "cells", prev - 1);
            // ... and the walker is usable again
            b.setGrid(m.get(), a.first, a.second, in.back().first, in.back().second);
            Cells c = walk(b, w + h + 5, m.get()); oracle(c, a.first, a.second, in.back().first, in.back().second, "after a rejected line");
            mc::step(2); mc::nontrivial();
        }
    }
}
static void restart(uint64_t i)
{
    Dec d(i); int kind = d(3); const int W = 5, H = 4; unsigned first = d(W * H * W * H); auto m = make(W, H, kind);
    int a = first % (W * H), b0 = first / (W * H); mc::describe(mc::fmt("line %d->%d stopped after every number of steps, then every other line", a, b0));
    for (int second = 0; second < W * H * W * H; ++second) for (int stop = 0; stop < 6; ++stop) {
        Bresenham2d b; b.setGrid(m.get(), a % W, a / W, b0 % W, b0 / W); int k = 0; while (k < stop && b.next()) ++k; if (k < stop) break;
        int c = second % (W * H), e = second / (W * H); b.setGrid(m.get(), c % W, c / W, e % W, e / W);
        Cells q = walk(b, 20, m.get()); oracle(q, c % W, c / W, e % W, e / W, "restarted");
    }
}
static void longlines(uint64_t i)
{
    static const int LEN[] = {127, 130, 255, 260, 16383, 16390, 32767, 32770, 40000, 65535, 65540, 70000};
    Dec d(i); int len = LEN[d(12)]; bool steep = d(2); int minor = d(9); bool back = d(2); unsigned w = steep ? 9 : len + 1, h = steep ? len + 1 : 9;
    int x0 = 0, y0 = 0, x1 = steep ? minor : len, y1 = steep ? len : minor; if (back) { std::swap(x0, x1); std::swap(y0, y1); }
    mc::describe(mc::fmt("line (%d,%d)->(%d,%d) on a map of %ux%u", x0, y0, x1, y1, w, h));
    SimpleGridMap2d m(w, h, 0.5); ((GridMap2d *) &m)->setOrigin(Point2d(0, 0));
    Bresenham2d b; b.setGrid(&m, x0, y0, x1, y1); int px = 0, py = 0; mc::Hash hs;
    for (int k = 0; k <= len; ++k) {
        unsigned ux, uy; b.coordinates(ux, uy); int x = ux, y = uy;
        if (x < 0 || y < 0 || x >= (int) w || y >= (int) h) mc::fail("step %d leaves the map at (%d,%d)", k, x, y);
        if (!k && (x != x0 || y != y0)) mc::fail("it starts at (%d,%d)", x, y);
        if ((steep ? abs(y - y0) : abs(x - x0)) != k || (k && (abs(x - px) > 1 || abs(y - py) > 1))) mc::fail("step %d is at (%d,%d)", k, x, y);
        if (2 * labs((long) (x1 - x0) * (y - y0) - (long) (y1 - y0) * (x - x0)) > len) mc::fail("cell (%d,%d) is more than half a cell off the line", x, y);
        px = x; py = y; hs.u(x).u(y); mc::step(); if (b.next() != (k < len)) mc::fail("next says the opposite after %d steps", k);
    }
    if (px != x1 || py != y1) mc::fail("it ends at (%d,%d)", px, py);
    mc::state(hs.h); mc::exec(); mc::nontrivial();
}
void mc_setup()
{
    mc::bound("every ordered pair of cells on %d map shapes up to %s, by cells and by points, on simple and rotated maps; every line with one end up to 2 cells outside maps up to 5x5; every pair of lines on a 5x4 map with the first stopped after each step; lines of 127 to 70000 cells in 18 directions from both ends", mc::thorough ? 7 : 5, mc::thorough ? "24x24 and 40x11" : "17x17 and 9x23");
    mc::family("outside", 75, outside, 1);
    mc::family("long lines", 12 * 2 * 9 * 2, longlines, 4);
    mc::family("lines", (uint64_t) (mc::thorough ? 7 : 5) * 3 * 1024, lines, 16);
    mc::family("restart", mc::thorough ? 3 * 400 : 400, [](uint64_t i) { restart(mc::thorough ? i : i * 3); }, 2);
}

// C13: point <-> cell conversion and in-map tests
#include "mc.h"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/MapMath.h>
#include <climits>
#include <memory>
using namespace lib_path;
using mc::Dec;
static const unsigned WS[] = {1, 2, 3, 5, 40};
static const double RES[] = {1.0, 0.5, 0.05, 0.1, 2.0, 0.3};
static const double ORX[] = {0, 0.37, -3.7, 1000, -12.25};
static const double ORY[] = {0, -0.81, 2.5, -777.7, 64};
static const double YAW[] = {0, M_PI / 6, M_PI / 2, -M_PI / 2, M_PI, 2.5, -0.7, 0.01, -4, 7.5};
static const double OFF[] = {0.5, 0.02, 0.98, 0.25, 0.75};   // sub-cell offsets
struct Cfg { unsigned w, h; double res, ox, oy, yaw; bool rot; };
static Cfg decode(uint64_t i)
{
    Dec d(i); Cfg c; c.w = WS[d(5)]; c.h = WS[d(5)]; c.res = RES[d(6)]; int o = d(5); c.ox = ORX[o]; c.oy = ORY[o]; int y = d(11);
    c.rot = y < 10; c.yaw = c.rot ? YAW[y] : 0; return c;
}
static const uint64_t N = 5 * 5 * 6 * 5 * 11;
static std::unique_ptr<SimpleGridMap2d> make(const Cfg &c)
{
    std::unique_ptr<SimpleGridMap2d> m;
    // configured by the constructor, or by replacing the data of a map of another size, or of the same size and another rotation
    int how = (c.w + 2 * c.h + (int) (c.res * 100) + (int) c.ox) % 3; std::vector<uint8_t> data(c.w * c.h, 3);
    unsigned w0 = how == 1 ? c.w + 2 : c.w, h0 = how == 1 ? c.h + 1 : c.h; double y0 = how ? 0.25 : c.yaw;
    if (c.rot) { RotatedGridMap2d *r = new RotatedGridMap2d(w0, h0, y0, c.res); m.reset(r); if (how) { r->setOrigin(Point2d(1, 2)); r->set(data, c.w, c.h, c.yaw); } }
    else { m.reset(new SimpleGridMap2d(w0, h0, c.res)); if (how) m->set(data, c.w, c.h); }
    GridMap2d *g = m.get();
    if (c.w != c.h) { g->setOrigin(Point2d(5, -6)); m->setResolution(c.res * 2); m->setResolution(c.res); }   // reconfigured maps too
    g->setOrigin(Point2d(c.ox, c.oy));
    return m;
}
static std::string name(const Cfg &c) { return mc::fmt("%s map %ux%u resolution %g origin (%g,%g) rotation %g", c.rot ? "rotated" : "simple", c.w, c.h, c.res, c.ox, c.oy, c.yaw); }
// continuous cell coordinates -> map point, independent of the code under test
static void ref_point(const Cfg &c, double cx, double cy, double &px, double &py)
{
    double x = cx * c.res, y = cy * c.res;
    px = c.ox + std::cos(c.yaw) * x - std::sin(c.yaw) * y;
    py = c.oy + std::sin(c.yaw) * x + std::cos(c.yaw) * y;
}
static void cells(uint64_t i)
{
    Cfg c = decode(i); auto m = make(c); const GridMap2d &g = *m; std::string n = name(c); mc::describe(n + ": every cell, every offset");
    double tol = 1e-9 * (1 + std::fabs(c.ox) + std::fabs(c.oy) + c.w * c.res + c.h * c.res);
    if (!c.rot) { Point2d o = g.getOrigin(); if (o.x != c.ox || o.y != c.oy) mc::fail("%s: origin reads (%g,%g)", n.c_str(), o.x, o.y); }
    if (g.getResolution() != c.res) mc::fail("%s: resolution reads %g", n.c_str(), g.getResolution());
    if (g.getRotation() != (c.rot ? c.yaw : 0.0)) mc::fail("%s: rotation reads %g", n.c_str(), g.getRotation());
    for (unsigned y = 0; y < c.h; ++y) for (unsigned x = 0; x < c.w; ++x) {
        double px, py, rx, ry; unsigned bx = 77, by = 77;
        g.cell2point(x, y, px, py); ref_point(c, x + 0.5, y + 0.5, rx, ry);
        if (std::fabs(px - rx) > tol || std::fabs(py - ry) > tol) mc::fail("%s: centre of cell (%u,%u) is (%.9g,%.9g), want (%.9g,%.9g)", n.c_str(), x, y, px, py, rx, ry);
        Point2d pp; g.cell2point(x, y, pp); if (pp.x != px || pp.y != py) mc::fail("%s: cell2point overloads differ at (%u,%u)", n.c_str(), x, y);
        float fx, fy;
        if (c.rot) ((RotatedGridMap2d *) m.get())->cell2point(x, y, fx, fy); else m->cell2point(x, y, fx, fy);
        double ftol = 1e-5 * (1 + std::fabs(c.ox) + std::fabs(c.oy) + (c.w + c.h) * c.res);
        if (std::fabs(fx - rx) > ftol || std::fabs(fy - ry) > ftol) mc::fail("%s: single precision centre of cell (%u,%u) is (%g,%g), want (%g,%g)", n.c_str(), x, y, fx, fy, rx, ry);
        if (!g.point2cell(px, py, bx, by) || bx != x || by != y) mc::fail("%s: cell (%u,%u) -> point -> cell (%u,%u)", n.c_str(), x, y, bx, by);
        if (!g.isInMap((int) x, (int) y)) mc::fail("%s: cell (%u,%u) is reported outside", n.c_str(), x, y);
        mc::exec(); mc::step(4); mc::state(mc::Hash().u(x).u(y).q(px).q(py).h);
        for (double ax : OFF) for (double ay : OFF) {
            ref_point(c, x + ax, y + ay, rx, ry);
            bx = by = 77; bool in = g.point2cell(rx, ry, bx, by);
            if (!in || bx != x || by != y) mc::fail("%s: point (%.9g,%.9g) inside cell (%u,%u) converts to %s(%u,%u)", n.c_str(), rx, ry, x, y, in ? "" : "outside ", bx, by);
            Point2d p(rx, ry); Pose2d po(rx, ry, 1.0); unsigned cx, cy;
            if (!g.point2cell(p, cx, cy) || cx != x || cy != y) mc::fail("%s: point overload differs", n.c_str());
            if (!g.pose2cell(po, cx, cy) || cx != x || cy != y) mc::fail("%s: pose overload differs", n.c_str());
            if (!g.isInMap(rx, ry)) mc::fail("%s: point (%.9g,%.9g) inside cell (%u,%u) is reported outside the map", n.c_str(), rx, ry, x, y);
            if (!g.isInMap(p)) mc::fail("%s: Point2d (%.9g,%.9g) inside cell (%u,%u) is reported outside the map", n.c_str(), rx, ry, x, y);
            double qx, qy; g.cell2pointSubPixel(x + ax, y + ay, qx, qy);
            if (std::fabs(qx - rx) > tol || std::fabs(qy - ry) > tol) mc::fail("%s: sub-cell (%g,%g) is at (%.9g,%.9g), want (%.9g,%.9g)", n.c_str(), x + ax, y + ay, qx, qy, rx, ry);
            double sx, sy; bool sin_ = m->point2cellSubPixel(qx, qy, sx, sy);
            double ct = tol / c.res + 1e-9;
            if (!sin_ || std::fabs(sx - x - ax) > ct || std::fabs(sy - y - ay) > ct) mc::fail("%s: sub-cell (%g,%g) -> point -> %s(%.9g,%.9g)", n.c_str(), x + ax, y + ay, sin_ ? "" : "outside ", sx, sy);
            mc::exec(); mc::step(6); mc::nontrivial();
        }
    }
}
static void outside(uint64_t i)
{
    Cfg c = decode(i); auto m = make(c); const GridMap2d &g = *m; std::string n = name(c); mc::describe(n + ": every point outside, along the border and far away");
    std::vector<double> xs, ys;
    auto fill = [&](std::vector<double> &v, unsigned s) {
        for (double a : {-0.02, -0.3, -0.98, -1.02, -1.5, -2.5, -33.5, -1000.5}) v.push_back(a);
        for (double a : {0.02, 0.5, 0.98, 1.02, 2.5, 32.5, 1000.5}) v.push_back(s + a);
        v.push_back(0.02); v.push_back(s * 0.5 + 0.01); v.push_back(s - 0.02);
    };
    fill(xs, c.w); fill(ys, c.h);
    for (double cx : xs) for (double cy : ys) {
        bool want = cx >= 0 && cy >= 0 && cx < c.w && cy < c.h;
        double px, py; ref_point(c, cx, cy, px, py); unsigned bx, by; double sx, sy;
        bool a = g.point2cell(px, py, bx, by), b = g.isInMap(px, py), d = g.isInMap(Point2d(px, py)), e = m->point2cellSubPixel(px, py, sx, sy);
        if (a != want || b != want || d != want || e != want)
            mc::fail("%s: point (%.9g,%.9g) at cell coordinates (%g,%g) is %s the map, but point2cell=%d isInMap=%d/%d sub-cell=%d", n.c_str(), px, py, cx, cy, want ? "inside" : "outside", a, b, d, e);
        mc::exec(); mc::step(4); if (!want) mc::nontrivial(); mc::state(mc::Hash().u(want).u(i).h);
    }
    for (long x : {(long) INT_MIN, -2l, -1l, 0l, (long) c.w - 1, (long) c.w, (long) c.w + 1, (long) INT_MAX}) for (long y : {(long) INT_MIN, -2l, -1l, 0l, (long) c.h - 1, (long) c.h, (long) c.h + 1, (long) INT_MAX}) {
        bool want = x >= 0 && y >= 0 && x < (long) c.w && y < (long) c.h;
        if (g.isInMap((int) x, (int) y) != want) mc::fail("%s: cell (%ld,%ld) in map: %d", n.c_str(), x, y, !want);
        mc::exec(); mc::step();
    }
}
static void mapmath(uint64_t i)
{
    Cfg c = decode(i); auto m = make(c); const GridMap2d &g = *m; std::string n = name(c); mc::describe(n + ": continuous position conversions");
    double tol = 1e-9 * (1 + std::fabs(c.ox) + std::fabs(c.oy) + (c.w + c.h) * c.res);
    for (double cx : {-3.5, 0.0, 0.25, 1.0, 7.75}) for (double cy : {-2.25, 0.0, 0.5, 3.0}) {
        double px, py, qx, qy; map2pos(cx, cy, px, py, g); pos2map(px, py, qx, qy, g);
        double ct = tol / c.res + 1e-9;
        if (std::fabs(qx - cx) > ct || std::fabs(qy - cy) > ct) mc::fail("%s: (%g,%g) -> position -> (%.9g,%.9g)", n.c_str(), cx, cy, qx, qy);
        for (double th : {0.75, 0.0, -0.5, -8.0, 9.0}) {
        Pose2d p = map2pos(Pose2d(cx, cy, th), g); Pose2d q = pos2map(p, g);
        if (p.x != px || p.y != py || !(std::fabs(std::remainder(p.theta - th - c.yaw, 2 * M_PI)) <= 1e-12) || std::fabs(q.x - cx) > ct || std::fabs(q.y - cy) > ct || !(std::fabs(std::remainder(q.theta - th, 2 * M_PI)) <= 1e-12)) mc::fail("%s: pose conversion of (%g,%g) with heading %g", n.c_str(), cx, cy, th); }
        double rx, ry; ref_point(c, cx, cy, rx, ry);
        if (std::fabs(px - rx) > tol || std::fabs(py - ry) > tol) mc::fail("%s: (%g,%g) is at (%.9g,%.9g), want (%.9g,%.9g)", n.c_str(), cx, cy, px, py, rx, ry);
        mc::exec(); mc::step(4);
    }
}
void mc_setup()
{
    mc::bound("all maps with sides {1,2,3,5,40}, 6 resolutions, 5 origins, unrotated and 10 rotations, configured directly or by replacing the data of another map; all cells x 25 sub-cell offsets; 18x18 points in and around the border; pose conversions at 5 headings");
    mc::family("cells", N, cells, 64);
    mc::family("outside", N, outside, 64);
    mc::family("continuous", N, mapmath, 256);
}

// C16: oriented footprint tests of the collision map
#include "mc.h"
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <memory>
using namespace lib_path;
using mc::Dec;
struct Foot { double f, b, w; };          // in cells
static const Foot FEET[] = {{4, -2, 5}, {3, -3, 6}, {5, -1, 3.5}, {2, -2, 4}, {6, -4, 7.5}, {1.5, -1.5, 3}, {7, 0.5, 4}, {0.4, -0.4, 0.8}, {8, -8, 17}, {6, 2.5, 3}};
static const int NF = 10;
static const double RES[] = {1.0, 0.1, 2.0};
static const int D = CollisionGridMap2d::ANGLE_DISCRETIZATION;
// signed depth of point (x,y) in the footprint rotated by th: >0 inside
static double depth(const Foot &f, double th, double x, double y)
{
    double u = std::cos(th) * x + std::sin(th) * y, v = -std::sin(th) * x + std::cos(th) * y;
    double dx = std::max(f.b - u, u - f.f), dy = std::fabs(v) - f.w / 2;
    if (dx <= 0 && dy <= 0) return -std::max(dx, dy);
    return -std::hypot(std::max(dx, 0.0), std::max(dy, 0.0));
}
static void single(uint64_t i)
{
    Dec d(i); Foot f = FEET[d(NF)]; double res = RES[d(3)]; int pos = mc::thorough ? d(3) : -1; int bin = d(D); if (pos < 0) pos = bin % 3;
    const int W = 25, H = 21; int rx = pos == 0 ? 12 : pos == 1 ? 1 : 22, ry = pos == 0 ? 10 : pos == 1 ? 19 : 2;
    static const double TH[] = {0, 0.35, -0.35};
    mc::describe(mc::fmt("footprint [%g,%g]x%g cells, resolution %g, robot at (%d,%d), heading bin %d/128: every single occupied or unknown cell", f.b, f.f, f.w, res, rx, ry, bin));
    CollisionGridMap2d m(W, H, 0.0, res, f.f * res, f.b * res, f.w * res);
    double half = 2 * M_PI / D / 2;
    double reach = std::max(std::fabs(f.f), std::fabs(f.b)) + f.w;
    for (double off : TH) for (int turns = -1; turns <= 1; ++turns) {
        if (off != 0 && turns != 0) continue;
        double th = 2 * M_PI * (bin + off) / D; double q = th + 2 * M_PI * turns;
        double herr = half * reach;
        if (m.isOccupiedRotated(rx, ry, q)) mc::fail("heading %g: empty map reported occupied", q);
        if (!m.isFreeRotated(rx, ry, q)) mc::fail("heading %g: empty map reported not free", q);
        if (m.isNoInformationRotated(rx, ry, q)) mc::fail("heading %g: a pose on a map without unknown cells is reported to lack information", q);
        for (int oy = 0; oy < H; ++oy) for (int ox = 0; ox < W; ++ox) {
            if (!mc::thorough && (std::abs(ox - rx) > 9 || std::abs(oy - ry) > 9)) continue;
            double dep = depth(f, th, ox - rx, oy - ry); bool self = ox == rx && oy == ry;
            for (int kind = 0; kind < 2; ++kind) {
                m.setValue(ox, oy, kind ? 120 : 255);
                bool occ = m.isOccupiedRotated(rx, ry, q), fre = m.isFreeRotated(rx, ry, q), no = m.isNoInformationRotated(rx, ry, q);
                m.setValue(ox, oy, 0);
                bool must = self || dep >= 1.0 + 0.05, never = !self && dep <= -std::sqrt(2.0) - herr;
                const char *k = kind ? "unknown" : "occupied";
                if (must && fre) mc::fail("heading %g: %s cell at offset (%d,%d), %.2f cells inside the footprint, but the pose is reported free", q, k, ox - rx, oy - ry, dep);
                if (must && !kind && !occ) mc::fail("heading %g: occupied cell at offset (%d,%d), %.2f cells inside the footprint, not reported", q, ox - rx, oy - ry, dep);
                if (never && !fre) mc::fail("heading %g: %s cell at offset (%d,%d), %.2f cells outside the footprint, makes the pose not free", q, k, ox - rx, oy - ry, -dep);
                if ((never || kind) && occ) mc::fail("heading %g: %s cell at offset (%d,%d), depth %.2f, makes the pose occupied", q, k, ox - rx, oy - ry, dep);
                if (no && (fre || !kind)) mc::fail("heading %g: one %s cell at offset (%d,%d): the pose is reported to lack information (free=%d)", q, k, ox - rx, oy - ry, fre);
                if (occ && fre) mc::fail("heading %g: both occupied and free", q);
                if (!kind && occ == fre) mc::fail("heading %g: one occupied cell at (%d,%d): occupied=%d free=%d", q, ox - rx, oy - ry, occ, fre);
                mc::exec(); mc::step(2); if (must || (never && dep > -3)) mc::nontrivial();
                mc::state(mc::Hash().u(bin).u(ox - rx + 100).u(oy - ry + 100).u(occ).u(fre).u(f.w * 2).h);
            }
        }
    }
}
static void periodic(uint64_t i)
{
    // headings equal modulo a turn give equal answers, at every multiple of 1/4 bin
    Dec d(i); Foot f = FEET[d(NF)]; int q = d(4 * D); double th = 2 * M_PI * (q + 0.3) / (4 * D);
    mc::describe(mc::fmt("footprint [%g,%g]x%g heading %g plus whole turns; copies", f.b, f.f, f.w, th));
    CollisionGridMap2d m(21, 21, 0.4, 0.5, f.f / 2, f.b / 2, f.w / 2);
    for (int oy = 0; oy < 21; oy += 1) for (int ox = oy % 2 + (q % 2) * 2; ox < 21; ox += 4) {
        m.setValue(ox, oy, 255);
        bool o = m.isOccupiedRotated(10, 10, th), fr = m.isFreeRotated(10, 10, th); m.setValue(ox, oy, 120); bool uf = m.isFreeRotated(10, 10, th), un = m.isNoInformationRotated(10, 10, th); m.setValue(ox, oy, 255);
        for (int t : {-3, -2, -1, 1, 2, 5}) {
            if (m.isOccupiedRotated(10, 10, th + 2 * M_PI * t) != o || m.isFreeRotated(10, 10, th + 2 * M_PI * t) != fr) mc::fail("heading %g and %d turns more: different answers for an obstacle at (%d,%d)", th, t, ox - 10, oy - 10);
            m.setValue(ox, oy, 120); if (m.isNoInformationRotated(10, 10, th + 2 * M_PI * t) != un || m.isFreeRotated(10, 10, th + 2 * M_PI * t) != uf) mc::fail("heading %g and %d turns more: different answers for an unknown cell at (%d,%d)", th, t, ox - 10, oy - 10); m.setValue(ox, oy, 255);
            mc::exec(); mc::step(2);
        }
        if (q % 16 == 0) {
            // a copy answers like the original, and independently of it
            std::unique_ptr<CollisionGridMap2d> c(new CollisionGridMap2d(m));
            if (c->isOccupiedRotated(10, 10, th) != o || c->isFreeRotated(10, 10, th) != fr) mc::fail("copy differs");
            m.setValue(ox, oy, 0);
            if (c->isOccupiedRotated(10, 10, th) != o || c->isFreeRotated(10, 10, th) != fr) mc::fail("copy follows a change of the original");
            if (m.isOccupiedRotated(10, 10, th) || !m.isFreeRotated(10, 10, th)) mc::fail("original does not see its own change after being copied");
            c->setValue(10, 10, 255); if (m.isOccupiedRotated(10, 10, th)) mc::fail("original follows a change of the copy");
            { std::unique_ptr<CollisionGridMap2d> e(new CollisionGridMap2d(*c)); c.reset(); if (!e->isOccupiedRotated(10, 10, th)) mc::fail("copy of a copy differs"); }
            if (m.isOccupiedRotated(10, 10, th) || !m.isFreeRotated(10, 10, th)) mc::fail("original changed by the destruction of its copy");
            mc::exec(5); mc::nontrivial();
        }
        m.setValue(ox, oy, 0);
    }
}
static void edges(uint64_t i)
{
    // queries at and beyond the map border: nothing outside the map counts, a position outside is never free
    Dec d(i); Foot f = FEET[d(NF)]; int bin = d(32) * 4; double th = 2 * M_PI * bin / D; const int W = 6, H = 5; mc::describe(mc::fmt("footprint [%g,%g]x%g heading %g: every position in and next to a 6x5 map", f.b, f.f, f.w, th));
    CollisionGridMap2d m(W, H, 0, 1.0, f.f, f.b, f.w);
    { CollisionGridMap2d u(W, H, 0, 1.0, f.f, f.b, f.w); for (int k = 0; k < W * H; ++k) u.setValue(k % W, k / W, 120); if (f.b <= 0) for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) if (!u.isNoInformationRotated(x, y, th) || u.isFreeRotated(x, y, th) || u.isOccupiedRotated(x, y, th)) mc::fail("unknown map, position (%d,%d): not reported to lack information", x, y); }
    for (int y = -2; y < H + 2; ++y) for (int x = -2; x < W + 2; ++x) {
        bool in = x >= 0 && y >= 0 && x < W && y < H;
        if (m.isFreeRotated(x, y, th) != in) mc::fail("empty map, position (%d,%d): free=%d", x, y, !in);
        if (m.isOccupiedRotated(x, y, th)) mc::fail("empty map, position (%d,%d): occupied", x, y);
        if (in) { m.setValue(x, y, 255); if (!m.isOccupiedRotated(x, y, th) || m.isFreeRotated(x, y, th)) mc::fail("occupied position (%d,%d) not reported", x, y); m.setValue(x, y, 0); }
        mc::exec(); mc::step(2);
    }
}
void mc_setup()
{
    mc::bound("10 footprints (up to 17 cells wide, also off the robot's cell) x 3 resolutions x %s robot positions x 128 heading bins (centre, +-0.35 bin, +-1 turn) x every single-cell obstacle %s of a 25x21 map", mc::thorough ? "all 3" : "one of 3 (by bin)", mc::thorough ? "" : "within 9 cells");
    mc::assumption("rasterisation tolerance of one cell and half a heading bin");
    mc::family("edges", NF * 32, edges, 4);
    mc::family("periodic", NF * 4 * D, periodic, 32);
    mc::family("single-obstacle", mc::thorough ? NF * 9 * D : NF * 3 * D, single, 16);
}

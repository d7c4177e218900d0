// C29: comparison and arithmetic of poses and points
#include "geo.h"
#include <cslibs_path_planning/common/Point2d.h>
#include <cslibs_path_planning/common/Path.h>
#include <sstream>
using lib_path::Pose2d; using lib_path::Point2d;
extern int verif_angle_mode;
static const double X[] = {-1e6, -3.5, -1, -0.25, 0, 1e-3, 0.5, 1, 2, 1000, 1e-5, -1e-8};
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
static bool near(const Point2d &p, double x, double y) { return near(p.x, x) && near(p.y, y); }
static bool near(const Pose2d &p, double x, double y) { return near(p.x, x) && near(p.y, y); }
void mc_setup()
{
    // headings k * pi/12 + offset, over several turns
    static const double OFF[] = {0, 1e-4, -1e-4, 0.02, -0.02};
    mc::family("equal poses", 49 * 5 * 2 * 4, [](uint64_t i) { mc::Dec d(i); double t1 = (int(d(49)) - 24) * M_PI / 12 + OFF[d(5)]; verif_angle_mode = d(2); static const double TE[] = {0.01, 0.3, 1.0, 3.0}; double te = TE[d(4)];
        for (int k = -24; k <= 24; ++k) for (double o : OFF) for (int sh = 0; sh < 6; ++sh) { double t2 = k * M_PI / 12 + o; static const double S[6][3] = {{0, 0, 0}, {0.2, 0, 0.2}, {0, -0.2, 0.2}, {0.3, 0.4, 0.5}, {-0.3, 0.4, 0.5}, {3, -4, 5}}; double dd = S[sh][2]; double da = geo::adiff(t1, t2);
            for (double de : {0.1, 0.45, 0.55, 6.0}) { if (std::fabs(da - te) < 1e-6 || std::fabs(da - M_PI) < 1e-9) continue; bool want = dd <= de && da <= te;
                Pose2d p(1.5, -2, t1), q(1.5 + S[sh][0], -2 + S[sh][1], t2); bool g = p.isEqual(q, de, te), h = q.isEqual(p, de, te); mc::step(4);
                if (g != want || h != want) mc::fail("poses %g apart with headings %.5f and %.5f: equal within (%g,%g) is reported %d/%d", dd, t1, t2, de, te, g, h);
                path_geom::PathPose a(1.5, -2, t1), b(1.5 + S[sh][0], -2 + S[sh][1], t2); g = a.isIdentical(b, de, te); h = b.isIdentical(a, de, te);
                if (g != want || h != want) mc::fail("path poses %g apart with headings %.5f and %.5f: identical within (%g,%g) is reported %d/%d", dd, t1, t2, de, te, g, h);
                if (a.isIdentical(b.pos_, de) != (dd <= de)) mc::fail("a path pose %g away from a point is reported %d within %g", dd, a.isIdentical(b.pos_, de), de);
                mc::exec(); if (want) mc::nontrivial(); } }
        mc::state(mc::Hash().q(t1).q(te).h); verif_angle_mode = 0; }, 16);
    mc::family("default tolerances", 24 * 3 * 3, [](uint64_t i) { mc::Dec d(i); double t = d(24) * M_PI / 12 - 3; static const double A[3] = {0, 1e-6, 1e-3}, D[3] = {0, 1e-7, 1e-3}; int a = d(3), e = d(3); for (int s : {1, -1}) { path_geom::PathPose p(1, 2, t), q(1 + s * D[e], 2, t + s * A[a]); bool want = a < 2 && e < 2; mc::step(); mc::exec(); if (p.isIdentical(q) != want) mc::fail("path poses %g apart, headings %g apart: identical is %d", D[e], s * A[a], !want); path_geom::PathPose r; r.assign(p.pos_, t); if (!r.isIdentical(p)) mc::fail("an assigned pose differs"); } mc::nontrivial(); });
    mc::family("vector arithmetic", 144, [](uint64_t i) { mc::Dec d(i); double x = X[d(12)], y = X[d(12)];
        for (double u : X) for (double v : X) { mc::step(24); mc::exec(); mc::nontrivial(); std::string w = mc::fmt("(%g,%g) and (%g,%g)", x, y, u, v);
            Pose2d p(x, y, 0.7), q(u, v, -2); Point2d a(x, y), b(q);
            if (!near(p + q, x + u, y + v) || !near(p - q, x - u, y - v)) mc::fail("sum or difference of poses %s", w.c_str());
            if (!near(a + b, x + u, y + v) || !near(a - b, x - u, y - v) || !near(-a, -x, -y)) mc::fail("sum or difference of points %s", w.c_str());
            for (float f : {0.5f, -2.f, 3.f}) { if (!near(p * f, x * f, y * f) || !near(f * p, x * f, y * f) || !near(p / f, x / f, y / f)) mc::fail("scaling pose %s by %g", w.c_str(), f); Point2d c = a; c *= f; if (!near(a * f, x * f, y * f) || !near(a / f, x / f, y / f) || !near(c, x * f, y * f)) mc::fail("scaling point %s by %g", w.c_str(), f); }
            if (!near(lib_path::dot(p, q), x * u + y * v)) mc::fail("dot product of %s", w.c_str());
            double h = std::hypot(x - u, y - v); if (!near(p.distance_to(q), h) || !near(q.distance_to(p), h)) mc::fail("distance of %s is %g", w.c_str(), p.distance_to(q));
            if ((a == b) != (x == u && y == v) || (a != b) == (a == b)) mc::fail("equality of points %s", w.c_str()); }
        Pose2d p(x, y, 1); Point2d a(x, y); double l = std::hypot(x, y); if (!near(p.distance_to_origin(), l) || !near(a.distance_to_origin(), l) || !near(a.length(), l)) mc::fail("length of (%g,%g)", x, y);
        if (l > 0) { if (std::fabs(a.angle() - std::atan2(y, x)) > 1e-12) mc::fail("angle of (%g,%g)", x, y); if (!near(a.normalize(), x / l, y / l) || !near(a.resize(2.5), x * 2.5 / l, y * 2.5 / l)) mc::fail("normalising (%g,%g)", x, y); if (!near(Point2d::from_polar(a.angle(), l), x, y)) mc::fail("(%g,%g) from polar coordinates", x, y); Point2d o = a.ortho(); if (std::fabs(o.x * x + o.y * y) > 1e-9 * l * l || !near(o.length(), l)) mc::fail("orthogonal to (%g,%g) is (%g,%g)", x, y, o.x, o.y); }
        for (int k = -24; k <= 24; ++k) { double t = k * M_PI / 12; if (!near(a.rotate(t), std::cos(t) * x - std::sin(t) * y, std::sin(t) * x + std::cos(t) * y)) mc::fail("rotating (%g,%g) by %g", x, y, t); }
        mc::state(mc::Hash().q(x).q(y).h); }, 4);
    mc::family("appended paths", 8 * 8, [](uint64_t i) { mc::Dec d(i); int n = d(8), m = d(8); lib_path::Path a, b; for (int k = 0; k < n; ++k) a.push_back(Pose2d(k, 1, 0)); for (int k = 0; k < m; ++k) b.push_back(Pose2d(k, 2, 0.5)); using lib_path::operator+=; a += b; mc::step(); mc::exec(); if (m) mc::nontrivial(); bool ok = a.size() == size_t(n + m); for (int k = 0; ok && k < n + m; ++k) ok = k < n ? a[k].x == k && a[k].y == 1 : a[k].x == k - n && a[k].y == 2; if (!ok || (int) b.size() != m) mc::fail("appending %d poses to %d", m, n); });
    mc::family("printed poses", 49 * 12, [](uint64_t i) { mc::Dec d(i); double t = (int(d(49)) - 24) * M_PI / 12, x = X[d(12)]; std::ostringstream s; s << Pose2d(x, -x, t); double a = 0, b = 0, c = 0; mc::step(); mc::exec(); mc::nontrivial(); if (sscanf(s.str().c_str(), "(%lf / %lf / %lf", &a, &b, &c) != 3 || std::fabs(a - x) > 1e-4 * std::fabs(x) || std::fabs(b + x) > 1e-4 * std::fabs(x) || std::fabs(c - t * 180 / M_PI) > 1e-3 * std::max(1.0, std::fabs(c))) mc::fail("pose (%g,%g,%g rad) is printed as %s", x, -x, t, s.str().c_str()); });
    mc::bound("pairs of 245 headings over four turns x 6 offsets x 4 distance and 4 angle tolerances, both angle conventions; arithmetic of all pairs of a 12x12 grid of points, 49 rotations; paths up to 7 + 7 poses");
    mc::assumption("differences of exactly half a turn or exactly at a tolerance are not judged");
}

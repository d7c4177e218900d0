// C24: nearest points, distances, foot points, sides
#include "geo.h"
using namespace geo; using path_geom::Circle; using path_geom::Line;
static const double ON = 3e-5;
static void judge(const std::string &w, const path_geom::Shape &sh, const V &p, double want, const std::function<double(const V &)> &off)
{
    double d = sh.distanceTo(p); V n = sh.nearestPointTo(p); mc::step(2); mc::exec();
    if (!(std::fabs(d - want) < ON)) mc::fail("%s: distance to %s is %.7f, reported %.7f", w.c_str(), str(p).c_str(), want, d);
    if (!(off(n) < ON)) mc::fail("%s: the point %s nearest to %s is not on it", w.c_str(), str(n).c_str(), str(p).c_str());
    if (!(std::fabs(dist(n, p) - want) < ON)) mc::fail("%s: the point %s is nearest to %s at distance %.7f, but one is at %.7f", w.c_str(), str(n).c_str(), str(p).c_str(), dist(n, p), want);
    if (want > ON) mc::nontrivial(); mc::state(mc::Hash().q(n.x()).q(n.y()).q(d).h);
}
static void line_point(const V &a, const V &b, const V &p)
{
    Line l(a, b); std::string w = line(a, b); judge(w, l, p, segdist(p, a, b), [&](const V &x) { return segdist(x, a, b); });
    double len = dist(a, b); if (len < 1e-9) return; double sc = std::max(1.0, dist(a, p) + len);
    long double dx = b.x() - a.x(), dy = b.y() - a.y(), t = ((p.x() - a.x()) * dx + (p.y() - a.y()) * dy) / (dx * dx + dy * dy), cr = dx * (p.y() - a.y()) - dy * (p.x() - a.x());
    V f(a.x() + t * dx, a.y() + t * dy), g = l.footPoint(p), h = l.projectPoint(p); mc::step(4);
    if (!(dist(f, g) < 1e-7 * sc) || !(dist(f, h) < 1e-7 * sc)) mc::fail("%s: perpendicular of %s meets at %s; foot point %s, projection %s", w.c_str(), str(p).c_str(), str(f).c_str(), str(g).c_str(), str(h).c_str());
    double sd = l.pointSignedDistance(p); if (!(std::fabs(sd - (double) cr / len) < 1e-7 * sc)) mc::fail("%s: signed distance of %s is %.7f, reported %.7f", w.c_str(), str(p).c_str(), (double) cr / len, sd);
    if (std::fabs((double) cr) > 1e-4 || std::fabs((double) cr) < 1e-9) { int side = std::fabs((double) cr) < 1e-9 ? 0 : cr > 0 ? 1 : -1, r = l.pointRelativePosition(p); if (r != side) mc::fail("%s: %s is on side %d, reported %d", w.c_str(), str(p).c_str(), side, r); for (double tol : {1e-5, -1e-5, 0.01}) if (std::fabs(std::fabs((double) cr) - std::fabs(tol)) > 1e-6) { int s2 = std::fabs((double) cr) <= std::fabs(tol) ? 0 : cr > 0 ? 1 : -1; if (l.pointRelativePosition(p, tol) != s2) mc::fail("%s: side of %s with tolerance %g", w.c_str(), str(p).c_str(), tol); } }
    double sgd = segdist(p, a, b); bool os = l.isPointOnSegment(p); if (sgd < 1e-9 && !os) mc::fail("%s: %s is not on the segment", w.c_str(), str(p).c_str()); if (sgd > 0.1 && os) mc::fail("%s: %s is on the segment", w.c_str(), str(p).c_str());
}
void mc_setup()
{
    auto G = [](int k) { return V((k % 7 - 3) * 0.5, (k / 7 - 3) * 0.75); };
    mc::family("lines and points", 49 * 49, [G](uint64_t i) { mc::Dec d(i); V a = G(d(49)), b = G(d(49)); for (int x = -5; x <= 5; ++x) for (int y = -5; y <= 5; ++y) line_point(a, b, V(x * 0.5, y * 0.5)); }, 16);
    mc::family("slanted lines", 24 * 4 * 3, [](uint64_t i) { mc::Dec d(i); double h = d(24) * T / 24 + 0.05; static const double L[] = {0.01, 1, 7.5, 300}; double len = L[d(4)]; static const double O[3][2] = {{0, 0}, {12.5, -40}, {-1000, 2000}}; int k = d(3); V u(std::cos(h), std::sin(h)), n(-u.y(), u.x()), a(O[k][0], O[k][1]), b(a.x() + len * u.x(), a.y() + len * u.y());
        for (double t : {-2.0, -0.1, -1e-3, 0.0, 1e-3, 0.3, 0.5, 0.999, 1.0, 1.001, 1.1, 3.0}) for (double o : {-50.0, -1.0, -0.2, 0.0, 0.2, 1.0, 50.0}) line_point(a, b, V(a.x() + t * len * u.x() + o * n.x(), a.y() + t * len * u.y() + o * n.y())); }, 16);
    mc::family("parallels", 24 * 3 * 9, [](uint64_t i) { mc::Dec d(i); double h = d(24) * T / 24; double len = (double[]){0.5, 1, 6}[d(3)]; double o = (int(d(9)) - 4) * 0.35; V a(1, -2), b(a.x() + len * std::cos(h), a.y() + len * std::sin(h)); Line l(a, b), p = Line::parallel(l, o); mc::step(); mc::exec(); mc::nontrivial(); V n(-std::sin(h), std::cos(h)); if (dist(p.startPoint(), V(a.x() + o * n.x(), a.y() + o * n.y())) > 1e-9 || dist(p.endPoint(), V(b.x() + o * n.x(), b.y() + o * n.y())) > 1e-9) mc::fail("the parallel of %s at %g is %s", line(a, b).c_str(), o, line(p.startPoint(), p.endPoint()).c_str()); });
    static const double R[] = {0.5, 1, 3};
    int NS = mc::thorough ? 48 : 24;
    mc::family("arcs and points", (uint64_t) 2 * NS * 25 * 3, [NS](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; double s = d(NS) * T / NS, a = d(25) * T / 24, r = R[d(3)]; Arc q{V(0.5, -1), r, s, a, dir}; Circle c = make(q); std::string w = str(q); auto off = [&](const V &x) { return q.distance(x); };
        judge(w, c, q.c, r, off);
        for (int k = 0; k < 48; ++k) for (double f : {1e-6, 0.01, 0.04, 0.2, 0.7, 0.999, 1.0, 1.001, 1.5, 4.0}) { double phi = k * T / 48 + (k % 3) * 0.007; V p(q.c.x() + f * r * std::cos(phi), q.c.y() + f * r * std::sin(phi)); judge(w, c, p, q.distance(p), off); } }, 16);
    mc::bound("segments between 7x7 grid points x 11x11 query points; slanted segments of 24 directions x 4 lengths x 3 offsets x 84 query points; arcs of %d starts x 25 lengths x 3 radii x 2 directions x 481 query points including the centre", NS);
    mc::assumption("results are compared within 3e-5, three times the tolerance of the shapes");
}

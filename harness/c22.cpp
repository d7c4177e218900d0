// C22: intersections of lines, circles and arcs; membership of points in arcs
#include "geo.h"
using namespace geo; using path_geom::Circle; using path_geom::Line; using path_geom::Intersector;
typedef std::vector<V> Pts;
static const double TOL = 1e-5, ON = 3e-5;
static const double TOLS[] = {path_geom::DIST_EPS, -path_geom::DIST_EPS, 1e-3};
// expected crossings: each must be reported exactly once; other reported points must satisfy `allowed`
static void judge(const std::string &w, const Pts &got, const Pts &want, bool exact, const std::function<bool(const V &)> &on)
{
    for (auto &g : got) { if (!(std::isfinite(g.x()) && std::isfinite(g.y()))) mc::fail("%s: a point that is not a number", w.c_str()); if (!on(g)) mc::fail("%s: reported point %s is not on both", w.c_str(), str(g).c_str()); }
    for (auto &p : want) { int n = 0; for (auto &g : got) n += dist(p, g) < ON; if (n != 1) mc::fail("%s: the crossing at %s is reported %d times (%zu points)", w.c_str(), str(p).c_str(), n, got.size()); }
    if (exact && got.size() != want.size()) mc::fail("%s: %zu points reported, %zu expected", w.c_str(), got.size(), want.size());
    if (got.size() > 2) mc::fail("%s: %zu points", w.c_str(), got.size());
    mc::exec(); if (!want.empty()) mc::nontrivial(); { mc::Hash h; for (auto &g : got) h.q(g.x()).q(g.y()); mc::state(h.h); }
}
static Pts dirty() { return Pts(3, V(55, 55)); }
static V P12(int k) { return V(k % 4, (k / 4) * 1.25); }
struct Roots { bool clear = true; Pts p; };   // clear: no tangency or crossing next to a line end
static Roots lc(const V &a, const V &b, const V &c, double r)
{
    Roots o; long double dx = b.x() - a.x(), dy = b.y() - a.y(), fx = a.x() - c.x(), fy = a.y() - c.y(), l2 = dx * dx + dy * dy; if (l2 == 0) { o.clear = std::fabs(dist(a, c) - r) > 1e-3; return o; }
    long double len = sqrtl(l2), t0 = -(fx * dx + fy * dy) / l2, h = fabsl(fx * dy - fy * dx) / len;   // foot parameter, distance of the centre
    if (fabsl(h - r) < 1e-3) { long double m = 0.05 / len; if (t0 > -m && t0 < 1 + m) o.clear = false; else return o; }
    if (h >= r) return o;
    long double w = sqrtl(r * r - h * h) / len;
    for (int s = -1; s <= 1; s += 2) { long double t = t0 + s * w; if (fabsl(t) < 1e-6 || fabsl(t - 1) < 1e-6) { o.clear = false; continue; } if (t > 0 && t < 1) o.p.push_back(V(a.x() + t * dx, a.y() + t * dy)); }
    if (fabsl(h - r) < 1e-3) o.p.clear();
    return o;
}
static Roots cc(const V &a, double r1, const V &b, double r2)
{
    Roots o; long double dx = b.x() - a.x(), dy = b.y() - a.y(), d = sqrtl(dx * dx + dy * dy);
    if (d < 1e-9) return o;
    if (fabsl(d - (r1 + r2)) < 1e-3 || fabsl(d - fabsl((long double) r1 - r2)) < 1e-3) { o.clear = false; return o; }
    if (d > r1 + r2 || d < fabsl((long double) r1 - r2)) return o;
    long double x = (r1 * r1 - r2 * r2 + d * d) / (2 * d), y = sqrtl((long double) r1 * r1 - x * x);
    for (int s = -1; s <= 1; s += 2) o.p.push_back(V(a.x() + (x * dx - s * y * dy) / d, a.y() + (x * dy + s * y * dx) / d));
    return o;
}
static bool same(const Pts &a, const Pts &b) { if (a.size() != b.size()) return false; for (auto &p : a) { bool f = false; for (auto &q : b) f |= dist(p, q) < ON; if (!f) return false; } return true; }

void mc_setup()
{
    int NP = mc::thorough ? 20 : 12;
    mc::family("two lines", (uint64_t) NP * NP * NP, [NP](uint64_t i) { mc::Dec d(i); V a = P12(d(NP)), b = P12(d(NP)), c = P12(d(NP)); for (int k = 0; k < NP; ++k) { V e = P12(k);
        std::string w = line(a, b) + " and " + line(c, e); V pt(55, 55); bool got = Intersector::intersect(Line(a, b), Line(c, e), pt); mc::step(); mc::exec();
        auto cr = [](const V &p, const V &q, const V &r) { return (q.x() - p.x()) * (r.y() - p.y()) - (q.y() - p.y()) * (r.x() - p.x()); };
        double s1 = cr(a, b, c), s2 = cr(a, b, e), s3 = cr(c, e, a), s4 = cr(c, e, b); bool proper = s1 * s2 < 0 && s3 * s4 < 0;
        if (got && (segdist(pt, a, b) > ON || segdist(pt, c, e) > ON)) mc::fail("%s: reported point %s is not on both", w.c_str(), str(pt).c_str());
        if (proper && !got) mc::fail("%s: the crossing is not reported", w.c_str());
        V p2; if (proper && (!Intersector::intersect(Line(c, e), Line(a, b), p2) || dist(pt, p2) > ON || !Intersector::intersect(Line(b, a), Line(c, e), p2) || dist(pt, p2) > ON)) mc::fail("%s: another result with swapped arguments", w.c_str());
        if (proper) mc::nontrivial(); if (got) mc::state(mc::Hash().q(pt.x()).q(pt.y()).h); } }, 64);
    // line and circle
    static const double R[] = {0.4, 1, 1.25, 2.5};
    mc::family("line and circle", 49 * 49 * 4, [](uint64_t i) { mc::Dec d(i); auto P = [](int k) { return V((k % 7 - 3) * 0.75, (k / 7 - 3) * 0.75); }; V a = P(d(49)), b = P(d(49)); double r = R[d(4)];
        static const double C[4][2] = {{0, 0}, {0.3, -0.2}, {1.5, 0.75}, {-0.75, 2.25}};
        for (auto &cp : C) for (int dir : {1, -1}) { V c(cp[0], cp[1]); Roots w = lc(a, b, c, r); Circle ci(c, r, dir); std::string t = line(a, b) + mc::fmt(" and the circle around %s of radius %g", str(c).c_str(), r);
            auto on = [&](const V &p) { return segdist(p, a, b) < ON && std::fabs(dist(p, c) - r) < (w.clear ? ON : 1e-3); };
            Pts got = dirty(); Intersector::intersect(Line(a, b), ci, got); mc::step(); judge(t, got, w.p, w.clear, on);
            Pts rev; Intersector::intersect(Line(b, a), ci, rev); mc::step(); if (w.clear && !same(got, rev)) mc::fail("%s: another result for the reversed line", t.c_str());
            Pts mem = dirty(); ci.intersect(Line(a, b), mem); mc::step(); if (!same(got, mem)) mc::fail("%s: another result when asking the circle", t.c_str());
            for (double tol : TOLS) { Pts g = dirty(); Intersector::intersect(Line(a, b), ci, g, tol); mc::step(); judge(t + mc::fmt(" with tolerance %g", tol), g, w.p, w.clear, on); } } }, 64);
    // circle and circle
    mc::family("two circles", 25 * 25 * 6 * 6, [](uint64_t i) { mc::Dec d(i); static const double RR[] = {0.25, 0.5, 0.8, 1, 1.5, 2.25}; auto P = [](int k) { return V((k % 5 - 2) * 0.5, (k / 5 - 2) * 0.5); }; V a = P(d(25)), b = P(d(25)); double r1 = RR[d(6)], r2 = RR[d(6)]; Roots w = cc(a, r1, b, r2);
        std::string t = mc::fmt("circles around %s radius %g and around %s radius %g", str(a).c_str(), r1, str(b).c_str(), r2);
        auto on = [&](const V &p) { return std::fabs(dist(p, a) - r1) < (w.clear ? ON : 1e-3) && std::fabs(dist(p, b) - r2) < (w.clear ? ON : 1e-3); };
        for (int dir = 0; dir < 4; ++dir) { Circle x(a, r1, dir & 1 ? 1 : -1), y(b, r2, dir & 2 ? 1 : -1); Pts g = dirty(), h = dirty(), m = dirty(), n = dirty(); Intersector::intersect(x, y, g); Intersector::intersect(y, x, h); x.intersect(y, m); Intersector::intersectArcs(y, x, n); mc::step(4); judge(t, g, w.p, w.clear, on); if (!same(g, h)) mc::fail("%s: another result with swapped arguments", t.c_str()); if (!same(g, m) || !same(g, n)) mc::fail("%s: another result as full arcs", t.c_str()); }
        for (double tol : TOLS) { Pts g = dirty(); Intersector::intersect(Circle(a, r1), Circle(b, r2), g, tol); mc::step(); judge(t + mc::fmt(" with tolerance %g", tol), g, w.p, w.clear, on); } }, 64);
    // exact tangency: one point of contact (or two next to it), outside tangency and inside tangency at every direction
    mc::family("touching circles", 24 * 4 * 4 * 2, [](uint64_t i) { mc::Dec d(i); double h = d(24) * T / 24, r1 = R[d(4)], r2 = R[d(4)]; bool inner = d(2); if (inner && std::fabs(r1 - r2) < 1e-9) return; double D = inner ? std::fabs(r1 - r2) : r1 + r2; V a(0.5, -0.25), b(a.x() + D * std::cos(h), a.y() + D * std::sin(h)); double s = inner && r2 > r1 ? -1 : 1; V t(a.x() + s * r1 * std::cos(h), a.y() + s * r1 * std::sin(h));
        for (int sw = 0; sw < 2; ++sw) { Pts g = dirty(); if (sw) Intersector::intersect(Circle(b, r2), Circle(a, r1), g); else Intersector::intersect(Circle(a, r1), Circle(b, r2), g); mc::step(); mc::exec(); mc::nontrivial(); if (g.empty()) mc::fail("circles of radius %g and %g touching at %s report no point", r1, r2, str(t).c_str()); if (g.size() > 2) mc::fail("%zu points", g.size()); for (auto &p : g) if (dist(p, t) > 1e-4) mc::fail("circles of radius %g and %g touching at %s report %s", r1, r2, str(t).c_str(), str(p).c_str()); } });
    mc::family("touching lines", 24 * 4 * 5, [](uint64_t i) { mc::Dec d(i); double h = d(24) * T / 24, r = R[d(4)]; int k = d(5); double t0 = k / 4.0; double len = 3; V c(0.5, -0.25), t(c.x() + r * std::cos(h), c.y() + r * std::sin(h)), u(-std::sin(h), std::cos(h)); V a(t.x() - t0 * len * u.x(), t.y() - t0 * len * u.y()), b(a.x() + len * u.x(), a.y() + len * u.y()); Pts g = dirty(); Intersector::intersect(Line(a, b), Circle(c, r), g); mc::step(); mc::exec(); mc::nontrivial(); if (k > 0 && k < 4 && g.empty()) mc::fail("%s touching the circle of radius %g at %s reports no point", line(a, b).c_str(), r, str(t).c_str()); for (auto &p : g) if (dist(p, t) > 1e-3) mc::fail("%s touching the circle of radius %g at %s reports %s", line(a, b).c_str(), r, str(t).c_str(), str(p).c_str()); });
    // segments along an axis with whole numbers: an end exactly on the circle counts
    mc::family("exact ends", 4 * 3 * 3 * 2, [](uint64_t i) { mc::Dec d(i); int h = d(4), r = 1 + d(3), c0 = (int) d(3) - 1, kind = d(2); V u = h == 0 ? V(1, 0) : h == 1 ? V(0, 1) : h == 2 ? V(-1, 0) : V(0, -1), c(c0, 2 * c0 + 1); Circle ci(c, r);
        for (int far = 1; far < 5; ++far) { V on = c + double(r) * u, in = c + double(r - 1) * u, out = on + double(far) * u; V a = kind ? out : in; for (int rev = 0; rev < 2; ++rev) { Line l(rev ? on : a, rev ? a : on); Pts g = dirty(); Intersector::intersect(l, ci, g); mc::step(); mc::exec(); mc::nontrivial(); if (g.size() != 1 || dist(g[0], on) > ON) mc::fail("%s with an end on the circle around %s of radius %d: %zu points", line(l.startPoint(), l.endPoint()).c_str(), str(c).c_str(), r, g.size()); } } mc::state(mc::Hash().u(i).h); });
    // the tolerance of points on arcs is a distance, at the ends as well
    mc::family("points near arcs", 2 * 24 * 11 * 4 * 3, [](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; double s = d(24) * T / 24, a = (1 + d(11)) * T / 12; static const double RR[] = {0.05, 0.4, 3, 50}, TL[] = {0.01, 1e-4, 0.04}; double r = RR[d(4)], tol = TL[d(3)]; Arc q{V(1, -2), r, s, a, dir}; Circle c = make(q);
        for (int k = -40; k <= 40; ++k) for (int end = 0; end < 2; ++end) for (int sg : {1, -1}) { double along = k * tol / 20; if (T * r - a * r < 4 * tol) continue; double phi = s + (end ? dir * (a + along / r) : -dir * along / r); V p(q.c.x() + r * std::cos(phi), q.c.y() + r * std::sin(phi)); bool got = c.isPointOnArc(p, sg * tol), on = along < tol * 0.95, off = along > tol * 1.05 && along < T * r - a * r - 2 * tol; if (sg < 0) continue; mc::step();
            if ((on && !got && along > -a * r) || (off && got)) mc::fail("with tolerance %g a point %g behind the %s of the %s is %son it", tol, along, end ? "end" : "start", str(q).c_str(), got ? "" : "not "); mc::exec(); if (along > 0) mc::nontrivial(); }
        mc::state(mc::Hash().q(s).q(a).q(r).h); }, 64);
    // points and arcs
    int NS = 24;
    mc::family("points on arcs", 2 * NS * 25 * 3, [NS](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; double s = d(NS) * T / NS, a = d(25) * T / 24; double r = R[d(3)]; Arc q{V(1, -2), r, s, a, dir}; Circle c = make(q); static const double AO[] = {0, 1e-9, -1e-9, 0.01, -0.01}; static const double RO[] = {0, 1e-8, -1e-8, 0.05, -0.05};
        for (int k = 0; k < 48; ++k) for (double ao : AO) for (double ro : RO) { double phi = k * T / 48 + ao; V p(q.c.x() + (r + ro) * std::cos(phi), q.c.y() + (r + ro) * std::sin(phi)); bool got = c.isPointOnArc(p); mc::step(); double o = q.outside(p); bool onr = std::fabs(ro) < 1e-6; bool in = onr && o < 1e-6, out = !onr || o > 1e-3; if (a < 1e-9 && dist(p, q.start()) > 1e-3) { in = false; out = true; } if (a > T - 1e-9) { in = onr; out = !onr; }
            if ((in && !got) || (out && got)) mc::fail("%s is %son the %s", str(p).c_str(), got ? "" : "not ", str(q).c_str()); if (in) mc::nontrivial(); }
        mc::exec(48 * 25); mc::state(mc::Hash().q(s).q(a).u(dir + 1).h); }, 64);
    // arcs and arcs
    int NA = 12; static const double SW[] = {0.4, M_PI / 2, M_PI, 4, 3 * M_PI / 2, T};
    mc::family("two arcs", 5 * 2 * 2 * 12 * 12 * 6, [NA](uint64_t i) { mc::Dec d(i); static const double G[5][4] = {{1.5, 0, 1, 1}, {0.5, 0.5, 1, 1.25}, {-1, 1, 2, 1}, {3, 0, 1, 2}, {0, -0.5, 1.5, 0.25}}; int g = d(5); int d1 = d(2) ? 1 : -1, d2 = d(2) ? 1 : -1; double s1 = d(NA) * T / NA, s2 = d(NA) * T / NA, a1 = SW[d(6)];
        for (double a2 : SW) { Arc p{V(0.25, 0), G[g][2], s1, a1, d1}, q{V(0.25 + G[g][0], G[g][1]), G[g][3], s2, a2, d2}; Circle x = make(p), y = make(q); Roots w = cc(p.c, p.r, q.c, q.r); Pts must; bool clear = w.clear;
            for (auto &z : w.p) { double o1 = p.outside(z), o2 = q.outside(z); if (a1 > T - 1e-9) o1 = -1; if (a2 > T - 1e-9) o2 = -1; double o = std::max(o1, o2); if (o < 1e-6) must.push_back(z); else if (o < 1e-3) clear = false; }
            std::string t = str(p) + " and " + str(q); double e = w.clear ? ON : 1e-3; auto on = [&](const V &z) { return p.distance(z) < e && q.distance(z) < e; };
            Pts m = dirty(), n = dirty(), o = dirty(); Intersector::intersectArcs(x, y, m); Intersector::intersectArcs(y, x, n); x.intersect(y, o); mc::step(3); judge(t, m, must, clear, on); if (!same(m, n) || !same(m, o)) mc::fail("%s: another result with swapped arguments or when asking the arc", t.c_str()); } }, 64);
    mc::bound("segments along an axis with an end on the circle; points up to twice the tolerance behind both ends of arcs, 3 tolerances, 4 radii"); mc::bound("line pairs over %d grid points; segments over 7x7 points x 4 radii x 4 centres; circle pairs over 5x5 centres x 6 radii each, both directions, 3 tolerances; exact tangencies in 24 directions; points in 48 directions x 25 offsets on arcs of 24 starts x 25 lengths; arc pairs of 12 starts x 6 lengths x 2 directions each in 5 placements; containers filled beforehand", mc::thorough ? 20 : 12);
    mc::assumption("the segment intersection of the missing package cslibs_navigation_utilities is the stand-in's; crossings within 1e-6 of a segment end and tangencies within 1e-3 may be reported or not");
}

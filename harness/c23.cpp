// C23: tangent circles, tangent arcs and the paths made of them
#include "geo.h"
using namespace geo; using path_geom::Circle; using path_geom::Line; using path_geom::Tangentor; using path_geom::Shape;
typedef path_geom::aligned<Circle>::vector CVec; typedef std::vector<std::shared_ptr<Shape>> Path;
static const double ON = 1e-4, HEAD = 1e-3, MARGIN = 1e-3;
struct Cand { V c; bool sure; };    // centre of a tangent circle; sure: away from all limits
// circles of radius r outside of the circle (c, R), touching it and the segment ab
static std::vector<Cand> outer(const V &a, const V &b, const V &c, double R, double r, bool &clear)
{
    std::vector<Cand> o; double dx = b.x() - a.x(), dy = b.y() - a.y(), l = std::hypot(dx, dy); if (l < 1e-12) return o; V u(dx / l, dy / l), n(-u.y(), u.x());
    double along = (c.x() - a.x()) * u.x() + (c.y() - a.y()) * u.y(), side = (c.x() - a.x()) * n.x() + (c.y() - a.y()) * n.y();
    for (int s = -1; s <= 1; s += 2) {
        double h = side - s * r, q = (R + r) * (R + r) - h * h;     // centre at along + x, s * r with x^2 + h^2 = (R+r)^2
        if (std::fabs(std::fabs(h) - (R + r)) < MARGIN) { clear = false; continue; } if (q < 0) continue;
        for (int t = -1; t <= 1; t += 2) { double x = along + t * std::sqrt(q); if (std::fabs(x) < 1e-6 || std::fabs(x - l) < 1e-6) { clear = false; continue; } if (x < 0 || x > l) continue; o.push_back(Cand{V(a.x() + x * u.x() + s * r * n.x(), a.y() + x * u.y() + s * r * n.y()), true}); }
    }
    return o;
}
static V foot(const V &a, const V &b, const V &p) { double dx = b.x() - a.x(), dy = b.y() - a.y(), t = ((p.x() - a.x()) * dx + (p.y() - a.y()) * dy) / (dx * dx + dy * dy); return V(a.x() + t * dx, a.y() + t * dy); }
static double leftof(const V &a, const V &b, const V &p) { return (b.x() - a.x()) * (p.y() - a.y()) - (b.y() - a.y()) * (p.x() - a.x()); }
static double ang(const V &c, const V &p) { return std::atan2(p.y() - c.y(), p.x() - c.x()); }
static double sweep(const V &c, const V &from, const V &to, int dir) { double t = mod(dir * (ang(c, to) - ang(c, from))); return t > T - 1e-7 ? 0 : t; }
static V between(const V &c1, const V &c2, double r2) { double d = dist(c1, c2); return V(c2.x() + (c1.x() - c2.x()) * r2 / d, c2.y() + (c1.y() - c2.y()) * r2 / d); }   // point of circle (c2,r2) towards c1
// start and end pose of a piece
struct Piece { V s, e; double hs, he; };
static Piece piece(const std::shared_ptr<Shape> &sh, const std::string &w)
{
    Piece p; if (auto l = std::dynamic_pointer_cast<Line>(sh)) { p.s = l->startPoint(); p.e = l->endPoint(); p.hs = p.he = ang(p.s, p.e); if (dist(p.s, p.e) < 1e-9) p.hs = p.he = NAN; }
    else if (auto c = std::dynamic_pointer_cast<Circle>(sh)) { Arc a = read(*c); p.s = a.start(); p.e = a.end(); p.hs = a.heading(0); p.he = a.heading(a.a); }
    else mc::fail("%s: a piece that is neither a line nor an arc", w.c_str());
    return p;
}
static void smooth(const std::string &w, const Path &p)
{
    for (size_t i = 0; i + 1 < p.size(); ++i) { Piece a = piece(p[i], w), b = piece(p[i + 1], w); if (!(dist(a.e, b.s) < ON)) mc::fail("%s: piece %zu ends at %s, the next starts at %s", w.c_str(), i, str(a.e).c_str(), str(b.s).c_str()); if (!std::isnan(a.he) && !std::isnan(b.hs) && !(adiff(a.he, b.hs) < HEAD)) mc::fail("%s: piece %zu ends with heading %.5f, the next starts with %.5f", w.c_str(), i, mod(a.he), mod(b.hs)); }
}
struct Sel { double best = 1e9; double second = 1e9; void add(double a) { if (a < best) { second = best; best = a; } else second = std::min(second, a); } };
static Path dirtyp() { return Path(2, std::make_shared<Line>(V(5, 5), V(6, 6))); }
static CVec dirtyc() { return CVec(3, Circle(V(9, 9), 1)); }

static void line_circle(const V &a, const V &b, const V &c, double R, int dir, double r)
{
    std::string w = line(a, b) + mc::fmt(", circle around %s radius %g %s, tangent radius %g", str(c).c_str(), R, dir > 0 ? "left" : "right", r);
    bool clear = true; auto cand = outer(a, b, c, R, r, clear); Line l(a, b); Circle ci(c, R, dir);
    // circles
    CVec got = dirtyc(); Tangentor::tangentCircles(l, ci, r, got); mc::step();
    for (auto &g : got) { if (std::fabs(g.radius() - r) > 1e-9 || g.direction() != -dir) mc::fail("%s: tangent circle of radius %g, direction %d", w.c_str(), g.radius(), g.direction()); if (std::fabs(dist(g.center(), c) - R - r) > ON) mc::fail("%s: circle around %s does not touch the circle", w.c_str(), str(g.center()).c_str()); V f = foot(a, b, g.center()); if (std::fabs(dist(f, g.center()) - r) > ON || segdist(f, a, b) > ON) mc::fail("%s: circle around %s does not touch the line", w.c_str(), str(g.center()).c_str()); }
    for (auto &k : cand) { int n = 0; for (auto &g : got) n += dist(g.center(), k.c) < ON; if (n != 1) mc::fail("%s: the tangent circle around %s is found %d times", w.c_str(), str(k.c).c_str(), n); }
    if (clear && got.size() != cand.size()) mc::fail("%s: %zu tangent circles instead of %zu", w.c_str(), got.size(), cand.size());
    // arcs, in both orders
    for (int rev = 0; rev < 2; ++rev) {
        std::string v = w + (rev ? " (circle to line)" : " (line to circle)");
        CVec arcs = dirtyc(); if (rev) Tangentor::tangentArc(ci, l, r, arcs); else Tangentor::tangentArc(l, ci, r, arcs); mc::step();
        Sel sel; size_t n = 0;
        for (auto &k : cand) { if (leftof(a, b, k.c) * -dir <= 0) continue; ++n; V f = foot(a, b, k.c), t = between(c, k.c, r); double sw = rev ? sweep(k.c, t, f, -dir) : sweep(k.c, f, t, -dir); if (sw < MARGIN || sw > T - MARGIN) clear = false; sel.add(sw);
            int m = 0; for (auto &g : arcs) if (dist(g.center(), k.c) < ON) { ++m; Arc q = read(g); if (dist(q.start(), rev ? t : f) > ON || dist(q.end(), rev ? f : t) > ON || q.dir != -dir || (clear && std::fabs(q.a - sw) > ON)) mc::fail("%s: %s should run from %s to %s", v.c_str(), str(q).c_str(), str(rev ? t : f).c_str(), str(rev ? f : t).c_str()); }
            if (m != 1) mc::fail("%s: the arc around %s is found %d times", v.c_str(), str(k.c).c_str(), m); }
        if (clear && arcs.size() != n) mc::fail("%s: %zu arcs instead of %zu", v.c_str(), arcs.size(), n);
        // paths, directly and through the general entry point
        for (int gen = 0; gen < 2; ++gen) {
            Path p = dirtyp(); if (gen) { std::shared_ptr<Shape> sh = path_geom::make_aligned<Line>(l); Tangentor::tangentPath(sh, ci, r, !rev, p); } else if (rev) Tangentor::tangentPath(ci, l, r, p); else Tangentor::tangentPath(l, ci, r, p); mc::step();
            if (n && p.empty()) mc::fail("%s: no path though there is an arc", v.c_str());
            if (!n && clear && !p.empty()) mc::fail("%s: a path though there is no arc", v.c_str());
            if (p.empty()) continue;
            if (p.size() != 3) mc::fail("%s: the path has %zu pieces", v.c_str(), p.size());
            smooth(v, p); Piece first = piece(p.front(), v), last = piece(p.back(), v); auto arc = std::dynamic_pointer_cast<Circle>(p[1]); auto circ = std::dynamic_pointer_cast<Circle>(rev ? p[0] : p[2]); auto ln = std::dynamic_pointer_cast<Line>(rev ? p[2] : p[0]);
            if (!arc || !circ || !ln) mc::fail("%s: wrong kinds of pieces", v.c_str());
            if (std::fabs(arc->radius() - r) > 1e-9 || dist(circ->center(), c) > 1e-9 || std::fabs(circ->radius() - R) > 1e-9 || circ->direction() != dir) mc::fail("%s: the path uses another circle", v.c_str());
            if (!rev && dist(first.s, a) > ON) mc::fail("%s: the path starts at %s", v.c_str(), str(first.s).c_str());
            if (rev && dist(last.e, b) > ON) mc::fail("%s: the path ends at %s", v.c_str(), str(last.e).c_str());
            if (rev && dist(first.s, Circle(ci).startPoint()) > ON) mc::fail("%s: the path starts at %s", v.c_str(), str(first.s).c_str());
            if (!rev && std::fabs(circ->getArcAngle() - T) > 1e-6) mc::fail("%s: the path ends with %.4f of the circle", v.c_str(), circ->getArcAngle());
            if (clear && std::fabs(arc->getArcAngle() - sel.best) > ON) mc::fail("%s: the path uses an arc over %.4f, the shortest covers %.4f", v.c_str(), arc->getArcAngle(), sel.best);
            mc::nontrivial(); mc::state(mc::Hash().q(arc->center().x()).q(arc->center().y()).q(arc->getArcAngle()).h);
        }
        mc::exec();
    }
}
// circles of radius r inside of arc 2 and outside of arc 1, touching both
struct Inner { V c, t1, t2; int sure; };   // sure: 1 touches both arcs, 0 next to an end, -1 not on the arcs
static std::vector<Inner> inner(const Arc &p, const Arc &q, double r, bool &clear)
{
    std::vector<Inner> o; if (std::fabs(q.r - r) < 1e-9) return o; if (r > q.r) return o;
    double A = p.r + r, B = q.r - r, d = dist(p.c, q.c); if (d < 1e-9) { clear = clear && std::fabs(A - B) > 1e-9; return o; } if (d < 1e-4) { clear = false; return o; }
    if (std::fabs(d - (A + B)) < MARGIN || std::fabs(d - std::fabs(A - B)) < MARGIN) { clear = false; return o; }
    if (d > A + B || d < std::fabs(A - B)) return o;
    double x = (A * A - B * B + d * d) / (2 * d), y = std::sqrt(std::max(0.0, A * A - x * x)), ux = (q.c.x() - p.c.x()) / d, uy = (q.c.y() - p.c.y()) / d;
    for (int s = -1; s <= 1; s += 2) { Inner k; k.c = V(p.c.x() + x * ux - s * y * uy, p.c.y() + x * uy + s * y * ux); k.t1 = between(k.c, p.c, p.r); double e = dist(k.c, q.c); if (e < 1e-6) { clear = false; continue; } k.t2 = V(q.c.x() + (k.c.x() - q.c.x()) * q.r / e, q.c.y() + (k.c.y() - q.c.y()) * q.r / e);
        double o1 = p.a > T - 1e-9 ? -1 : p.outside(k.t1), o2 = q.a > T - 1e-9 ? -1 : q.outside(k.t2), m = std::max(o1, o2); k.sure = m < -1e-6 ? 1 : m < MARGIN ? 0 : -1; if (!k.sure) clear = false; o.push_back(k); }
    return o;
}
static void circle_circle(const Arc &p, const Arc &q, double r)
{
    std::string w = str(p) + " and " + str(q) + mc::fmt(", tangent radius %g", r); bool full = p.a > T - 1e-9 && q.a > T - 1e-9;
    bool clear = true; auto cand = inner(p, q, r, clear); Circle x = make(p), y = make(q);
    CVec got = dirtyc(); Tangentor::tangentInnerCircles(x, y, r, got); mc::step();
    for (auto &g : got) if (std::fabs(g.radius() - r) > 1e-9 || g.direction() != q.dir || std::fabs(dist(g.center(), p.c) - p.r - r) > 1e-3 || std::fabs(dist(g.center(), q.c) - std::fabs(q.r - r)) > 1e-3) mc::fail("%s: the circle around %s, radius %g, direction %d is not an inner tangent circle", w.c_str(), str(g.center()).c_str(), g.radius(), g.direction());
    for (auto &k : cand) { int n = 0; for (auto &g : got) n += dist(g.center(), k.c) < ON; if (n != 1) mc::fail("%s: the inner tangent circle around %s is found %d times", w.c_str(), str(k.c).c_str(), n); }
    if (clear && full && got.size() != cand.size()) mc::fail("%s: %zu inner tangent circles instead of %zu", w.c_str(), got.size(), cand.size());
    bool opp = p.dir != q.dir;
    for (int from = 0; from < 3; ++from) {    // 0: path from 2 to 1, 1: path from 1 to 2, 2: arcs from 1 to 2
        Sel sel; bool cl = clear; size_t n = 0;
        if (opp) for (auto &k : cand) { if (k.sure < 0) continue; double sw = from ? sweep(k.c, k.t1, k.t2, q.dir) : sweep(k.c, k.t2, k.t1, q.dir); if (sw < MARGIN || sw > T - MARGIN || (from < 2 && std::fabs(sw - M_PI) < MARGIN)) cl = false; if (k.sure > 0) ++n; sel.add(sw); }
        std::string v = w + (from == 0 ? " (second to first)" : from == 1 ? " (first to second)" : " (arcs)");
        if (from == 2) {
            CVec arcs = dirtyc(); Tangentor::tangentInnerArcs(x, y, r, arcs); mc::step(); mc::exec();
            if (!cl) continue;
            if (arcs.size() != (n ? 1 : 0)) mc::fail("%s: %zu arcs", v.c_str(), arcs.size());
            if (n) { Arc g = read(arcs[0]); bool f = false; for (auto &k : cand) if (dist(k.c, g.c) < ON) f = dist(g.start(), k.t1) < ON && dist(g.end(), k.t2) < ON; if (!f || std::fabs(g.a - sel.best) > ON || g.dir != q.dir) mc::fail("%s: %s is not the shortest arc between the touch points (%.4f)", v.c_str(), str(g).c_str(), sel.best); mc::nontrivial(); }
            continue;
        }
        for (int gen = 0; gen < 2; ++gen) {
            Path path = dirtyp(); if (gen) { std::shared_ptr<Shape> sh = path_geom::make_aligned<Circle>(y); Tangentor::tangentPath(sh, x, r, !from, path); } else Tangentor::tangentPath(x, y, r, from, path); mc::step(); mc::exec();
            if (!opp && !path.empty()) mc::fail("%s: a path between circles of the same direction", v.c_str());
            if (!path.empty()) { if (path.size() != 3) mc::fail("%s: the path has %zu pieces", v.c_str(), path.size()); smooth(v, path); }
            bool want = n && sel.best <= M_PI; if (!cl) continue;
            if (want != !path.empty()) mc::fail("%s: %s path, the shortest arc covers %.4f", v.c_str(), path.empty() ? "no" : "a", n ? sel.best : NAN);
            if (path.empty()) continue;
            std::vector<Arc> a; for (auto &s : path) { auto c = std::dynamic_pointer_cast<Circle>(s); if (!c) mc::fail("%s: a piece is no arc", v.c_str()); a.push_back(read(*c)); }
            const Arc &f = from ? p : q, &l = from ? q : p;
            if (dist(a[0].c, f.c) > 1e-9 || std::fabs(a[0].r - f.r) > 1e-9 || dist(a[2].c, l.c) > 1e-9 || std::fabs(a[2].r - l.r) > 1e-9 || std::fabs(a[1].r - r) > 1e-9 || a[0].dir != f.dir || a[2].dir != l.dir) mc::fail("%s: the path uses other circles", v.c_str());
            if (dist(a[0].start(), f.start()) > ON || dist(a[2].end(), l.end()) > ON) mc::fail("%s: the path runs from %s to %s", v.c_str(), str(a[0].start()).c_str(), str(a[2].end()).c_str());
            if (std::fabs(a[1].a - sel.best) > ON) mc::fail("%s: the path uses an arc over %.4f, the shortest covers %.4f", v.c_str(), a[1].a, sel.best);
            mc::nontrivial(); mc::state(mc::Hash().q(a[1].c.x()).q(a[1].c.y()).q(a[1].a).h);
        }
    }
}

void mc_setup()
{
    int NH = mc::thorough ? 48 : 24;
    mc::family("line and circle", (uint64_t) NH * 13 * 4 * 2 * 4, [NH](uint64_t i) { mc::Dec d(i); double h = d(NH) * T / NH, off = (int(d(13)) - 6) * 0.55 + 0.03; static const double R[] = {0.4, 1, 1.7, 0.05}; double cr = R[d(4)]; int dir = d(2) ? 1 : -1; static const double TR[] = {0.3, 1, 0.75, 3}; double r = TR[d(4)];
        static const double L[4][2] = {{-6, 6}, {-1.3, 1.1}, {0.2, 5}, {-5, -0.4}}; V u(std::cos(h), std::sin(h)), n(-u.y(), u.x()), c(0.5, -1);
        for (auto &s : L) line_circle(V(c.x() + s[0] * u.x() + off * n.x(), c.y() + s[0] * u.y() + off * n.y()), V(c.x() + s[1] * u.x() + off * n.x(), c.y() + s[1] * u.y() + off * n.y()), c, cr, dir, r); }, 64);
    mc::family("two circles", 24 * 9 * 4 * 4 * 2 * 2, [](uint64_t i) { mc::Dec d(i); double h = d(24) * T / 24, D = d(9) * 0.43; static const double R1[] = {0.2, 0.5, 1, 2}, R2[] = {1, 1.5, 2.5, 4}, TR[] = {0.15, 0.4, 0.7, 1.1, 1.9, 4.5}; double a = R1[d(4)], b = R2[d(4)]; int d1 = d(2) ? 1 : -1, d2 = d(2) ? 1 : -1; for (double r : TR) { Arc p{V(-0.5, 0.25), a, 0, T, d1}, q{V(-0.5 + D * std::cos(h), 0.25 + D * std::sin(h)), b, 0, T, d2}; circle_circle(p, q, r); } }, 64);
    static const double SW[] = {0.7, M_PI / 2, M_PI, 4.5, T};
    int NA = mc::thorough ? 24 : 12;
    mc::family("two arcs", (uint64_t) 6 * 2 * 2 * NA * NA * 5, [NA](uint64_t i) { mc::Dec d(i); static const double G[6][4] = {{0.9, 0.5, 2, 0.6}, {-1.4, 0.6, 2.5, 0.5}, {0.3, 1.2, 1.7, 0.9}, {2.1, 0.4, 2.2, 0.3}, {0.2, 1, 2, 0.45}, {1.5, 1.5, 3, 0.35}}; int g = d(6); int d1 = d(2) ? 1 : -1, d2 = d(2) ? 1 : -1; double s1 = d(NA) * T / NA + 0.01, s2 = d(NA) * T / NA + 0.02, a1 = SW[d(5)]; for (double a2 : SW) { Arc p{V(0, 0), G[g][1], s1, a1, d1}, q{V(G[g][0], 0.35), G[g][2], s2, a2, d2}; circle_circle(p, q, G[g][3]); } }, 64);
    mc::family("no shape", 2, [](uint64_t i) { Path p = dirtyp(); Tangentor::tangentPath(std::shared_ptr<Shape>(), Circle(V(0, 0), 1), 1, i, p); mc::exec(); mc::step(); if (!p.empty()) mc::fail("a path from nothing"); });
    mc::bound("lines in %d directions x 13 distances x 4 extents around a circle of 4 radii, 2 directions, 4 tangent radii; circle pairs in 24 directions x 9 distances x 4 x 4 radii x both directions each, 6 tangent radii; arc pairs of %d starts x 5 lengths each, 6 placements, both directions each; every path in both directions, called directly and through the general entry point, into filled containers", NH, NA);
    mc::assumption("tangencies within 1e-3 of coincidence, touch points within 1e-3 rad of an arc end or 1e-6 of a segment end may be found or not; line paths may touch the circle anywhere");
}

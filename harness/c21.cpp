// C21: sampling of lines and arcs, construction from poses, moving the ends of a shape
#include "geo.h"
using namespace geo; using path_geom::Circle; using path_geom::Line; using path_geom::PathPose; using path_geom::PathPoseVec;
typedef std::vector<V> Pts;
static const double RES[] = {0.04, 0.1, 0.25, 0.3, 1.0, 1.7, 40.0, -0.35};
static const double EPS = 1e-7;
// shape as parameterised curve: p(u), h(u), u in [0,1]
struct Ref { std::function<V(double)> p; std::function<double(double)> h; double len; std::string name; bool heading; };
static void judge(const Ref &ref, path_geom::Shape &sh, double res, bool dirty)
{
    Pts pts; if (dirty) pts.assign(5, V(77, 77));
    sh.toPoints(res, pts); mc::step();
    std::string w = ref.name + mc::fmt(" at resolution %g", res); const double given = res; res = std::fabs(res);
    if (pts.empty()) mc::fail("%s: no points", w.c_str());
    size_t n = pts.size() - 1;
    if (n == 0 && ref.len > res + EPS) mc::fail("%s: a single point for a length of %g", w.c_str(), ref.len);
    if (n && ref.len / n > res * (1 + 1e-6) + 1e-9) mc::fail("%s: %zu steps over a length of %g are longer than the resolution", w.c_str(), n, ref.len);
    if (ref.len < 1e-12 && n) mc::fail("%s: %zu points for a shape of no length", w.c_str(), pts.size());
    for (size_t i = 0; i <= n; ++i) { double u = n ? double(i) / n : 0; if (!(dist(pts[i], ref.p(u)) < EPS)) mc::fail("%s: point %zu of %zu is %s instead of %s", w.c_str(), i, n + 1, str(pts[i]).c_str(), str(ref.p(u)).c_str()); }
    for (int dir : {path_geom::FORWARD, path_geom::BACKWARD}) for (bool with : {true, false}) {
        PathPoseVec ps; if (dirty) ps.assign(9, PathPose(77, 77, 7));
        sh.toPoses(given, ps, dir, with); mc::step();
        std::string v = w + (dir == path_geom::FORWARD ? " forward" : " backward") + (with ? "" : " without start");
        size_t m = ps.size() + (with ? 0 : 1);      // poses including the omitted one
        if (!m) mc::fail("%s: no poses", v.c_str());
        --m;
        if (m == 0 && ref.len > res + EPS) mc::fail("%s: %zu poses for a length of %g", v.c_str(), ps.size(), ref.len);
        if (m && ref.len / m > res * (1 + 1e-6) + 1e-9) mc::fail("%s: %zu steps over a length of %g are longer than the resolution", v.c_str(), m, ref.len);
        if (ref.len < 1e-12 && m) mc::fail("%s: %zu poses for a shape of no length", v.c_str(), ps.size());
        for (size_t k = with ? 0 : 1; k <= m; ++k) {
            const PathPose &q = ps[k - (with ? 0 : 1)]; double u = m ? double(k) / m : 0; if (dir == path_geom::BACKWARD) u = 1 - u;
            if (!(dist(q.pos_, ref.p(u)) < EPS)) mc::fail("%s: pose %zu is at %s instead of %s", v.c_str(), k, str(q.pos_).c_str(), str(ref.p(u)).c_str());
            if (ref.heading && !(adiff(q.theta_, ref.h(u)) < EPS)) mc::fail("%s: pose %zu has heading %.6f instead of %.6f", v.c_str(), k, q.theta_, ref.h(u));
        }
        mc::state(mc::Hash().u(m).q(ref.len).u(dir + 1).u(with).h);
    }
    mc::exec(5); if (n > 1) mc::nontrivial();
}
static Ref refline(const V &a, const V &b) { double h = std::atan2(b.y() - a.y(), b.x() - a.x()); return Ref{[=](double u) { return V(a.x() + u * (b.x() - a.x()), a.y() + u * (b.y() - a.y())); }, [=](double) { return h; }, dist(a, b), line(a, b), dist(a, b) > 0}; }
static Ref refarc(const Arc &a) { return Ref{[=](double u) { return a.at(u * a.a); }, [=](double u) { return a.heading(u * a.a); }, a.a * a.r, str(a), true}; }

void mc_setup()
{
    static const double C[] = {-3, -1, -0.5, 0, 0.25, 2, 4};
    mc::family("lines", 4 * 49 * 8 * 2, [](uint64_t i) { mc::Dec d(i); bool dirty = d(2); double res = RES[d(8)]; double x = C[d(7)], y = C[d(7)]; static const double S[4][2] = {{0, 0}, {-1, 2}, {2, -0.5}, {0.1, 0.7}}; int s = d(4); V a(S[s][0], S[s][1]), b(x, y); Line l(a, b); judge(refline(a, b), l, res, dirty); });
    // lengths around multiples of the resolution
    mc::family("lines near multiples of the resolution", 24 * 9 * 12, [](uint64_t i) { mc::Dec d(i); double h = d(24) * M_PI / 12; static const double O[9] = {-1e-3, -1e-6, -1e-9, -1e-12, 0, 1e-12, 1e-10, 1e-6, 1e-3}; double o = O[d(9)]; int k = d(12); double len = k * 0.1 + o; if (len < 0) return; V a(1, -2), b(1 + len * std::cos(h), -2 + len * std::sin(h)); Line l(a, b); Ref r = refline(a, b); if (r.len < 1e-6) r.heading = false; if (r.len < 1e-8) return; judge(r, l, 0.1, true); });
    // arcs
    int ns = mc::thorough ? 48 : 24;
    mc::family("arcs", (uint64_t) 2 * 3 * ns * 25 * 8 * 2, [ns](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; static const double R[] = {0.3, 1, 2.5}; double r = R[d(3)], s = d(ns) * T / ns, a = d(25) * T / 24, res = RES[d(8)]; V c = d(2) ? V(-2, 1.5) : V(0, 0); Arc q{c, r, s, a, dir}; Circle x = make(q);
        if (dist(x.startPoint(), q.start()) > EPS || dist(x.endPoint(), q.end()) > EPS) mc::fail("%s: ends are %s and %s", str(q).c_str(), str(x.startPoint()).c_str(), str(x.endPoint()).c_str());
        if (std::fabs(x.getArcLength() - r * a) > EPS || std::fabs(x.getArcAngle() - a) > EPS || x.direction() != dir) mc::fail("%s: length %g, angle %g, direction %d", str(q).c_str(), x.getArcLength(), x.getArcAngle(), x.direction());
        judge(refarc(q), x, res, i & 1); }, 256);
    mc::family("full circles", 2 * 4 * 8 * 2, [](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; static const double R[] = {0.3, 1, 2.5, -2.5}; double r = R[d(4)], res = RES[d(8)]; int scale = d(2) ? 1 : 7; alignas(Circle) unsigned char mem[sizeof(Circle)]; std::memset(mem, 0x41, sizeof mem); asm volatile("" : : "r"(mem) : "memory"); Circle &x = *new (mem) Circle(V(1, 2), r, dir * scale); Arc q{V(1, 2), std::fabs(r), 0, T, dir}; judge(refarc(q), x, res, true); x.~Circle(); });
    mc::family("no resolution", 2 * 2 * 2 * 2, [](uint64_t i) { mc::Dec d(i); double res = d(2) ? 0 : 1e-12; Line l(V(0, 0), V(1, 1)); Circle c(V(0, 0), 1); path_geom::Shape &s = d(2) ? (path_geom::Shape &) l : (path_geom::Shape &) c; Pts p(3, V(1, 1)); PathPoseVec q(4); s.toPoints(res, p); s.toPoses(res, q, d(2) ? 1 : -1, d(2)); mc::step(2); mc::exec(); if (!p.empty() || !q.empty()) mc::fail("sampling without a resolution yields %zu points and %zu poses", p.size(), q.size()); });
    // constructed from / to a pose
    mc::family("arcs at a pose", 2 * 2 * 24 * 3 * 13 * 3, [](uint64_t i) { mc::Dec d(i); bool to = d(2); int dir = d(2) ? 1 : -1; double th = (int(d(24)) - 12) * M_PI / 12; static const double R[] = {0.4, 1, 3}; double r = R[d(3)], a = d(13) * T / 12; static const double P[3][2] = {{0, 0}, {1.5, -2}, {-3, 0.25}}; int k = d(3); PathPose p(P[k][0], P[k][1], th);
        Circle x = to ? Circle::createArcTo(p, r, a, dir) : Circle::createArcFrom(p, r, a, dir); mc::step(); mc::exec(); mc::nontrivial();
        // reference: integrate from the pose; the centre is to the left (right) at the radius
        V c(p.pos_.x() - dir * r * std::sin(th), p.pos_.y() + dir * r * std::cos(th)); double at = th - dir * M_PI / 2; Arc q{c, r, to ? at - dir * a : at, a, dir};
        std::string w = mc::fmt("arc %s pose (%g,%g,%g), radius %g, angle %g, %s", to ? "to" : "from", p.pos_.x(), p.pos_.y(), th, r, a, dir > 0 ? "left" : "right");
        if (dist(x.center(), c) > EPS || std::fabs(x.radius() - r) > EPS || x.direction() != dir || std::fabs(x.getArcLength() - r * a) > EPS) mc::fail("%s: centre %s radius %g length %g direction %d", w.c_str(), str(x.center()).c_str(), x.radius(), x.getArcLength(), x.direction());
        V touch = to ? x.endPoint() : x.startPoint(); if (dist(touch, p.pos_) > EPS) mc::fail("%s touches at %s", w.c_str(), str(touch).c_str());
        Ref rf = refarc(q); rf.name = w; judge(rf, x, 0.3, false); mc::state(mc::Hash().q(x.endPoint().x()).q(x.endPoint().y()).q(x.startPoint().x()).h); });
    mc::family("lines at a pose", 4 * 24 * 7 * 3, [](uint64_t i) { mc::Dec d(i); static const int D[4] = {1, -1, 5, -3}; int dir = D[d(4)]; double th = (int(d(24)) - 12) * M_PI / 12; static const double L[] = {0, 0.1, 0.75, 1, 2, 10, -2}; double len = L[d(7)]; static const double P[3][2] = {{0, 0}, {1.5, -2}, {-3, 0.25}}; int k = d(3); PathPose p(P[k][0], P[k][1], th);
        Line x(p, len, dir); mc::step(); mc::exec(); mc::nontrivial(); double s = dir > 0 ? 1 : -1; V o(p.pos_.x() + s * std::fabs(len) * std::cos(th), p.pos_.y() + s * std::fabs(len) * std::sin(th)); V a = dir > 0 ? V(p.pos_) : o, b = dir > 0 ? o : V(p.pos_);
        if (dist(x.startPoint(), a) > EPS || dist(x.endPoint(), b) > EPS) mc::fail("line at pose (%g,%g,%g) of length %g direction %d is %s", p.pos_.x(), p.pos_.y(), th, len, dir, line(x.startPoint(), x.endPoint()).c_str());
        if (std::fabs(len) > 0) { Ref rf = refline(a, b); rf.h = [th](double) { return th; }; judge(rf, x, 0.25, true); } });
    // histories of moving the ends of an arc: the other end stays
    static const double A[] = {0, M_PI / 6, 1, M_PI, 4, 6, T, 7, -1, -8, 15, -14};
    enum { NA = 12, OPS = 5 * NA };
    int depth = mc::thorough ? 4 : 3;
    mc::family("moved arc ends", 2 * 3 * mc::ipow(OPS, depth - 1), [depth](uint64_t i) { mc::Dec d(i); int dir = d(2) ? 1 : -1; int init = d(3); std::vector<int> ops; for (int k = 0; k + 1 < depth; ++k) ops.push_back(d(OPS));
        for (int last = 0; last < OPS; ++last) { auto all = ops; all.push_back(last);
            V c(0.5, -1); double r = 2; Circle x(c, r, dir); double s = dir > 0 ? 0 : T, e = 0, a = T;     // s, e modulo a turn; a in [0,T]
            if (init == 1) { x.setArc(1, 2, dir); s = 1; a = 2; e = s + dir * a; } else if (init == 2) { x.setArc(5, 5.5, dir); s = 5; a = 5.5; e = s + dir * a; }
            std::string h = init ? str(read(x)) : std::string("full circle ") + (dir > 0 ? "left" : "right");
            for (int o : all) {
                int op = o / NA; double v = A[o % NA]; V on(c.x() + r * std::cos(v), c.y() + r * std::sin(v)); bool moved = true, ok = true; mc::step();
                switch (op) {
                case 0: x.setStartAngle(v); h += mc::fmt("; start angle %g", v); s = v; break;
                case 1: x.setEndAngle(v); h += mc::fmt("; end angle %g", v); e = v; break;
                case 2: x.setArcAngle(v); h += mc::fmt("; arc angle %g", v); e = s + dir * v; break;
                case 3: { bool off = o % 2; V p = off ? V(c.x() + (on.x() - c.x()) * 1.01, c.y() + (on.y() - c.y()) * 1.01) : on; ok = x.selectStartPoint(p); h += "; start point " + str(p); moved = !off; if (moved) s = v; if (ok != moved) mc::fail("%s: selecting reports %d", h.c_str(), ok); break; }
                case 4: { bool off = o % 2; V p = off ? V(c.x() + (on.x() - c.x()) * 0.99, c.y() + (on.y() - c.y()) * 0.99) : on; ok = x.selectEndPoint(p); h += "; end point " + str(p); moved = !off; if (moved) e = v; if (ok != moved) mc::fail("%s: selecting reports %d", h.c_str(), ok); break; }
                }
                if (moved) { double na = mod(dir * (e - s)); double got = x.getArcAngle(); if (na < 1e-6 || na > T - 1e-6) { if (std::fabs(got) < 1e-6) na = got; else if (std::fabs(got - T) < 1e-6) na = got; } a = na; }
                if (std::fabs(x.getArcAngle() - a) > 1e-6) mc::fail("%s: the arc covers %.6f instead of %.6f", h.c_str(), x.getArcAngle(), a);
                Arc q{c, r, s, a, dir}; if (dist(x.startPoint(), q.start()) > 1e-6 || dist(x.endPoint(), q.end()) > 1e-6 || x.direction() != dir) mc::fail("%s: runs from %s to %s instead of %s to %s", h.c_str(), str(x.startPoint()).c_str(), str(x.endPoint()).c_str(), str(q.start()).c_str(), str(q.end()).c_str());
                if (adiff(x.endAngle(), e) > 1e-6 || adiff(x.startAngle(), s) > 1e-6) mc::fail("%s: angles %.6f and %.6f", h.c_str(), x.startAngle(), x.endAngle());
                if (x.startAngle() < -1e-9 || x.startAngle() > T + 1e-9 || x.endAngle() < -1e-9 || x.endAngle() > T + 1e-9) mc::fail("%s: angles %.6f and %.6f are not within a turn", h.c_str(), x.startAngle(), x.endAngle());
            }
            mc::exec(); mc::state(mc::Hash().q(mod(s)).q(a).h); mc::nontrivial();
        } }, 16);
    mc::family("moved line ends and copies", 2 * 25 * 25, [](uint64_t i) { mc::Dec d(i); bool st = d(2); double k = (int(d(25)) - 12) / 4.0, off = (int(d(25)) - 12) / 8.0; V a(1, -1), b(3, 2), u(2, 3); Line l(a, b); double n = std::hypot(2, 3); V p(a.x() + k * u.x() - off * u.y() / n, a.y() + k * u.y() + off * u.x() / n);
        std::shared_ptr<path_geom::Shape> src = path_geom::make_aligned<Line>(l), cp = path_geom::Shape::deepCopy(src); mc::step(2); mc::exec();
        bool ok = st ? src->selectStartPoint(p) : src->selectEndPoint(p); bool want = std::fabs(off) < 1e-9; if (want) mc::nontrivial();
        if (ok != want) mc::fail("moving an end of %s to %s reports %d", line(a, b).c_str(), str(p).c_str(), ok);
        V ws = st && want ? p : a, we = !st && want ? p : b; if (dist(src->startPoint(), ws) > EPS || dist(src->endPoint(), we) > EPS) mc::fail("moving an end of %s to %s gives %s", line(a, b).c_str(), str(p).c_str(), line(src->startPoint(), src->endPoint()).c_str());
        if (!cp || dist(cp->startPoint(), a) > EPS || dist(cp->endPoint(), b) > EPS) mc::fail("the copy of a line changed with it");
        std::shared_ptr<path_geom::Shape> c = path_geom::make_aligned<Circle>(V(1, 1), 2, st ? 1 : -1), cc = path_geom::Shape::deepCopy(c); V e0 = c->endPoint(); double ang = k; V q(1 + 2 * std::cos(ang), 1 + 2 * std::sin(ang)); c->selectEndPoint(q); if (!cc || dist(cc->endPoint(), e0) > EPS || dist(c->endPoint(), q) > EPS) mc::fail("the copy of a circle changed with it");
        if (path_geom::Shape::deepCopy(nullptr)) mc::fail("the copy of nothing is something"); });
    mc::bound("lines: 4 start points x 7x7 end points x 8 resolutions, 24 headings x lengths within 1e-12..1e-3 of k*resolution, k<12; arcs: %d start angles x 25 arc angles x 3 radii x 2 centres x 2 directions x 8 resolutions, sampled as points and as poses forward/backward, with/without start; arcs and lines from/to 72 poses; all sequences of %d moves of arc ends over 5 operations x 10 angles", mc::thorough ? 48 : 24, mc::thorough ? 4 : 3);
    mc::assumption("a zero-length line has no heading; an arc whose ends coincide is empty or a full circle");
}

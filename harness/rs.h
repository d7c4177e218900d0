// Independent reference for Reeds-Shepp words: closed-form solutions validated by forward integration.
#pragma once
#include "mc.h"
#include <cslibs_path_planning/ReedsShepp/CurveGenerator.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
#include <sstream>
#include <algorithm>
namespace rs {
using namespace lib_path;
static const double TAU = 2 * M_PI;
inline double wrap(double a) { a = std::fmod(a, TAU); if (a > M_PI) a -= TAU; if (a <= -M_PI) a += TAU; return a; }
inline double wrap0(double a) { a = std::fmod(a, TAU); if (a < 0) a += TAU; return a; }
struct Seg { int steer; int dir; double len; };           // steer: +1 left, 0 straight, -1 right; dir: +1 forwards
struct P { double x, y, th; };
typedef std::vector<Seg> Segs;
inline P advance(P p, const Seg &s, double len, double r)
{
    if (s.steer == 0) { p.x += s.dir * len * cos(p.th); p.y += s.dir * len * sin(p.th); return p; }
    double cx = p.x - r * s.steer * sin(p.th), cy = p.y + r * s.steer * cos(p.th), th = p.th + s.dir * s.steer * len / r;
    return {cx + r * s.steer * sin(th), cy - r * s.steer * cos(th), th};
}
// the segments a word spells; false: not a correct word
inline bool spell(const std::string &w, Segs &out)
{
    int dir = 1; bool sub = false; out.clear();
    for (char c : w) {
        if (sub) {
            if (c == ')') sub = false;
            else if (c == 'p') ;
            else if (c == 'b') { if (out.empty() || out.back().steer == 0) return false; }
            else return false;
        } else if (c == '(') sub = true;
        else if (c == '|') dir = -dir;
        else if (c == 'S') out.push_back({0, dir, 0});
        else if (c == 'L') out.push_back({1, dir, 0});
        else if (c == 'R') out.push_back({-1, dir, 0});
        else return false;
    }
    return !sub;
}
inline bool supported(const Segs &s)
{
    if (s.size() == 3 && s[1].steer == 0) return s[0].steer && s[2].steer;
    if (s.size() != 3 && s.size() != 4) return false;
    for (size_t i = 0; i < s.size(); ++i) { if (!s[i].steer) return false; if (i && s[i].steer == s[i - 1].steer) return false; }
    return true;
}
struct Costs { double fwd = 1, bwd = 1, curve = 1, straight = 1; };
struct Sol { Segs segs; double len = 0, weight = 0, arc = 0; };
inline double arclen(const Seg &s, double from, double to, double r)
{ double a = wrap0(s.dir * s.steer * (to - from)); if (a > TAU - 2e-5) a = 0; return a * r; }
inline void finish(Sol &s, const P &start, const P &goal, double r, const Costs &c)
{
    P p = start;
    for (auto &g : s.segs) {
        p = advance(p, g, g.len, r); s.len += g.len; if (g.steer) s.arc += g.len / r;
        s.weight += g.len * (g.dir > 0 ? c.fwd : c.bwd) * (g.steer ? c.curve : c.straight);
    }
    double e = std::hypot(p.x - goal.x, p.y - goal.y), a = std::fabs(wrap(p.th - goal.th));
    if (!(e < 1e-4 * std::max(1.0, r) && a < 1e-4)) { fprintf(stderr, "reference solution misses the goal by %g, %g\n", e, a); abort(); }
}
// all solutions of the word's construction (one for CSC, two mirrored ones for circle words).
// edge is set when the pose is on (within 1e-6 of) the limit of a construction, where either answer is right
inline std::vector<Sol> solve(const Segs &word, const P &st, const P &go, double r, const Costs &c, bool &edge)
{
    std::vector<Sol> out; edge = false;
    if (!supported(word)) return out;
    double dsg = std::hypot(st.x - go.x, st.y - go.y);
    if (std::fabs(dsg - 2) < 1e-6) edge = true;
    if (dsg < 2) return out;
    int s1 = word.front().steer, s3 = word.back().steer;
    double sx = st.x - r * s1 * sin(st.th), sy = st.y + r * s1 * cos(st.th);
    double gx = go.x - r * s3 * sin(go.th), gy = go.y + r * s3 * cos(go.th);
    double dx = gx - sx, dy = gy - sy, D = std::hypot(dx, dy), th = atan2(dy, dx);
    if (word.size() == 3 && word[1].steer == 0) {
        double phi;
        if (s1 == s3) { if (D < 1e-4) { edge = true; return out; } phi = word[1].dir > 0 ? th : th + M_PI; }
        else {
            double q = r * (s1 - s3) / D; if (!(D > 0)) return out;
            if (std::fabs(D - 2 * r) < 1e-6) edge = true;
            if (std::fabs(q) > 1) return out;
            phi = word[1].dir > 0 ? th + asin(q) : th + M_PI - asin(q);
        }
        Sol s; s.segs = word;
        s.segs[0].len = arclen(word[0], st.th, phi, r);
        s.segs[1].len = std::max(0.0, word[1].dir * (dx * cos(phi) + dy * sin(phi)));
        s.segs[2].len = arclen(word[2], phi, go.th, r);
        finish(s, st, go, r, c); out.push_back(s);
        return out;
    }
    double lim = word.size() == 3 ? 4 * r : 6 * r;
    if (std::fabs(D - lim) < 1e-6 || std::fabs(D - 2) < 1e-6) edge = true;
    if (D < 2 || D > lim) return out;
    for (int sign = 1; sign >= -1; sign -= 2) {
        Sol s; s.segs = word; std::vector<double> head;     // headings at the touching points
        if (word.size() == 3) {
            double g = sign * acos(std::min(1.0, D / 2 / (2 * r)));
            double cx = sx + 2 * r * cos(th + g), cy = sy + 2 * r * sin(th + g);
            head.push_back(th + g + s1 * M_PI / 2);
            head.push_back(atan2(cy - gy, cx - gx) + s3 * M_PI / 2);
        } else {
            double g = sign * acos(std::max(-1.0, std::min(1.0, (D / 2 - r) / (2 * r))));
            double ax = sx + 2 * r * cos(th + g), ay = sy + 2 * r * sin(th + g), bx = ax + 2 * r * cos(th), by = ay + 2 * r * sin(th);
            head.push_back(th + g + s1 * M_PI / 2);
            head.push_back(th + word[1].steer * M_PI / 2);
            head.push_back(atan2(by - gy, bx - gx) + s3 * M_PI / 2);
        }
        double h = st.th;
        for (size_t i = 0; i < word.size(); ++i) { double n = i < head.size() ? head[i] : go.th; s.segs[i].len = arclen(word[i], h, n, r); h = n; }
        finish(s, st, go, r, c); out.push_back(s);
    }
    return out;
}
// poses along the solution every `ds`
template <class F> void sample(const Sol &s, const P &st, double r, double ds, F f)
{
    P p = st;
    for (auto &g : s.segs) { int n = std::max(1, (int) std::ceil(g.len / ds)); for (int i = 0; i <= n; ++i) f(advance(p, g, g.len * i / n, r)); p = advance(p, g, g.len, r); }
}
inline std::vector<Pose2d> waypoints(Curve &c)
{
    std::vector<Pose2d> w; c.reset_iteration();
    while (c.has_next()) { w.push_back(c.next()); if (w.size() > 2000000) mc::fail("the iteration over the way-points does not end"); }
    return w;
}
// does the way-point list walk along the solution, from its start to its end, in steps of at most maxd?
inline bool follows(const std::vector<Pose2d> &w, const Sol &s, const P &st, const P &go, double r, double maxd, std::string &why)
{
    const double tol = 2e-4 * std::max(1.0, r), atol = 2e-4;
    if (w.empty()) { why = "no way-points"; return false; }
    std::vector<P> at; std::vector<double> off; P p = st; double o = 0;
    for (auto &g : s.segs) { at.push_back(p); off.push_back(o); p = advance(p, g, g.len, r); o += g.len; }
    double cur = 0;
    for (size_t k = 0; k < w.size(); ++k) {
        double best = 1e300;
        for (size_t j = 0; j < s.segs.size(); ++j) {
            const Seg &g = s.segs[j]; double cand[3]; int n = 0;
            if (!g.steer) cand[n++] = g.dir * ((w[k].x - at[j].x) * cos(at[j].th) + (w[k].y - at[j].y) * sin(at[j].th));
            else {
                double cx = at[j].x - r * g.steer * sin(at[j].th), cy = at[j].y + r * g.steer * cos(at[j].th);
                double hd = atan2(w[k].y - cy, w[k].x - cx) + g.steer * M_PI / 2;
                double a = wrap0(g.dir * g.steer * (hd - at[j].th));
                cand[n++] = a * r; cand[n++] = (a - TAU) * r; cand[n++] = 0;
            }
            for (int i = 0; i < n; ++i) {
                double l = cand[i]; if (l < -tol || l > g.len + tol) continue;
                P q = advance(at[j], g, l, r);
                if (std::hypot(q.x - w[k].x, q.y - w[k].y) > tol || std::fabs(wrap(q.th - w[k].theta)) > atol) continue;
                double abs_s = off[j] + l; if (abs_s < cur - 2 * tol) continue;
                best = std::min(best, abs_s);
            }
        }
        if (best > 1e299) { why = mc::fmt("way-point %zu of %zu (%.6g %.6g %.6g) is not on the rest of the curve (after %.6g of %.6g)", k, w.size(), w[k].x, w[k].y, w[k].theta, cur, s.len); return false; }
        if (best - cur > maxd + 3 * tol) { why = mc::fmt("way-point %zu is %.6g after the one before it, configured are at most %.6g", k, best - cur, maxd); return false; }
        cur = std::max(cur, best);
    }
    if (std::hypot(w[0].x - st.x, w[0].y - st.y) > tol || std::fabs(wrap(w[0].theta - st.th)) > atol) { why = mc::fmt("the first way-point (%.6g %.6g %.6g) is not the start", w[0].x, w[0].y, w[0].theta); return false; }
    const Pose2d &l = w.back();
    if (std::hypot(l.x - go.x, l.y - go.y) > tol || std::fabs(wrap(l.theta - go.th)) > atol) { why = mc::fmt("the last way-point (%.6g %.6g %.6g) is not the goal (%.6g %.6g %.6g)", l.x, l.y, l.theta, go.x, go.y, go.th); return false; }
    return true;
}
// all words of the supported families with every combination of directions
inline std::vector<std::string> words()
{
    std::vector<std::string> out; const char *shape[] = {"LSL", "LSR", "RSL", "RSR", "LRL", "RLR", "LRLR", "RLRL"};
    for (auto sh : shape) { int n = strlen(sh);
        for (int m = 0; m < (1 << n); ++m) { std::string w; int d = 0; for (int i = 0; i < n; ++i) { if (((m >> i) & 1) != d) { w += '|'; d ^= 1; } w += sh[i]; } out.push_back(w); } }
    return out;
}
inline std::string str(const P &p) { return mc::fmt("(%.17g %.17g %.17g)", p.x, p.y, p.th); }
inline Pose2d pose(const P &p) { return Pose2d(p.x, p.y, p.th); }
inline double tolw(double w) { return 1e-3 + 1e-4 * w; }
inline std::unique_ptr<SimpleGridMap2d> freemap(unsigned w, unsigned h, double res)
{ std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(w, h, res)); ((GridMap2d *) m.get())->setOrigin(Point2d(0, 0)); m->setLowerThreshold(60); m->setUpperThreshold(120); return m; }
}

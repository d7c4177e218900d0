// reference model for the generic grid planners
#pragma once
#include "mc.h"
#include <set>
#include <queue>
#include <deque>
#include <iostream>
#include <cstring>
#include <memory>
#include <boost/utility/enable_if.hpp>
#include <cslibs_path_planning/generic/Algorithms.hpp>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
extern int verif_queue_dedup;
using namespace lib_path;
// cell classes: 0 free 1 unknown 2 occupied
struct Grid {
    int w, h; double res; std::vector<uint8_t> c;
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    int at(int x, int y) const { return c[y * w + x]; }
    bool free(int x, int y) const { return in(x, y) && at(x, y) == 0; }
    bool occ(int x, int y) const { return at(x, y) == 2; }
};
inline std::string show(const Grid &g) { std::string s = mc::fmt("%dx%d res %g:", g.w, g.h, g.res); for (int y = 0; y < g.h; ++y) { s += y ? "/" : ""; for (int x = 0; x < g.w; ++x) s += ".?#"[g.at(x, y)]; } return s; }
inline Grid parse(const char *t, double res = 1)
{
    Grid g; g.h = 1; g.w = 0; g.res = res; int c = 0;
    for (const char *p = t; *p; ++p) { if (*p == '/') { ++g.h; c = 0; } else { ++c; g.w = std::max(g.w, c); g.c.push_back(*p == '#' ? 2 : *p == '?' ? 1 : 0); } } if ((int) g.c.size() != g.w * g.h) { fprintf(stderr, "bad map %s\n", t); abort(); } return g;
}
// values on both edges of each class
inline uint8_t value_of(int cls, int variant) { static const uint8_t V[3][2] = {{0, 50}, {51, 199}, {200, 255}}; return V[cls][variant & 1]; }
inline void fill(SimpleGridMap2d &m, const Grid &g) { std::vector<uint8_t> v(g.w * g.h); for (size_t i = 0; i < v.size(); ++i) v[i] = value_of(g.c[i], i + i / 3); m.set(v, g.w, g.h); }
inline std::unique_ptr<SimpleGridMap2d> to_map(const Grid &g)
{
    std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, g.res)); m->setOrigin(Point2d(-3.25, 4.5)); m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(-1); fill(*m, g); return m;
}
// cheapest cost (in map units) from the start over free cells with steps of d cells; the start itself need not be free
inline std::vector<double> reference(const Grid &g, int sx, int sy, int N, int d)
{
    int n = g.w * g.h; std::vector<double> D(n, INFINITY); std::vector<char> done(n, 0); D[sy * g.w + sx] = 0;
    for (;;) {
        int b = -1; for (int i = 0; i < n; ++i) if (!done[i] && std::isfinite(D[i]) && (b < 0 || D[i] < D[b])) b = i;
        if (b < 0) return D;
        done[b] = 1; int x = b % g.w, y = b / g.w;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
            if (!dx && !dy) continue; if (N == 4 && dx && dy) continue; int nx = x + dx * d, ny = y + dy * d; if (!g.free(nx, ny)) continue;
            double c = D[b] + (dx && dy ? std::sqrt(2.0) : 1.0) * d * g.res; int k = ny * g.w + nx; if (c < D[k]) D[k] = c;
        }
    }
}
template <class P> std::string show_path(const P &p) { std::string s; for (auto &n : p) s += mc::fmt("(%g,%g)", n.x, n.y); return s; }
enum { VALID = 1, COST = 2 };
struct Query { Pose2d s, t; };
inline std::string show(const Query &q) { return mc::fmt("(%g,%g)->(%g,%g)", q.s.x, q.s.y, q.t.x, q.t.y); }
template <class P> double path_cost(const P &p, double res) { double l = 0; for (size_t i = 1; i < p.size(); ++i) l += std::hypot(p[i].x - p[i - 1].x, p[i].y - p[i - 1].y) * res; return l; }
// judge a path against the reference; `at_goal` decides which cells count as reached goal; empty string = fine
template <class P, class G> std::string judge(const Grid &g, const P &p, const Query &q, int N, int d, int what, bool admissible, G at_goal, const std::vector<double> *known = nullptr)
{
    int sx = std::floor(q.s.x), sy = std::floor(q.s.y);
    bool possible = g.in(sx, sy) && !g.occ(sx, sy);
    std::vector<double> D; if (possible) D = known ? *known : reference(g, sx, sy, N, d);
    bool want = false;
    if (possible) for (int y = 0; y < g.h; ++y) for (int x = 0; x < g.w; ++x) if (at_goal(x, y) && std::isfinite(D[y * g.w + x])) want = true;
    if ((what & COST) && p.empty() && want) return "no path, but the goal is reachable";
    if (!p.empty()) {
        if (!possible) return "a path although the start is occupied or outside: " + show_path(p);
        if (what & VALID) {
            if (p.front().x != sx || p.front().y != sy) return "does not start in the start cell: " + show_path(p);
            for (size_t i = 0; i < p.size(); ++i) {
                int x = p[i].x, y = p[i].y; if (x != p[i].x || y != p[i].y || !g.in(x, y)) return mc::fmt("step %zu is not a cell of the map: ", i) + show_path(p);
                if (g.occ(x, y)) return mc::fmt("step %zu lies on an occupied cell: ", i) + show_path(p);
                if (i && !g.free(x, y)) return mc::fmt("step %zu lies on an unknown cell: ", i) + show_path(p);
                if (!i) continue;
                int dx = std::abs(x - (int) p[i - 1].x), dy = std::abs(y - (int) p[i - 1].y);
                bool ok = (dx == d || dx == 0) && (dy == d || dy == 0) && dx + dy > 0 && (N == 8 || dx + dy == d);
                if (!ok) return mc::fmt("step %zu is not a neighbour of its predecessor: ", i) + show_path(p);
            }
            if (!at_goal((int) p.back().x, (int) p.back().y)) return "does not end at the goal: " + show_path(p);
        }
        if (!want) return "a path although the goal is not reachable: " + show_path(p);
        if (what & COST) {
            double l = path_cost(p, g.res), best = D[(int) p.back().y * g.w + (int) p.back().x];
            if (admissible && std::fabs(l - best) > 1e-6 * (1 + best)) return mc::fmt("costs %g instead of %g: ", l, best) + show_path(p);
            if (std::fabs(p.back().distance - l) > 1e-6 * (1 + l)) return mc::fmt("reports the cost %g instead of %g: ", p.back().distance, l) + show_path(p);
            for (size_t i = 1; i < p.size(); ++i) if (!(p[i].distance > p[i - 1].distance)) return "its costs do not increase: " + show_path(p);
        }
    }
    return "";
}
template <class A> struct Planner { };
template <class A> typename A::PathT ask(A &a, const Query &q, SearchOptions so = SearchOptions())
{ mc::step(); try { return a.findPath(q.s, q.t, so); } catch (const OutsideMapException &) { } catch (const std::logic_error &) { } return typename A::PathT(); }
template <class P> uint64_t path_hash(const P &p) { mc::Hash h; for (auto &n : p) h.q(n.x).q(n.y); return h.h; }
// tolerance test of the grid neighbourhoods, and no goal at all if the goal cell is occupied or outside
struct Tolerance {
    const Grid &g; int gx, gy, d;
    Tolerance(const Grid &g, const Query &q, int d) : g(g), gx(std::floor(q.t.x)), gy(std::floor(q.t.y)), d(d) {}
    bool operator()(int x, int y) const { return g.in(gx, gy) && !g.occ(gx, gy) && std::abs(x - gx) <= d && std::abs(y - gy) <= d; }
};
typedef AStar2dSearch<DirectNeighborhood<4, 1>> L2_4;
typedef AStar2dSearch<DirectNeighborhood<8, 1>> L2_8;
typedef AStar2dTaxiSearch<DirectNeighborhood<4, 1>> L1_4;
typedef AStar2dInfSearch<DirectNeighborhood<8, 1>> LI_8;
typedef AStar2dSearch<DirectNeighborhood<8, 2>> L2_8x2;
typedef AStar2dTaxiSearch<DirectNeighborhood<8, 1>> L1_8;   // not admissible: only validity and completeness
typedef DijkstraSearch<DirectNeighborhood<8, 1>> NO_8;
typedef GenericSearchAlgorithm<GenericParameter<Pose2d, HeuristicL2, GridMap2d, DirectNeighborhood<4, 1>, NoExpansion, QueueManager, GridMapManager>> FIFO_4;   // breadth first
static size_t pick_first(size_t) { return 0; }
static size_t pick_last(size_t n) { return n - 1; }
static size_t pick_mid(size_t n) { return n / 2; }
static size_t (*POLICY[3])(size_t) = {pick_first, pick_last, pick_mid};

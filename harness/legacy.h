// reference for the legacy cell planner
#pragma once
#include "mc.h"
#include <cslibs_path_planning/a_star/AStar.h>
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <memory>
#include <algorithm>
using namespace lib_path;
struct Grid { int w, h; std::vector<uint8_t> v; bool free(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h && v[y * w + x] <= 50; } };
inline std::string show(const Grid &g) { std::string s = mc::fmt("%dx%d:", g.w, g.h); for (int y = 0; y < g.h; ++y) { s += y ? "/" : ""; for (int x = 0; x < g.w; ++x) s += g.v[y * g.w + x] <= 50 ? '.' : g.v[y * g.w + x] < 200 ? '?' : '#'; } return s; }
// cheapest cost from every cell to the goal, moving over free cells (the goal itself may be anything)
inline std::vector<double> dijkstra(const Grid &g, int goal)
{
    int n = g.w * g.h; std::vector<double> d(n, INFINITY); std::vector<char> done(n, 0); d[goal] = 0;
    for (;;) {
        int b = -1; for (int i = 0; i < n; ++i) if (!done[i] && std::isfinite(d[i]) && (b < 0 || d[i] < d[b])) b = i;
        if (b < 0) return d;
        done[b] = 1; int x = b % g.w, y = b / g.w;
        for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) {
            if (!dx && !dy) continue; int nx = x + dx, ny = y + dy; if (!g.free(nx, ny)) continue;
            double c = d[b] + (dx && dy ? std::sqrt(2.0) : 1.0); int k = ny * g.w + nx; if (c < d[k]) d[k] = c;
        }
    }
}
struct Result { bool ok; path_t path; };
inline Result plan(AStar &a, int sx, int sy, int gx, int gy)
{
    waypoint_t s, g; s.x = sx; s.y = sy; g.x = gx; g.y = gy; Result r; r.ok = a.planPath(s, g); r.path = *a.getLastPath(); mc::step(); return r;
}
inline std::string show(const path_t &p) { std::string s; for (auto &w : p) s += mc::fmt("(%d,%d)", w.x, w.y); return s; }
inline double length(const path_t &p) { double l = 0; for (size_t i = 1; i < p.size(); ++i) l += (p[i].x != p[i - 1].x && p[i].y != p[i - 1].y) ? std::sqrt(2.0) : 1.0; return l; }
static double max_slack = 0;
// the code compares totals as integers and never reopens: up to one unit may be lost per step; the maps explored lose far less
inline double slack_limit(const Grid &g, double best) { return g.w * g.h <= 20 ? 1.0 : 1.0 + 0.25 * best; }
// slack: bound on the excess over the cheapest path
inline void judge(const Grid &g, const Result &r, int sx, int sy, int gx, int gy, const std::vector<double> *dist, const char *what)
{
    auto in = [&](int x, int y) { return x >= 0 && y >= 0 && x < g.w && y < g.h; };
    std::string q = mc::fmt("%s: map %s plan (%d,%d)->(%d,%d)", what, show(g).c_str(), sx, sy, gx, gy);
    bool want = in(sx, sy) && in(gx, gy); double best = 0;
    if (want) { std::vector<double> tmp; if (!dist) { tmp = dijkstra(g, gy * g.w + gx); dist = &tmp; } best = (*dist)[sy * g.w + sx]; want = std::isfinite(best); }
    if (r.ok != want) mc::fail("%s: returned %s, but the goal is %s", q.c_str(), r.ok ? "true" : "false", want ? "reachable" : "not reachable");
    if (!want) { if (!r.path.empty()) mc::fail("%s: failed, but the last path is %s", q.c_str(), show(r.path).c_str()); mc::exec(); return; }
    const path_t &p = r.path;
    if (p.empty() || p.front().x != sx || p.front().y != sy || p.back().x != gx || p.back().y != gy) mc::fail("%s: path %s does not run from start to goal", q.c_str(), show(p).c_str());
    for (size_t i = 0; i < p.size(); ++i) {
        if (!in(p[i].x, p[i].y)) mc::fail("%s: path %s leaves the map", q.c_str(), show(p).c_str());
        if (i + 1 < p.size() && !g.free(p[i].x, p[i].y)) mc::fail("%s: path %s crosses the non-free cell (%d,%d)", q.c_str(), show(p).c_str(), p[i].x, p[i].y);
        if (i && (abs(p[i].x - p[i - 1].x) > 1 || abs(p[i].y - p[i - 1].y) > 1 || (p[i].x == p[i - 1].x && p[i].y == p[i - 1].y))) mc::fail("%s: path %s is not connected", q.c_str(), show(p).c_str());
        for (size_t k = 0; k < i; ++k) if (p[k].x == p[i].x && p[k].y == p[i].y) mc::fail("%s: path %s visits a cell twice", q.c_str(), show(p).c_str());
    }
    double l = length(p), slack = l - best; if (slack > max_slack) max_slack = slack;
    if (slack < -1e-6) mc::fail("%s: path %s is shorter than the reference optimum %g (oracle error)", q.c_str(), show(p).c_str(), best);
    if (slack > slack_limit(g, best) + 1e-6) mc::fail("%s: path %s costs %g, the cheapest costs %g", q.c_str(), show(p).c_str(), l, best);
    mc::exec(); if (p.size() > 2) mc::nontrivial();
    mc::Hash h; for (auto &w : p) h.u(w.x).u(w.y); h.u(g.w).u(g.h); mc::state(h.h);
}
inline std::unique_ptr<SimpleGridMap2d> to_map(const Grid &g)
{ std::unique_ptr<SimpleGridMap2d> m(new SimpleGridMap2d(g.w, g.h, 0.5)); m->setOrigin(Point2d(-1.5, 2.25)); m->set(g.v, g.w, g.h); return m; }

// C30: searches that complete their path by a Reeds-Shepp curve
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include <unistd.h>
#include <sys/wait.h>
using mc::Dec;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD> SN;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD> SNF;
template <int N> using E = ReedsSheppExpansion<N, true, false>;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, E<1>> D1; typedef AStarDynamicSearch<DynamicSteeringNeighborhood, E<10>> D10; typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion> D0;
typedef AStarDynamicSearch<SN, E<1>> S1; typedef AStarDynamicSearch<SN, E<10>> S10; typedef AStarDynamicSearch<SN, NoExpansion> S0;
typedef AStarDynamicSearch<SNF, E<3>> F3; typedef AStarDynamicSearch<SNF, NoExpansion> F0;
static double wrap(double a) { return std::atan2(std::sin(a), std::cos(a)); }
struct P { double x, y, th; bool fwd; };
struct Answer { std::vector<P> p; int steps = 0; };
template <class A> Answer ask(const GridMap2d *m, const Query &q, int cap, A *keep = nullptr)
{
    A own; A &a = keep ? *keep : own; a.setMap(m); a.setTimeLimit(3); clock_reads = 0; clock_step_ns = 0; clock_jump_at = cap; mc::step(); Answer r; typename A::PathT p;
    try { p = a.findPath(q.s, q.t); } catch (const OutsideMapException &) {} catch (const std::logic_error &) {} for (auto &n : p) r.p.push_back({n.x, n.y, n.theta, n.forward}); r.steps = a.getExpansions(); return r;
}
static std::string show(const std::vector<P> &p) { std::string s; for (auto &n : p) s += mc::fmt("(%.3f,%.3f,%.3f%s)", n.x, n.y, n.th, n.fwd ? ">" : "<"); return s; }
static bool solid(const Grid &g, double x, double y, bool any)    // any: every cell within three is occupied
{ for (int dy = -3; dy <= 3; ++dy) for (int dx = -3; dx <= 3; ++dx) { int u = (int) std::floor(x) + dx, v = (int) std::floor(y) + dy; if (!(g.in(u, v) && g.occ(u, v))) return false; } return true; }
// steer: largest curvature of the neighbourhood (1/m); step: its longest move (m)
static std::string judge(const Grid &g, const Answer &a, const Query &q, double kappa, double step)
{
    auto &p = a.p; if (p.empty()) return ""; double r = g.res;
    if (std::fabs(p[0].x - q.s.x) >= 1 || std::fabs(p[0].y - q.s.y) >= 1) return "does not start at the start";
    for (size_t i = 0; i < p.size(); ++i) {
        if (!std::isfinite(p[i].x) || !std::isfinite(p[i].y) || !std::isfinite(p[i].th)) return mc::fmt("way-point %zu is not a pose", i);
        if (solid(g, p[i].x, p[i].y, true)) return mc::fmt("way-point %zu lies inside of an obstacle", i);
        if (!i) continue; const P &o = p[i - 1], &n = p[i]; double dx = (n.x - o.x) * r, dy = (n.y - o.y) * r, c = std::hypot(dx, dy), dth = wrap(n.th - o.th);
        if (c > step + 1e-6) return mc::fmt("jumps by %g from way-point %zu", c, i - 1);
        // an arc (or a straight with an arc) of bounded curvature: arc length at most chord / sinc
        double kmax = std::max(kappa, 1 / 1.3); if (std::fabs(dth) > kmax * c * 1.12 + 2e-3) return mc::fmt("turns by %g over %g from way-point %zu", dth, c, i - 1);
        if (c > 1e-4) { double along = std::atan2(dy, dx), mid = o.th + dth / 2; if (!n.fwd) mid += M_PI; double slack = std::fabs(dth) / 2 + 0.02; if (std::fabs(wrap(along - mid)) > slack) return mc::fmt("moves sideways by %g at way-point %zu", wrap(along - mid), i - 1); }
    }
    return "";
}
static bool completed(const Answer &a, const Query &q) { if (a.p.empty()) return false; const P &e = a.p.back(); return std::hypot(e.x - std::floor(q.t.x), e.y - std::floor(q.t.y)) < 1e-3 && std::fabs(wrap(e.th - q.t.theta)) < 1e-3; }
static const double DIR8[] = {0, M_PI / 4, M_PI / 2, 3 * M_PI / 4, M_PI, -3 * M_PI / 4, -M_PI / 2, -M_PI / 4};
static Grid layout(int k, double res)
{
    int n = (int) std::lround(12 / res); Grid g{n, n, res, std::vector<uint8_t>(n * n)}; auto box = [&](double x0, double y0, double x1, double y1, int v) { for (int y = 0; y < n; ++y) for (int x = 0; x < n; ++x) if (x * res >= x0 && x * res < x1 && y * res >= y0 && y * res < y1) g.c[y * n + x] = v; };
    if (k == 1) box(5, 5, 7.5, 7.5, 2); if (k == 2) box(5, 0, 7.5, 9, 2); if (k == 3) { box(3.5, 3.5, 6, 12, 2); box(7.5, 0, 9.5, 7, 2); } if (k == 4) { box(3, 3, 11, 11, 2); box(5, 5, 9, 9, 0); }   // closed ring around (7,7)
    return g;
}
static std::string show(const Query &q, const Grid &g) { return mc::fmt("(%.2f,%.2f,%.2f)->(%.2f,%.2f,%.2f) on %dx%d cells of %g", q.s.x, q.s.y, q.s.theta, q.t.x, q.t.y, q.t.theta, g.w, g.h, g.res); }
template <class A, class N> void one(const char *name, const Grid &g, const GridMap2d *m, const Query &q, double kappa, double step, int cap, bool blocked)
{
    Answer a = ask<A>(m, q, cap), b = ask<N>(m, q, cap); mc::exec(2); std::string e = judge(g, a, q, kappa, step);
    if (e.empty() && a.p.empty() && !b.p.empty()) e = "no path, but one without completion";
    if (e.empty() && blocked && !a.p.empty()) e = "a path through a wall";
    if (e.empty() && !a.p.empty() && b.p.empty() && !completed(a, q)) e = "neither completed to the goal nor found without completion";
    if (!e.empty()) mc::fail("%s %s: %s %s", name, show(q, g).c_str(), e.c_str(), show(a.p).c_str());
    if (completed(a, q) && a.p.size() > 3) mc::nontrivial(); mc::Hash h; for (auto &x : a.p) h.q(x.x).q(x.y).q(x.th); mc::state(h.h);
}
static void defaults() { typedef DynamicSteeringNeighborhood DSN; DSN::distance_step = 1.0; DSN::MAX_STEER_ANGLE = 60; DSN::STEER_DELTA = 30; DSN::steer_steps = 1; DSN::LA = 1.2; DSN::allow_forward = true; DSN::allow_backward = true; DSN::reversed = false; DSN::goal_dist_threshold = 0.5; DSN::goal_angle_threshold = M_PI / 8; verif_queue_dedup = 1; }
// the state of completions lives as long as the process: answers of histories are computed in a process of their own
static Answer in_child(const std::function<Answer()> &fn)
{
    int fd[2]; if (pipe(fd)) mc::fail("pipe"); pid_t pid = fork();
    if (!pid) { close(fd[0]); Answer a = fn(); std::string b; auto put = [&](double v) { b.append((char *) &v, sizeof v); }; put(a.p.size()); put(a.steps); for (auto &x : a.p) { put(x.x); put(x.y); put(x.th); put(x.fwd); } size_t o = 0; while (o < b.size()) { ssize_t n = write(fd[1], b.data() + o, b.size() - o); if (n <= 0) _exit(3); o += n; } _exit(0); }
    close(fd[1]); std::string b; char buf[4096]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) b.append(buf, n); close(fd[0]); int st = 0; waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) || b.size() < 16) mc::fail("the search ended the process (%d)", st);
    const double *v = (const double *) b.data(); Answer a; a.steps = v[1]; for (size_t i = 0; i < (size_t) v[0]; ++i) a.p.push_back({v[2 + 4 * i], v[3 + 4 * i], v[4 + 4 * i], v[5 + 4 * i] != 0}); return a;
}
struct HQ { int lay; Query q; int cap; };
template <class A, class B> static void history(const std::vector<HQ> &h, bool one_object, bool other_first)
{
    std::vector<std::unique_ptr<SimpleGridMap2d>> maps; for (int k = 0; k < 5; ++k) maps.push_back(to_map(layout(k, 0.5)));
    auto run = [&](size_t from) { return in_child([&, from]() { A a; Answer r; for (size_t k = from; k < h.size(); ++k) { if (other_first && k + 1 < h.size()) ask<B>(maps[h[k].lay].get(), h[k].q, h[k].cap); else r = ask<A>(maps[h[k].lay].get(), h[k].q, h[k].cap, one_object ? &a : nullptr); } return r; }); };
    Answer a = run(0), b = run(h.size() - 1); mc::exec(2); std::string w; for (auto &x : h) w += mc::fmt("layout %d (%.1f,%.1f,%.2f)->(%.1f,%.1f,%.2f) limit %d; ", x.lay, x.q.s.x, x.q.s.y, x.q.s.theta, x.q.t.x, x.q.t.y, x.q.t.theta, x.cap);
    bool same = a.p.size() == b.p.size() && a.steps == b.steps; for (size_t i = 0; same && i < a.p.size(); ++i) same = std::hypot(a.p[i].x - b.p[i].x, a.p[i].y - b.p[i].y) < 1e-9 && std::fabs(a.p[i].th - b.p[i].th) < 1e-9;
    if (!same) mc::fail("history %sends with %d steps and %zu poses, the last search alone with %d steps and %zu poses", w.c_str(), a.steps, a.p.size(), b.steps, b.p.size());
    if (b.p.size() > 3) mc::nontrivial(); mc::state(mc::Hash().u(b.steps).u(b.p.size()).h);
}
void mc_setup()
{
    mc::family("single searches", (uint64_t) 5 * 5 * 8 * 6 * (mc::thorough ? 8 : 3) * 2, [](uint64_t i) {
        Dec d(i); int k = d(5), lay = d(5), h = d(8), gi = d(6), gh = mc::thorough ? d(8) : (i / 3 + 3 * d(3)) % 8; double res = d(2) ? 0.25 : 0.5; defaults(); mc::pick_policy = POLICY[i % 3]; Grid g = layout(lay, res); auto m = to_map(g);
        static const double G[6][2] = {{10, 2}, {10, 10}, {9, 6}, {2, 9.5}, {3.2, 2.4}, {10.6, 11}}; Query q{{2 / res, 2 / res, DIR8[h]}, {G[gi][0] / res, G[gi][1] / res, DIR8[gh] + 0.05}}; mc::describe(show(q, g)); bool blocked = lay == 4; if (blocked) { q.t.x = (6 + gi * 0.4) / res; q.t.y = 7 / res; } double kd = std::tan(M_PI / 3) / 1.2; int cap = mc::thorough ? 400 : 60;
        switch (k) { case 0: one<D1, D0>("dynamic, completion 1", g, m.get(), q, kd, 1.2, cap, blocked); break; case 1: one<D10, D0>("dynamic, completion 10", g, m.get(), q, kd, 1.2, cap, blocked); break; case 2: one<S1, S0>("static, completion 1", g, m.get(), q, kd, 1.2, cap, blocked); break; case 3: one<S10, S0>("static, completion 10", g, m.get(), q, kd, 1.2, cap, blocked); break; default: one<F3, F0>("forward, completion 3", g, m.get(), q, kd, 1.2, cap, blocked); } }, 16, 120);
    static const double T[5][5] = {{2, 2, 0, 10, 10, }, {2, 2, 1.57, 4, 9, }, {10, 2, 3.1, 2.5, 2.5}, {2, 9, 0, 10, 3}, {7, 7, 0, 10.5, 1}};
    int depth = mc::thorough ? 3 : 2;
    mc::family("histories", mc::ipow(20, depth) * 4 * 2, [depth](uint64_t i) { Dec d(i); defaults(); mc::pick_policy = POLICY[0]; int kind = d(4); bool one = d(2); std::vector<HQ> h; for (int k = 0; k < depth; ++k) { int q = d(5), lay = (int[]){0, 3}[d(2)], cap = (int[]){5, 120}[d(2)]; h.push_back({lay, {{T[q][0] * 2, T[q][1] * 2, T[q][2]}, {T[q][3] * 2, T[q][4] * 2, T[q][2]}}, cap}); } if (h.back().cap == 5) return;
        switch (kind) { case 0: history<D1, D1>(h, one, false); break; case 1: history<D10, D10>(h, one, false); break; case 2: history<S10, S10>(h, one, false); break; default: history<S10, D10>(h, one, true); } }, 8, 120);
    mc::bound("five planners (configurable, static, forward only; completion tried at every, third or tenth step) x 5 layouts of a 12x12 m area at resolutions 0.25 and 0.5 x 8 start headings x 6 goals x %d goal headings, searches cut after %d readings of the clock; all histories of %d searches over 5 queries, 2 layouts, 2 time limits for 3 planners and one pair of planners, on one object and on several, each compared with the last search alone in a process of its own", mc::thorough ? 8 : 3, mc::thorough ? 400 : 60, depth);
    mc::assumption("the completion uses its fixed radius of 1.3 m; collisions of the completing curve are judged up to three cells of raster tolerance");
}

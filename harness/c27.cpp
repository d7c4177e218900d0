// C27: schedule of the progress callbacks
#include "generic.h"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
// steps at which the callback is due: the first, every one up to the start limit, then every n-th
static bool due(int n, int s, long step) { if (n == 0) return false; int f = std::max(1, s); return step <= f || (step - f) % n == 0; }
template <class A> struct Cells { A *a; std::vector<std::pair<int, int>> c; const Pose2d *h; bool terminate(const typename A::NodeT *n) const { for (auto &p : c) if ((int) std::floor(n->x) == p.first && (int) std::floor(n->y) == p.second) { a->addGoalCandidate(n, 1); return true; } return false; } const Pose2d *getHeuristicGoal() const { return h; } };
struct Result { std::vector<long> calls; long steps, touched; bool thrown = false, found; uint64_t path; };
struct Stop {};
enum { PLAIN, OVER, TEST, NKIND };
template <class A> Result run(A &a, const Query &q, int kind, bool callback, boost::function<void()> extra = boost::function<void()>(), long stop_at = -1)
{
    Result r; auto cb = [&]() { r.calls.push_back(a.getExpansions()); if (extra) extra(); if ((long) r.calls.size() == stop_at) throw Stop(); }; typename A::PathT p; SearchOptions so; if (kind == OVER) so.oversearch_distance = 0.7; Cells<A> t; t.a = &a; t.h = &q.t; t.c.push_back({(int) std::floor(q.t.x), (int) std::floor(q.t.y)}); mc::step(); mc::exec();
    try { if (kind == TEST) p = callback ? a.findPath(q.s, t, boost::function<void()>(cb), so) : a.findPath(q.s, t, so); else p = callback ? a.findPath(q.s, q.t, boost::function<void()>(cb), so) : a.findPath(q.s, q.t, so); } catch (const Stop &) { r.thrown = true; } catch (const OutsideMapException &) { r.thrown = true; } catch (const std::logic_error &) { r.thrown = true; }
    r.steps = a.getExpansions(); r.touched = a.getTouchedNodes(); r.found = !p.empty(); r.path = path_hash(p); return r;
}
static std::string list(const std::vector<long> &v) { std::string s; for (size_t i = 0; i < v.size() && i < 20; ++i) s += mc::fmt(" %ld", v[i]); return s; }
static void check(const Result &r, int n, int s, const std::string &what, bool stopped = false, bool exhausted = true)
{
    std::vector<long> want; for (long k = 1; k < r.steps; ++k) if (due(n, s, k)) want.push_back(k);
    std::vector<long> alt = want; if (r.steps > 0 && due(n, s, r.steps)) alt.push_back(r.steps);   // the last step takes no callback when it reached the goal
    bool ok = r.calls == want || r.calls == alt; if (stopped && r.calls != alt) ok = false; if (exhausted && !r.thrown && !r.found && r.calls != alt) ok = false;
    if (!ok) mc::fail("%s: %ld steps, callback every %d steps after the first %d: called in steps%s instead of%s", what.c_str(), r.steps, n, s, list(r.calls).c_str(), list(alt).c_str()); if (r.calls.size() > 2) mc::nontrivial(); mc::state(mc::Hash().u(n).u(s).u(r.steps).u(r.calls.size()).h);
}
template <int N, int S> struct Grid8 : AStar2dSearch<DirectNeighborhood<8, 1>, NoExpansion, Pose2d, GridMap2d, N, S> { };
template <int N, int S> struct Steer : AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, N, S> { };
static const char *MAPS[] = {"...../.#.#./...../.##../.....", "....", "..#../..#../..#../..#..", "......../......../......../........", "."};
// histories of queries on one planner, each with a fresh planner without callbacks beside it
template <int N, int S> void history(uint64_t i)
{
    Dec d(i); Grid8<N, S> a; int m = d(5); Grid g = parse(MAPS[m], 0.5); auto map = to_map(g); a.setMap(map.get()); std::string h = show(g);
    for (int k = 0; k < 3; ++k) {
        int kind = d(NKIND), w = d(4); static const double P[4][4] = {{0, 0, 9, 9}, {0, 0, 0, 0}, {9, 0, 0, 9}, {0, 9, 1, 0}}; auto c = [](double v, int n) { return std::min(v, (double) n - 1); }; Query q{Pose2d(c(P[w][0], g.w), c(P[w][1], g.h), 0), Pose2d(c(P[w][2], g.w), c(P[w][3], g.h), 0)}; h += mc::fmt(" %s kind %d", show(q).c_str(), kind);
        auto fresh = [&]() { Grid8<0, 0> b; b.setMap(map.get()); return run(b, q, kind, false); }; bool cb = d(3) != 2; Result r = run(a, q, kind, cb), f = fresh(); if (cb) check(r, N, S, h, false, kind != TEST); else if (!r.calls.empty()) mc::fail("%s: called although no callback was given", h.c_str());
        if (r.path != f.path || r.steps != f.steps || r.touched != f.touched) mc::fail("%s: the result differs from that of a search without callbacks (steps %ld, %ld)", h.c_str(), r.steps, f.steps);
    }
}
// a search stopped by an exception of its k-th callback, or containing a complete other search, must not shift later schedules
template <int N, int S> void disturbed(uint64_t i)
{
    Dec d(i); Grid g = parse(MAPS[d(4)], 1); auto map = to_map(g); Grid8<N, S> a, b; a.setMap(map.get()); b.setMap(map.get()); Query q{Pose2d(0, 0, 0), Pose2d(g.w - 1, g.h - 1, 0)}; int mode = d(2), at = d(6) + 1; std::string h = mc::fmt("%s mode %d at %d", show(g).c_str(), mode, at);
    if (mode == 0) { Result r = run(a, q, PLAIN, true, boost::function<void()>(), at); check(r, N, S, h + " (stopped)", r.thrown); if (r.thrown && (int) r.calls.size() != at) mc::fail("%s: stopped by the wrong callback", h.c_str()); }
    else { int n = 0; Result r = run(a, q, PLAIN, true, [&]() { if (++n == at) { Result r2 = run(b, q, PLAIN, true); check(r2, N, S, h + " (inner)"); } }); check(r, N, S, h + " (outer)"); }
    check(run(a, q, OVER, true), N, S, h + " (next)"); check(run(b, q, PLAIN, true), N, S, h + " (other planner)");
}
template <int N, int S> void steering(uint64_t i)
{
    Dec d(i); Grid g = parse(".........../.........../.....#...../.....#...../.........../..........."); auto map = to_map(g); Steer<N, S> a; a.setMap(map.get()); Query q{Pose2d(2, 2, 0), Pose2d(d(6) % 2 ? 8 : 3, 4, 0.2)};
    for (int k = 0; k < 2; ++k) { int n = 0; Result r = run(a, q, PLAIN, true, [&]() { if (++n > 60) throw Stop(); }); check(r, N, S, "steering search"); }
}
// a complete search on a map of another resolution inside the k-th callback
static void nested(uint64_t i)
{
    Dec d(i); static const char *M = ".........../.........../.....#...../.....#...../.........../..........."; Grid g = parse(M), g2 = parse(M, d(2) ? 0.5 : 2); auto m = to_map(g), m2 = to_map(g2); int at = d(30) + 1; bool other = d(2); typedef AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 0> St;
    Query q{Pose2d(2, 2, 0), Pose2d(8, 4, 0.2)}; Result r[2];
    for (int k = 0; k < 2; ++k) { int n = 0; if (other) { struct A : St { } a; a.setMap(m.get()); r[k] = run(a, q, PLAIN, true, [&]() { if (++n == at && k) { A b; b.setMap(m2.get()); int c = 0; run(b, q, PLAIN, true, [&]() { if (++c > 8) throw Stop(); }); } if (n > 60) throw Stop(); }); } else { Steer<1, 0> a; a.setMap(m.get()); r[k] = run(a, q, PLAIN, true, [&]() { if (++n == at && k) { Steer<1, 0> b; b.setMap(m2.get()); int c = 0; run(b, q, PLAIN, true, [&]() { if (++c > 8) throw Stop(); }); } if (n > 60) throw Stop(); }); } }
    if (r[0].path != r[1].path || r[0].steps != r[1].steps || r[0].touched != r[1].touched || r[0].calls != r[1].calls) mc::fail("a search on a map of resolution %g inside callback %d changes the outer search on resolution 1", g2.res, at); mc::nontrivial();
}
// the schedule object itself, two instances used alternately in every order
template <int N, int S> void object(uint64_t i)
{
    generic::CallbackIntermission<N, S> o[2]; long steps[2] = {0, 0}; for (int k = 0; k < 14; ++k) { int w = i >> k & 1; bool copy = (i >> (k % 5) & 2); int calls = 0, from = 1000 + k, to = -1; auto cb = [&]() { ++calls; }; ++steps[w]; if (copy) o[w].callAndCopy(cb, from, to); else o[w].call(cb); mc::step();
        bool want = due(N, S, steps[w]); if (calls != want) mc::fail("schedule every %d after %d: step %ld of instance %d called the callback %d times", N, S, steps[w], w, calls); if (copy && to != (want ? from : -1)) mc::fail("schedule every %d after %d: step %ld %s the value", N, S, steps[w], want ? "does not copy" : "copies"); }
    mc::exec(); mc::state(mc::Hash().u(N).u(S).u(i).h); mc::nontrivial();
}
template <int N, int S> void add()
{
    std::string n = mc::fmt(", every %d steps after %d", N, S);
    mc::family("query histories" + n, mc::thorough ? 5 * 46656 : 5 * 1296, history<N, S>); mc::family("stopped and nested searches" + n, 48, disturbed<N, S>); mc::family("schedule objects" + n, mc::thorough ? 1 << 14 : 1 << 10, object<N, S>);
}
template <int N> void row() { add<N, 0>(); add<N, 1>(); add<N, 2>(); add<N, 3>(); add<N, 7>(); }
void mc_setup()
{
    row<0>(); row<1>(); row<2>(); row<3>(); row<5>();
    mc::family("steering searches", 6, steering<1, 0>); mc::family("steering searches, every 4 after 3", 6, steering<4, 3>); mc::family("steering searches, every 3 after 10", 6, steering<3, 10>);
    mc::family("nested steering searches, another resolution", 120, nested);
    mc::family("no intermission", 100, [](uint64_t i) { generic::NoIntermission n; int calls = 0, from = (int) i, to = -1; auto cb = [&]() { ++calls; }; for (uint64_t k = 0; k < i; ++k) { n.call(cb); n.callAndCopy(cb, from, to); } mc::exec(); mc::step(i); if (calls || to != -1) mc::fail("a search without intermission calls back or copies"); });
    mc::bound("25 schedules (every 0,1,2,3,5 steps after 0,1,2,3,7) x all histories of %s searches (plain, oversearch, goal test; with or without callback) on 5 maps; every search stopped by its 1st..6th callback or containing another search; two schedule objects alternating in all orders of 14 steps; steering searches up to 60 calls, with a search on a map of another resolution inside each of the first 30 callbacks", mc::thorough ? "three" : "two");
}

// C04: a search may be stopped at any point: no broken result, and the planner stays usable
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <boost/thread.hpp>
using mc::Dec;
typedef AStar2dSearch<DirectNeighborhood<8, 1>, NoExpansion, Pose2d, GridMap2d, 1> G8;
typedef AStar2dTaxiSearch<DirectNeighborhood<4, 1>, NoExpansion, Pose2d, GridMap2d, 1, 3> G4;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, 1> SD;
template <class A> struct Kind { enum { STEER = 0, N = 8 }; };
template <> struct Kind<G4> { enum { STEER = 0, N = 4 }; };
template <> struct Kind<SD> { enum { STEER = 1, N = 8 }; };
static const char *MAPS[] = {"...../.##../...#./.#...", ".../.../...", "..#../#..#./.....", "......./..#..../.####../......./...#...", "#../###/..."};
static const double MRES[] = {1, 0.5, 0.05, 2, 1};
struct Boom { int x; };
struct Run { int end; std::vector<Pose2d> p; double cost; int steps; std::string msg; };   // end: 0 returned, 1 Boom, 2 interrupted, 3 other exception
enum { COMPLETE, CLOCK, NEVER, INTERRUPT, CALLBACK, GOALTEST, GOALTEST_INTERRUPT, BIG, ABORTS };
static const char *NAME[] = {"complete", "time limit expires at reading", "time limit that never expires", "interrupt at step", "callback throws at step", "goal test throws at", "interrupt in the goal test at", "huge time limit"};
template <class A> struct Test { A *a; int x, y, boom, d; boost::thread *t; mutable int *n; Pose2d hint; const Pose2d *getHeuristicGoal() const { return &hint; }
    bool terminate(const typename A::NodeT *c) const { if (++*n == boom) { if (t) t->interrupt(); else throw Boom{*n}; } if (std::abs(c->x - x) > d || std::abs(c->y - y) > d) return false; a->addGoalCandidate(c, 0); return true; } };
// run one query, stopped at k; way: 0 poses, 1 oversearch
// grid planners: the clock jumps just past the limit (CLOCK) or to just before it (NEVER)
static const double LIMIT[] = {2.0, 0.5, 0.02, 1.75};
template <class A> Run run(A &a, const Query &q, int abort, int k, int way)
{
    Run r; r.end = 0; r.cost = 0; int n = 0, steps = 0; clock_reads = 0; clock_now_ns = 1000000000ll; clock_step_ns = 0; clock_jump_at = -1; clock_jump_ns = 3600ll * 1000000000ll; mc::step();
    a.setTimeLimit(-1.0); SearchOptions so; if (way == 1) so.oversearch_distance = 1.5 * a.getMapManager().getResolution();
    double limit = LIMIT[std::abs(k) % 4]; if (abort == CLOCK) { a.setTimeLimit(limit); clock_jump_at = k; if (!Kind<A>::STEER) clock_jump_ns = limit * 1.01e9 + 2000000; } else if (abort == NEVER) { a.setTimeLimit(limit); if (!Kind<A>::STEER) { clock_jump_at = 2 + k / 4; clock_jump_ns = limit * 0.98e9 - 2000000; } } else if (abort == BIG) a.setTimeLimit(1e6);
    if (Kind<A>::STEER && abort != CLOCK && abort != NEVER && abort != BIG) { a.setTimeLimit(2.0); clock_jump_at = 100; }   // bound on steering searches
    if (Kind<A>::STEER && (abort == NEVER || abort == BIG)) clock_jump_at = 100;
    if (Kind<A>::STEER && abort == BIG) a.setTimeLimit(10.0);
    typename A::PathT p; boost::thread *self = nullptr;
    auto go = [&] {
        try {
            if (abort == GOALTEST || abort == GOALTEST_INTERRUPT) { Test<A> t{&a, (int) q.t.x, (int) q.t.y, k, Kind<A>::STEER ? 1 : 0, abort == GOALTEST ? nullptr : self, &n, q.t}; p = a.findPath(q.s, t, so); }
            else p = a.findPath(q.s, q.t, [&] { ++steps; if (abort == CALLBACK && steps == k) throw Boom{k}; if (abort == INTERRUPT && steps == k) self->interrupt(); }, so);
        } catch (const Boom &b) { r.end = b.x == k ? 1 : 3; } catch (const boost::thread_interrupted &) { r.end = 2; } catch (const OutsideMapException &) { r.end = 3; r.msg = "outside"; } catch (const std::logic_error &e) { r.end = 3; r.msg = e.what(); }
    };
    if (abort == INTERRUPT || abort == GOALTEST_INTERRUPT) {
        boost::mutex mtx; boost::condition_variable cv; bool ready = false;
        boost::thread th([&] { { boost::this_thread::disable_interruption di; boost::unique_lock<boost::mutex> l(mtx); while (!ready) cv.wait(l); } go(); });
        self = &th; if (abort == INTERRUPT && k == 0) th.interrupt();
        { boost::unique_lock<boost::mutex> l(mtx); ready = true; } cv.notify_all(); th.join();
    } else go();
    r.steps = (abort == GOALTEST || abort == GOALTEST_INTERRUPT) ? n : steps; for (auto &x : p) r.p.push_back(x); if (!p.empty()) r.cost = p.back().distance;
    return r;
}
struct PP { double x, y, distance; };
template <class A> std::string valid(const Grid &g, const Run &r, const Query &q, bool test)
{
    if (r.p.empty()) return "";
    if (Kind<A>::STEER) { for (auto &p : r.p) { int x = std::floor(p.x), y = std::floor(p.y); if (g.in(x, y) && g.occ(x, y)) return "crosses an occupied cell"; } return ""; }
    std::vector<PP> p; for (size_t i = 0; i < r.p.size(); ++i) p.push_back({r.p[i].x, r.p[i].y, 0});
    return judge(g, p, q, Kind<A>::N, 1, VALID, true, Tolerance(g, q, test ? 0 : 1));
}
template <class A> void stops(uint64_t i)
{
    DynamicSteeringNeighborhood::distance_step = 1.0; DynamicSteeringNeighborhood::MAX_STEER_ANGLE = 60; DynamicSteeringNeighborhood::STEER_DELTA = 30; DynamicSteeringNeighborhood::steer_steps = 1; DynamicSteeringNeighborhood::allow_backward = true; DynamicSteeringNeighborhood::goal_dist_threshold = 1.0; DynamicSteeringNeighborhood::goal_angle_threshold = 1.0;
    Dec d(i); int mi = d(5), way = d(2); verif_queue_dedup = d(2); int pol = d(3); mc::pick_policy = POLICY[pol];
    Grid g = parse(MAPS[mi], Kind<A>::STEER ? 1.0 : MRES[mi]); int ab = 1 + d(ABORTS - 1); auto m = to_map(g); mc::describe(mc::fmt("%s, %s, %s", NAME[ab], way ? "oversearch" : "plain", show(g).c_str()));
    std::vector<Query> qs; qs.push_back({{0, 0, 0}, {g.w - 1.0, g.h - 1.0, 0}}); qs.push_back({{g.w - 1.0, g.h - 1.0, 0}, {0, 0, 0}}); qs.push_back({{0, 0, 0}, {0, 0, 0}}); if (!Kind<A>::STEER) { qs.push_back({{1, 0, 0}, {2.0, g.h - 1.0, 0}}); qs.push_back({{0, 0, 0}, {2, 0, 0}}); }
    bool test = ab == GOALTEST || ab == GOALTEST_INTERRUPT;
    for (auto &q : qs) {
        A ref; ref.setMap(m.get()); Run full = run(ref, q, test ? (int) GOALTEST : (int) COMPLETE, -1, way), fplain = run(ref, q, COMPLETE, -1, way);
        int K = ab == BIG ? 0 : ab == NEVER ? (Kind<A>::STEER ? 4 : 16) : full.steps + 3;
        if (Kind<A>::STEER && ab == CLOCK) K = std::min(K, 98);   // later than the cut of the reference: nothing to compare with
        for (int k = ab == INTERRUPT ? 0 : ab == CLOCK && Kind<A>::STEER ? 2 : 1; k <= std::max(K, 1); ++k) {
            if (Kind<A>::STEER && ab == CLOCK && k > 98) break;
            A a; a.setMap(m.get()); Run r = run(a, q, ab, k, way);
            std::string what = mc::fmt("%s %d, %s %s on %s", NAME[ab], k, way ? "oversearch" : "plan", show(q).c_str(), show(g).c_str());
            std::string e = valid<A>(g, r, q, test); if (!e.empty()) mc::fail("%s: %s", what.c_str(), e.c_str());
            bool hit = false;   // the stop came before the search had finished on its own
            if (ab == CALLBACK) { hit = k <= full.steps; if (hit != (r.end == 1)) mc::fail("%s: the exception of the callback %s", what.c_str(), hit ? "was swallowed" : "appeared although the callback never threw"); }
            else if (ab == GOALTEST) { hit = k <= full.steps; if (hit != (r.end == 1)) mc::fail("%s: the exception of the goal test %s", what.c_str(), hit ? "was swallowed" : "appeared although the test never threw"); }
            else if (ab == INTERRUPT) { if (r.end == 2) hit = true; if (r.end != 2 && k < full.steps) mc::fail("%s: the interruption had no effect", what.c_str()); }
            else if (ab == GOALTEST_INTERRUPT) { if (r.end == 2) hit = true; if (r.end != 2 && k < full.steps) mc::fail("%s: the interruption had no effect", what.c_str()); }
            else if (ab == CLOCK) hit = r.p.empty() && !full.p.empty();
            if (r.end == 3) mc::fail("%s: unexpected exception %s", what.c_str(), r.msg.c_str());
            if (r.end == 0 && r.steps > full.steps) mc::fail("%s: %d steps, an undisturbed search takes %d", what.c_str(), r.steps, full.steps);
            if (r.end == 0 && (ab == NEVER || ab == BIG || (ab == CLOCK && k > full.steps + 2 && k < 98)) && (r.p.size() != full.p.size() || std::fabs(r.cost - full.cost) > 1e-9)) mc::fail("%s: cost %g with %zu steps, without a time limit cost %g with %zu", what.c_str(), r.cost, r.p.size(), full.cost, full.p.size());
            if (ab == CLOCK && !Kind<A>::STEER && k >= 2 && k <= full.steps && r.steps >= k + 1) mc::fail("%s: still searching after %d steps", what.c_str(), r.steps);
            // the same object answers completely afterwards, the same and another query
            for (auto &q2 : {q, qs[1]}) {
                A f; f.setMap(m.get()); Run w = run(f, q2, COMPLETE, -1, way), s = run(a, q2, COMPLETE, -1, way);
                if (s.end != w.end || s.p.empty() != w.p.empty() || std::fabs(s.cost - w.cost) > 1e-6 * (1 + w.cost)) mc::fail("%s; then %s: cost %g with %zu steps, a fresh planner cost %g with %zu", what.c_str(), show(q2).c_str(), s.cost, s.p.size(), w.cost, w.p.size());
                std::string e2 = valid<A>(g, s, q2, false); if (!e2.empty()) mc::fail("%s; then %s: %s", what.c_str(), show(q2).c_str(), e2.c_str());
                if (Kind<A>::STEER) break;
            }
            mc::exec(); if (hit) mc::nontrivial(); mc::state(mc::Hash().u(k).u(ab).u(mi).u(r.end).u(r.steps).u(r.p.size()).h);
        }
    }
}
// analytic completions: can be asked for at every node, also at the start node, and the joined path stays connected
struct LineExpansion {
    static int reach; static std::vector<Pose2d> pts;
    template <class N, class M> static bool canExpand(const N *s, const N *g, const M *map)
    {
        int dx = g->x - s->x, dy = g->y - s->y; int n = std::max(std::abs(dx), std::abs(dy)); if (n > reach || n == 0 || (dx && dy && std::abs(dx) != std::abs(dy))) return false;
        int sx = (dx > 0) - (dx < 0), sy = (dy > 0) - (dy < 0); pts.clear();
        for (int i = 1; i <= n; ++i) { int x = s->x + i * sx, y = s->y + i * sy; if (!map->isFree((unsigned) x, (unsigned) y)) return false; pts.push_back(Pose2d(x, y, 0.5)); } return true;
    }
    template <class P> static void getPath(P *out) { for (auto &p : pts) { typename P::value_type n; P::value_type::init(n, p); out->push_back(n); } }
};
int LineExpansion::reach; std::vector<Pose2d> LineExpansion::pts;
static void expansions(uint64_t i)
{
    typedef AStar2dSearch<DirectNeighborhood<8, 1>, LineExpansion> A;
    Dec d(i); uint64_t c = d(4096); LineExpansion::reach = 1 + d(3); Grid g{4, 3, 1, std::vector<uint8_t>(12)}; for (int k = 0; k < 12; ++k) g.c[k] = c >> k & 1 ? 2 : 0; auto m = to_map(g); mc::describe(show(g) + mc::fmt(" completions over %d cells", LineExpansion::reach));
    mc::pick_policy = POLICY[i % 3]; verif_queue_dedup = i & 1;
    for (int s = i % 3; s < 12; s += 3) for (int t = 0; t < 12; ++t) {
        A a; a.setMap(m.get()); Query q{{s % 4 + 0., s / 4 + 0., 0}, {t % 4 + 0., t / 4 + 0., 0}};
        for (int rep = 0; rep < 2; ++rep) { auto p = ask(a, q); std::vector<PP> pp; for (auto &n : p) pp.push_back({n.x, n.y, 0}); std::string e = judge(g, pp, q, 8, 1, VALID, true, Tolerance(g, q, 1)); if (!e.empty()) mc::fail("completions: %s on %s: %s", show(q).c_str(), show(g).c_str(), e.c_str()); mc::exec(); if (p.size() > 1) mc::nontrivial(); }
    }
}
void mc_setup()
{
    mc::bound("every stop position (each clock reading, each step, each goal test, plus 3 beyond the end) of searches on 5 maps x up to 5 queries x plain/oversearch x open set discipline x 3 tie orders, for two grid planners and a steering planner; each followed by complete queries on the same object");
    mc::bound("time limits of 0.02, 0.5, 1.75 and 2 seconds, passed or missed by a few milliseconds"); mc::bound("analytic completions over up to 3 cells on every 4x3 map, twice per query");
    mc::assumption("steering searches are cut after 100 steps by the (explorer-owned) clock");
    uint64_t n = 5 * 2 * 2 * 3 * (ABORTS - 1);
    mc::family("8-connected", n, stops<G8>, 1, 60); mc::family("4-connected", n, stops<G4>, 1, 60);
    mc::family("steering", mc::thorough ? n : 20, [](uint64_t i) { if (mc::thorough) { stops<SD>(i); return; } static const int AB[] = {CLOCK, NEVER, INTERRUPT, CALLBACK, GOALTEST}; uint64_t mi = i % 4, ab = AB[i / 4]; stops<SD>(mi + 5 * ((i & 1) + 2 * (0 + 2 * (0 + 3 * (ab - 1))))); }, 1, 200);
    mc::family("analytic completions", 4096 * 3, expansions, 64);
}

// C28: two planners in two threads over shared maps, all interleavings within a preemption bound
#include "generic.h"
#include "interleave.h"
#include "c28.h"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
#include <cslibs_path_planning/generic/ReedsSheppExpansion.hpp>
#include <cslibs_path_planning/sampling/SamplingPlanner.h>
#include <cslibs_path_planning/sampling/RingGoalRegion.h>
#include <cslibs_path_planning/sampling/CentroidRadiusGoalRegion.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <sstream>
using mc::Dec;
// the shared map; every classification is a scheduling point
template <class M> struct Shared : M {
    using M::M; using M::isFree; using M::isOccupied; using M::isNoInformation;
    bool isFree(const unsigned x, const unsigned y, double t) const override { sched::point(); return M::isFree(x, y); }
    bool isOccupied(const unsigned x, const unsigned y, double t) const override { sched::point(); return M::isOccupied(x, y); }
    bool isNoInformation(const unsigned x, const unsigned y, double t) const override { sched::point(); return M::isNoInformation(x, y); }
};
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, 1, 0> Steer1;
typedef AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 0> Steer2;
typedef AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD>, NoExpansion, Pose2d, GridMap2d, 1, 0> Steer3;
typedef AStarDynamicHybridHeuristicsSearch<SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD>, NoExpansion, Pose2d, GridMap2d, 1, 0> Steer4;
typedef AStarDynamicSearch<SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD>, ReedsSheppExpansion<1, true, false>, Pose2d, GridMap2d, 1, 0> Completed;
typedef AStar2dSearch<DirectNeighborhood<8, 1>, NoExpansion, Pose2d, GridMap2d, 3, 2> Drawn;
template <class A> struct Cell1 { A *a; Pose2d g; bool terminate(const typename A::NodeT *n) const { if (!(std::fabs(n->x - g.x) < 1 && std::fabs(n->y - g.y) < 1)) return false; a->addGoalCandidate(n, 1); return true; } const Pose2d *getHeuristicGoal() const { return &g; } };
struct Job { int planner, map, work; };
struct Stop {};
// what a thread does: the queries of work `w`; the outcome is a hash of everything it returned
template <class A> uint64_t work(const GridMap2d *m, int w, bool steps)   // steps: every search is stopped by its callback after 60 steps
{
    mc::Hash h; A a; a.setMap(m); int W = m->getWidth() - 1, H = m->getHeight() - 1; Query q[3] = {{Pose2d(0, 0, 0), Pose2d(W, H, 0)}, {Pose2d(W, 0, 1.5), Pose2d(0, H, 1.6)}, {Pose2d(1, H, -1), Pose2d(1, 0, -1)}};
    auto ask = [&](int k, int kind) { int calls = 0; SearchOptions so; typename A::PathT p; auto cb = [&]() { if (++calls > 60) throw Stop(); };
        try { if (kind == 1) so.oversearch_distance = 0.6; if (kind == 3) { Cell1<A> t{&a, q[k].t}; p = steps ? a.findPath(q[k].s, t, boost::function<void()>(cb), so) : a.findPath(q[k].s, t, so); } else if (kind == 2 || steps) p = a.findPath(q[k].s, q[k].t, boost::function<void()>(cb), so); else p = a.findPath(q[k].s, q[k].t, so); } catch (const OutsideMapException &) { h.u(77); } catch (const Stop &) { h.u(78); } catch (const std::exception &) { h.u(79); }
        h.u(path_hash(p)).u(a.getExpansions()).u(a.getTouchedNodes()).u(calls); for (auto &n : p) h.q(n.theta).q(n.distance); };
    switch (w) { case 0: ask(0, 0); break; case 1: ask(1, 0); break; case 2: ask(0, 1); break; case 3: ask(2, 2); ask(0, 0); break; case 4: ask(2, 3); break; }
    return h.h;
}
// curves between poses and to sampled goals
static void curve_hash(mc::Hash &h, Curve *c) { if (!c) { h.u(3); return; } h.q(c->weight()).q(c->curve_arc()).u(c->is_valid()); c->reset_iteration(); while (c->has_next()) { Pose2d p = c->next(); h.q(p.x).q(p.y).q(p.theta); } delete c; }
static uint64_t curves(GridMap2d *m, int w)
{
    mc::Hash h; CurveGenerator g; for (auto t : w & 1 ? std::vector<const char *>{"LSL", "RSR", "LRL", "|LSR"} : std::vector<const char *>{"RLR", "LR|L", "RSL", "LRLR"}) { std::stringstream ss; g.parse(t, ss); }
    double r = m->getResolution(); g.set_circle_radius((w & 2 ? 1.4 : 1.1) * r); g.set_max_waypoint_distance(0.7 * r); g.set_cost_backwards(1 + w); if (w == 3) g.set_use_map_cost(true); int W = m->getWidth() - 1, H = m->getHeight() - 1;
    for (int k = 0; k < 3; ++k) curve_hash(h, g.find_path(Pose2d(1.3 + k, 1.2, 0.2 * k), Pose2d(W - 1.2, H - 1.1, 0.4 + k), m, (w + k) & 1)); return h.h;
}
static uint64_t sampled(GridMap2d *m, int w)
{
    mc::Hash h; CurveGenerator g; for (auto t : {"LSL", "RSR", "LSR", "RSL"}) { std::stringstream ss; g.parse(t, ss); } double r = m->getResolution(); g.set_circle_radius(1.2 * r); g.set_max_waypoint_distance(0.7 * r); SamplingPlanner p(&g, m);
    Point2d c(m->getWidth() * r * 0.6, m->getHeight() * r * 0.5); RingGoalRegion ring(c, (w & 1 ? -1.6 : 1.6) * r, 0); CentroidRadiusGoalRegion cent(Point2d(1.5 * r, 1.5 * r), c, 1.2 * r, 1.0); GoalRegion *g1 = w & 2 ? (GoalRegion *) &cent : &ring;
    curve_hash(h, p.createPath(Pose2d(1.4 * r, 1.3 * r, 0.3), g1, 4 + w)); return h.h;
}
enum { NPLAN = 14, NGRID = 6 };
static const char *NAME[NPLAN] = {"grid 8", "grid 4 L1", "grid 8 LInf", "grid 8 step 2", "grid 8 with callbacks", "grid 4", "configurable steering", "steering", "forward steering", "steering with obstacle heuristic", "cell planner", "steering with analytic completion", "curve generator", "curves to sampled goals"};
static uint64_t perform(int planner, GridMap2d *m, int w)
{
    switch (planner) {
    case 0: return work<L2_8>(m, w, false); case 1: return work<L1_4>(m, w, false); case 2: return work<LI_8>(m, w, false); case 3: return work<L2_8x2>(m, w, false); case 4: return work<Drawn>(m, w, false); case 5: return work<L2_4>(m, w, false);
    case 6: return work<Steer1>(m, w, true); case 7: return work<Steer2>(m, w, true); case 8: return work<Steer3>(m, w, true); case 9: return work<Steer4>(m, w, true);
    case 11: return work<Completed>(m, w, true); case 12: return curves(m, w); case 13: return sampled(m, w);
    default: { int W = m->getWidth() - 1, H = m->getHeight() - 1; std::vector<LegacyQuery> q; if (w != 1) q.push_back({0, 0, W, H}); if (w & 1) q.push_back({W, 0, 0, H}); return legacy_plan(m, q); } }
}
static uint64_t total_schedules = 0;
static void pair(Job a, Job b, const std::vector<SimpleGridMap2d *> &maps, int bound, bool points, const std::string &what, uint64_t max_points = 4000)
{
    uint64_t out[2] = {0, 0}, solo[2]; const Job *j[2] = {&a, &b}; solo[0] = perform(a.planner, maps[a.map], a.work); solo[1] = perform(b.planner, maps[b.map], b.work);
    if (perform(a.planner, maps[a.map], a.work) != solo[0] || perform(b.planner, maps[b.map], b.work) != solo[1]) mc::fail("%s: a planner alone gives two different answers", what.c_str());
    std::function<void()> body[2]; for (int t = 0; t < 2; ++t) body[t] = [&, t]() { try { out[t] = perform(j[t]->planner, maps[j[t]->map], j[t]->work); } catch (...) { out[t] = 0xdead; } };
    sched::points_enabled = points; auto st = sched::explore(body, bound, [&](const std::string &s) { mc::exec(); mc::step(2); for (int t = 0; t < 2; ++t) if (out[t] != solo[t]) mc::fail("%s (thread 0: %s, work %d, map %d; thread 1: %s, work %d, map %d): thread %d answers differently than alone; %s", what.c_str(), NAME[a.planner], a.work, a.map, NAME[b.planner], b.work, b.map, t, s.c_str()); out[0] = out[1] = 0; }, max_points, points ? ~0ull : mc::thorough ? 20000 : 1500);
    mc::step(st.points); if (st.schedules > 2) mc::nontrivial(st.schedules - 2); mc::state(mc::Hash().u(solo[0]).u(solo[1]).u(st.points).u(st.conflicts).h); sched::points_enabled = true;
}
static Shared<SimpleGridMap2d> *make(const char *t, double res) { Grid g = parse(t, res); auto *m = new Shared<SimpleGridMap2d>(g.w, g.h, res); m->setLowerThreshold(50); m->setUpperThreshold(200); m->setNoInformationValue(-1); fill(*m, g); return m; }
void mc_setup()
{
    static const char *SMALL[] = {"...", ".#./...", "..#/.#./..."}; static const char *MID = "..../.##./..../#..."; static const char *BIG = "......../...##.../......../.##...../........";
    int deep = mc::thorough ? 3 : 2;
    mc::family("two grid planners, one small map", NGRID * NGRID * 5 * 2, [](uint64_t i) { Dec d(i); int p = d(NGRID), q = d(NGRID), w = d(5), m = d(2); if (p > q) return; std::vector<SimpleGridMap2d *> maps{make(SMALL[m], 1)}; pair({p, 0, w}, {q, 0, (w + m) % 5}, maps, mc::thorough ? 3 : 2, true, "one small map"); }, 4, 600);
    mc::family("two grid planners, one map", NGRID * NGRID * 5, [](uint64_t i) { Dec d(i); int p = d(NGRID), q = d(NGRID), w = d(5); if (p > q) return; std::vector<SimpleGridMap2d *> maps{make(MID, 0.5)}; pair({p, 0, w}, {q, 0, (w + 1) % 5}, maps, mc::thorough ? 2 : 1, true, "one map"); }, 2, 600);
    mc::family("two planners of any kind, one map", NPLAN * NPLAN * 3, [=](uint64_t i) { Dec d(i); int p = d(NPLAN), q = d(NPLAN), w = d(3); if (p > q) return; bool big = p >= NGRID || q >= NGRID; std::vector<SimpleGridMap2d *> maps{make(big ? BIG : MID, 1)}; int wa = w == 0 ? 0 : w == 1 ? 3 : 2, wb = w == 0 ? 0 : w == 1 ? 1 : 4; pair({p, 0, wa}, {q, 0, wb}, maps, deep, false, "one map, conflicting accesses"); }, 2, 600);
    mc::family("two planners of any kind, maps of different resolution", NPLAN * NPLAN * 2, [=](uint64_t i) { Dec d(i); int p = d(NPLAN), q = d(NPLAN), w = d(2); std::vector<SimpleGridMap2d *> maps{make(BIG, 1), make(BIG, 0.5)}; pair({p, 0, w ? 3 : 0}, {q, 1, w ? 1 : 0}, maps, deep, false, "different resolutions, conflicting accesses"); }, 2, 600);
    mc::family("steering planners, map accesses", 5 * 5 * 2, [](uint64_t i) { Dec d(i); int p = 6 + d(5), q = 6 + d(5), r = d(2); if (p > q) return; std::vector<SimpleGridMap2d *> maps{make(SMALL[2], 1), make(SMALL[2], 0.5)}; pair({p, 0, 0}, {q, r, 1}, maps, 1, true, "steering planners", mc::thorough ? 2000 : 60); }, 1, 600);
    mc::bound("14 planner kinds in all pairs; grid planners: all interleavings with at most %d preemptions on maps of 3 to 6 cells and %d on 4x4 maps, at every map access; all pairs, also on maps of different resolution: all interleavings with at most %d preemptions at accesses to memory that both threads touch and one writes (none such on the unchanged tree: only the two sequential orders remain; otherwise at most 1500, thorough 20000, per case); steering planners: 1 preemption at each of the first %d map accesses", mc::thorough ? 3 : 2, mc::thorough ? 2 : 1, deep, mc::thorough ? 2000 : 60);
    mc::assumption("sequentially consistent memory; the conflicting memory is found from each thread running alone, recorded for every load and store of the planner code; steering searches are stopped after 60 steps");
}

// C03: answers of a planner do not depend on its history or on other planners
#include "generic.h"
#include "clock.inc"
#include <cslibs_path_planning/generic/SteeringNeighborhood.hpp>
#include <cslibs_path_planning/generic/DynamicSteeringNeighborhood.h>
using mc::Dec;
typedef SteeringNeighborhood<100, 1, 30, 60, 120, SteeringMoves::FORWARD_BACKWARD> SN;
typedef AStar2dSearch<DirectNeighborhood<8, 1>, NoExpansion, Pose2d, GridMap2d, 1> G8;
typedef AStar2dTaxiSearch<DirectNeighborhood<4, 1>, NoExpansion, Pose2d, GridMap2d, 2, 1> G4;
typedef AStarDynamicSearch<DynamicSteeringNeighborhood, NoExpansion, Pose2d, GridMap2d, 1> SD;
typedef AStarDynamicHybridHeuristicsSearch<SN, NoExpansion, Pose2d, GridMap2d, 1> SS;
typedef DijkstraSearch<DirectNeighborhood<8, 1>, NoExpansion, Pose2d, GridMap2d, 1> GD;
typedef GenericSearchAlgorithm<GenericParameter<Pose2d, HeuristicL2, GridMap2d, DirectNeighborhood<4, 1>, NoExpansion, QueueManager, GridMapManager, 1>> GQ;
typedef AStarHybridHeuristicsSearch<NonHolonomicNeighborhood<150, 450, NonHolonomicNeighborhoodMoves::FORWARD_BACKWARD_HALFSTEPS, false, 2>, NoExpansion, Pose2d, GridMap2d, 1> NH;
template <class A> struct Kind { enum { STEER = 0 }; };
template <> struct Kind<SD> { enum { STEER = 1 }; };
template <> struct Kind<NH> { enum { STEER = 1 }; };
template <> struct Kind<SS> { enum { STEER = 1 }; };
// same size, other size and resolution, blocked, larger
static const char *MAPS[] = {"......./..##.../...#.../.#...../...#...", "......./..#..../.####../......./...#...", "...#/.#../..../.#../....", "###########/.........../#########.#/.........../.####.####."};
static const double MRES[] = {1, 1, 0.25, 2};
struct Answer { bool thrown; std::vector<Pose2d> p; double cost; size_t cand; };
struct Boom {};
template <class A> struct Test { A *a; int x, y, boom; mutable int n; Pose2d hint; bool use; const Pose2d *getHeuristicGoal() const { return use ? &hint : nullptr; }
    bool terminate(const typename A::NodeT *c) const { if (++n == boom) throw Boom(); if (std::abs(c->x - x) > 0.6 || std::abs(c->y - y) > 0.6) return false; a->addGoalCandidate(c, 0); return true; } };
static const Query QS[] = {{{0, 0, 0}, {3, 3, 0}}, {{3, 4, 1.5}, {1, 0, 1.5}}, {{1, 1, 0}, {1, 1, 0}}, {{-3, 90, 0}, {1, 1, 0}}, {{0, 0, 0}, {2, 1, 0}}};
enum { NPLAN = 5, GOALTEST = NPLAN, OVER, TIMEOUT, BOOM_STEP, BOOM_TEST, EDIT, RESIZE, MAP0, OTHER = MAP0 + 4, OTHERKIND, NOPS };
static const char *NAME[] = {"goal test", "plan with oversearch", "plan, out of time", "plan, callback throws", "goal test throws", "toggle a cell and set the map again", "resize the map in place and set it again", "set map 0", "set map 1", "set map 2", "set map 3", "plan on another planner of this kind", "plan on a planner of another kind"};
static long cap_steps(bool steer) { return steer ? 150 : 100000; }
template <class A> Answer run(A &a, const Query &q, int kind)
{
    Answer r; r.thrown = false; r.cost = 0; r.cand = 0; clock_reads = 0; clock_step_ns = 0; clock_jump_at = cap_steps(Kind<A>::STEER); a.setTimeLimit(3.0); mc::step();
    SearchOptions so; int n = 0; typename A::PathT p;
    try {
        if (kind == OVER) { so.oversearch_distance = 2.0 * a.getMapManager().getResolution(); p = a.findPath(q.s, q.t, so); r.cand = a.getPathCandidates().size(); }
        else if (kind == TIMEOUT) { clock_jump_at = 4; p = a.findPath(q.s, q.t, so); }
        else if (kind == BOOM_STEP) p = a.findPath(q.s, q.t, [&] { if (++n == 3) throw Boom(); }, so);
        else if (kind == GOALTEST || kind == BOOM_TEST) { Test<A> t{&a, (int) q.t.x, (int) q.t.y, kind == BOOM_TEST ? 4 : -1, 0, q.t, true}; p = a.findPath(q.s, t, so); }
        else p = a.findPath(q.s, q.t, so);
    } catch (const OutsideMapException &) { r.thrown = true; } catch (const std::logic_error &) { r.thrown = true; } catch (const Boom &) { r.thrown = true; }
    for (auto &x : p) r.p.push_back(x); if (!p.empty()) r.cost = p.back().distance;
    return r;
}
static std::string show(const Answer &a) { std::string s = a.thrown ? "exception" : a.p.empty() ? "no path" : mc::fmt("cost %g path ", a.cost); for (auto &p : a.p) s += mc::fmt("(%g,%g)", p.x, p.y); return s; }
template <class A> struct World {
    Grid g[5]; std::unique_ptr<SimpleGridMap2d> m[5]; int cur; A a; std::string hist; bool toggled;
    std::unique_ptr<A> other; std::unique_ptr<G8> oth8; std::unique_ptr<SimpleGridMap2d> om;
    World(int first) : cur(first), toggled(false) { for (int i = 0; i < 4; ++i) { g[i] = parse(MAPS[i], MRES[i]); m[i] = to_map(g[i]); } om = to_map(parse(MAPS[2], 0.5)); a.setMap(m[cur].get()); hist = mc::fmt("map %d; ", first); }
    void check(const char *what, const Query &q, int kind)
    {
        Answer r = run(a, q, kind); int e1 = a.getExpansions(), t1 = a.getTouchedNodes();
        A f; f.setMap(m[cur].get()); Answer w = run(f, q, kind);
        std::string h = "after " + hist + what;
        if (r.thrown != w.thrown || r.p.empty() != w.p.empty() || std::fabs(r.cost - w.cost) > 1e-6 * (1 + w.cost)) mc::fail("%s: got %s, a fresh planner gives %s", h.c_str(), show(r).c_str(), show(w).c_str());
        if (r.cand != w.cand) mc::fail("%s: %zu path candidates, a fresh planner has %zu", h.c_str(), r.cand, w.cand);
        if (!r.thrown && (e1 != f.getExpansions() || t1 != f.getTouchedNodes())) mc::fail("%s: reports %d expansions and %d touched nodes, a fresh planner %d and %d", h.c_str(), e1, t1, f.getExpansions(), f.getTouchedNodes());
        if (!Kind<A>::STEER && kind != TIMEOUT) for (size_t i = 0; i < r.p.size(); ++i) if (g[cur].occ(r.p[i].x, r.p[i].y)) mc::fail("%s: path crosses an occupied cell: %s", h.c_str(), show(r).c_str());
        mc::exec(); if (r.p.size() > 1) { mc::nontrivial(); mc::Hash hh; for (auto &p : r.p) hh.q(p.x).q(p.y).q(p.theta); mc::state(hh.h); }
    }
    void apply(int op, bool judge)
    {
        if (op < MAP0 && op != EDIT && op != RESIZE) {
            int kind = op < NPLAN ? 0 : op; const Query &q = QS[op < NPLAN ? op : op & 1];
            std::string what = mc::fmt("%s %s", op < NPLAN ? "plan" : NAME[op - NPLAN], show(q).c_str());
            if (judge) check(what.c_str(), q, kind); else run(a, q, kind);
            hist += what + "; "; return;
        }
        hist += std::string(NAME[op - NPLAN]) + "; "; mc::step();
        if (op == EDIT) { Grid &G = g[cur]; int k = G.w + 2; G.c[k] = G.c[k] ? 0 : 2; G.c[0] = G.c[0] ? 0 : toggled ? 0 : 2; toggled = true; fill(*m[cur], G); a.setMap(m[cur].get()); }
        else if (op == RESIZE) { int o = (cur + 2) % 4; g[cur].w = g[o].w; g[cur].h = g[o].h; g[cur].c = g[o].c; fill(*m[cur], g[cur]); a.setMap(m[cur].get()); }
        else if (op < OTHER) { cur = op - MAP0; a.setMap(m[cur].get()); }
        else if (op == OTHER) { if (!other) { other.reset(new A); other->setMap(om.get()); } run(*other, QS[0], OVER); }
        else { if (!oth8) { oth8.reset(new G8); oth8->setMap(om.get()); } run(*oth8, QS[0], 0); }
    }
};
static int DYN;
static void dyn_setup()
{
    DynamicSteeringNeighborhood::distance_step = 1.0; DynamicSteeringNeighborhood::MAX_STEER_ANGLE = 60; DynamicSteeringNeighborhood::STEER_DELTA = 30; DynamicSteeringNeighborhood::steer_steps = 1; DynamicSteeringNeighborhood::LA = 1.2;
    DynamicSteeringNeighborhood::allow_forward = true; DynamicSteeringNeighborhood::allow_backward = true; DynamicSteeringNeighborhood::goal_dist_threshold = 1.0; DynamicSteeringNeighborhood::goal_angle_threshold = 1.0;
}
template <class A> void histories(uint64_t i, int len)
{
    dyn_setup(); mc::pick_policy = pick_first; verif_queue_dedup = i & 1;
    Dec d(i / 2); int first = d(2); int a = d(NOPS), b = d(NOPS); mc::describe(mc::fmt("planner, map %d, operations %d, %d then every continuation", first, a, b));
    for (uint64_t s = 0; s < mc::ipow(NOPS, len - 2); ++s) for (int q = 0; q < 2; ++q) {
        World<A> w(first); w.apply(a, len == 2); w.apply(b, len == 2); Dec z(s); for (int k = 2; k < len; ++k) w.apply(z(NOPS), k + 1 == len); w.apply(q, true);
    }
}
// chains of queries between all cells on one planner, every map content
template <class A> void chains(uint64_t i)
{
    Grid g{3, 3, 0.5, std::vector<uint8_t>(9)}; for (int k = 0; k < 9; ++k) g.c[k] = i >> k & 1 ? 2 : 0; auto m = to_map(g); mc::describe(show(g) + ": pairs of queries on one planner");
    mc::pick_policy = POLICY[i % 3]; verif_queue_dedup = i & 1; int N = std::is_same<A, G4>::value ? 4 : 8;
    std::vector<std::vector<double>> D; for (int s = 0; s < 9; ++s) D.push_back(reference(g, s % 3, s / 3, N, 1));
    for (int s = 0; s < 9; ++s) for (int t = 0; t < 9; ++t) {
        A a; a.setMap(m.get()); Query q0{{s % 3 + 0., s / 3 + 0., 0}, {t % 3 + 0., t / 3 + 0., 0}}; ask(a, q0);
        for (int k = 0; k < 81; k += mc::thorough ? 1 : 5) { int u = (k + s) % 9, v = k / 9; Query q{{u % 3 + 0., u / 3 + 0., 0}, {v % 3 + 0., v / 3 + 0., 0}}; auto p = ask(a, q); std::string e = judge(g, p, q, N, 1, VALID | COST, true, Tolerance(g, q, 1), &D[u]); if (!e.empty()) mc::fail("%s on %s after %s and %d more queries: %s", show(q).c_str(), show(g).c_str(), show(q0).c_str(), k, e.c_str()); mc::exec(); if (p.size() > 1) mc::nontrivial(); }
    }
}
void mc_setup()
{
    int gl = mc::thorough ? 4 : 3, sl = mc::thorough ? 3 : 2;
    mc::bound("grid planners (4- and 8-connected): every sequence of %d operations out of %d followed by 2 queries; uninformed, breadth first, steering and non-holonomic planners: every sequence of %d operations", gl, (int) NOPS, sl);
    mc::bound("operations: 5 queries (reachable, blocked, trivial, outside), goal test, oversearch, out of time after 4 clock readings, exception in the callback / goal test, in-place edit, in-place resize, 4 maps of different size and resolution, another planner of the same and of another kind");
    mc::bound("every 3x3 map: chains of queries between all cells on one planner");
    mc::bound("steering searches are stopped after 150 steps");
    mc::family("8-connected histories", 2ull * 2 * NOPS * NOPS, [=](uint64_t i) { histories<G8>(i, gl); }, 4, 120);
    mc::family("4-connected histories", 2ull * 2 * NOPS * NOPS, [=](uint64_t i) { histories<G4>(i, gl); }, 4, 120);
    int sf = mc::thorough ? 1 : 4;   // quick: one initial map, one open set discipline
    mc::family("steering histories", 4ull / sf * NOPS * NOPS, [=](uint64_t i) { histories<SD>(i * sf + 1, sl); }, 2, 120);
    mc::family("steering (static) histories", 4ull / sf * NOPS * NOPS, [=](uint64_t i) { histories<SS>(i * sf + 1, sl); }, 2, 120);
    mc::family("uninformed histories", 4ull / sf * NOPS * NOPS, [=](uint64_t i) { histories<GD>(i * sf + 1, sl); }, 2, 120);
    mc::family("breadth first histories", 4ull / sf * NOPS * NOPS, [=](uint64_t i) { histories<GQ>(i * sf + 3, sl); }, 2, 120);
    mc::family("non-holonomic histories", 4ull / sf * NOPS * NOPS, [=](uint64_t i) { histories<NH>(i * sf + 3, sl); }, 2, 120);
    mc::family("8-connected chains", 512, chains<G8>, 4, 60);
    mc::family("4-connected chains", 512, chains<G4>, 4, 60);
}

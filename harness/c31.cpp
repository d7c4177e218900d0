// C31: searches of the steering planners for a goal defined by the caller
#include "steer.h"
#include <map>
struct Seen { const void *id, *prev; S s; };
// the caller's test: records what it is shown and registers candidates; stops the search at the `stop`-th state (or after `cap`)
template <class A> struct Test {
    A *a; int pattern, stop, cap; Pose2d at, hint; bool use_hint; std::vector<Seen> *seen; std::vector<std::pair<size_t, double>> *cand;
    double cost(const S &s) const        // negative: no candidate
    {
        switch (pattern) {
        case 0: return std::hypot(s.x - at.x, s.y - at.y) < 1.3 ? std::hypot(s.x - at.x, s.y - at.y) : -1;
        case 1: return std::hypot(s.x - at.x, s.y - at.y) < 2.5 && std::fabs(wrap(s.th - at.theta)) < 0.6 ? std::fabs(wrap(s.th - at.theta)) + 0.01 * std::fabs(s.x - at.x) : -1;
        case 2: return s.steer == 0 && !s.fwd && s.x > at.x - 2 ? 50 - s.cost : -1;          // the farthest one backwards
        case 3: return std::fmod(std::fabs(7.3 * s.x + 3.1 * s.y + s.th), 1.0) < 0.04 ? std::fmod(std::fabs(11.1 * s.x + 5.7 * s.y), 1.0) : -1;
        }
        return -1;
    }
    bool terminate(const typename A::NodeT *n) const
    {
        S s = {n->x, n->y, n->theta, n->steering_angle, n->forward, n->distance, n->custom}; seen->push_back({n, n->prev, s});
        double c = cost(s); if (c >= 0) { a->addGoalCandidate(n, c); cand->push_back({seen->size() - 1, c}); }
        return (int) seen->size() == stop || (int) seen->size() >= cap;
    }
    const Pose2d *getHeuristicGoal() const { return use_hint ? &hint : nullptr; }
};
struct Out { std::vector<Seen> seen; std::vector<std::pair<size_t, double>> cand; std::vector<S> path; int expansions, multi, calls; bool outside; };
enum { POSE, CONFIG, CALLBACK };
template <class A> Out run(A &a, const Pose2d &from, int pattern, const Pose2d &at, bool hint, int stop, int cap, double over, int how)
{
    Out o; o.calls = 0; o.outside = false; Test<A> t{&a, pattern, stop, cap, at, at, hint, &o.seen, &o.cand}; SearchOptions so; so.oversearch_distance = over; a.setTimeLimit(-1); mc::step();
    typename A::PathT p; try {
        if (how == POSE) p = a.findPath(from, t, so);
        else if (how == CALLBACK) p = a.findPath(from, t, boost::function<void()>([&] { ++o.calls; }), so);
        else { typename A::NodeT n; A::NodeT::init(n, from); n.theta = from.theta; n.forward = true; p = a.findPathWithStartConfiguration(n, t, so); }
    } catch (const OutsideMapException &) { o.outside = true; } catch (const std::logic_error &) { o.outside = true; }
    for (auto &n : p) o.path.push_back({n.x, n.y, n.theta, n.steering_angle, n.forward, n.distance, n.custom}); o.expansions = a.getExpansions(); o.multi = a.getMultiExpansions(); return o;
}
static bool same(const S &a, const S &b) { return a.x == b.x && a.y == b.y && a.th == b.th && a.steer == b.steer && a.fwd == b.fwd && a.cost == b.cost; }
static bool same(const std::vector<S> &a, const std::vector<S> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static bool prefix(const Out &a, const Out &b) { if (a.seen.size() > b.seen.size()) return false; for (size_t i = 0; i < a.seen.size(); ++i) if (!same(a.seen[i].s, b.seen[i].s)) return false; return true; }
template <class A> void one(const char *name, const Grid &g, const GridMap2d *m, const Pose2d &from, int pattern, const Pose2d &at, int cap)
{
    Cfg c = cfg<A>(); std::string base = mc::fmt("%s on %s from (%g,%g,%g), test %d at (%g,%g,%g)", name, show(g).c_str(), from.x, from.y, from.theta, pattern, at.x, at.y, at.theta);
    auto judged = [&](const Out &o, bool hint, const std::string &w) {
        mc::exec(); if ((int) o.seen.size() != o.expansions) mc::fail("%s: %zu states shown, %d expanded", w.c_str(), o.seen.size(), o.expansions);
        std::map<const void *, size_t> at; double last = 0; int again = 0;
        for (size_t i = 0; i < o.seen.size(); ++i) { auto &x = o.seen[i]; const S &s = x.s;
            if (!at.insert({x.id, i}).second) { ++again; if (verif_queue_dedup) mc::fail("%s: state %zu (%g,%g,%g) was shown before", w.c_str(), i, s.x, s.y, s.th); }
            if (!hint && s.cost < last - 1e-9) mc::fail("%s: state %zu has cost %g, the one before %g", w.c_str(), i, s.cost, last); last = s.cost;
            if (g.in(std::floor(s.x), std::floor(s.y)) && g.occ(std::floor(s.x), std::floor(s.y))) mc::fail("%s: state %zu (%g,%g) lies on an occupied cell", w.c_str(), i, s.x, s.y);
            if (!x.prev) { if (s.cost != 0 || std::fabs(s.x - from.x) >= 1 || std::fabs(s.y - from.y) >= 1) mc::fail("%s: state %zu (%g,%g) has no predecessor", w.c_str(), i, s.x, s.y); }
            else { auto p = at.find(x.prev); if (p == at.end() || p->second >= i) mc::fail("%s: the predecessor of state %zu was not expanded before", w.c_str(), i); if (verif_queue_dedup && !(o.seen[p->second].s.cost < s.cost)) mc::fail("%s: state %zu is not dearer than its predecessor", w.c_str(), i); }
        }
        if (o.multi != again) mc::fail("%s: %d states were shown again, %d counted", w.c_str(), again, o.multi);
        if (o.cand.empty() != o.path.empty()) mc::fail("%s: %zu candidates, a path of %zu poses", w.c_str(), o.cand.size(), o.path.size());
        if (o.path.empty()) return;
        double best = INFINITY; for (auto &k : o.cand) best = std::min(best, k.second);
        const S &e = c.rev ? o.path.front() : o.path.back(); bool ok = false; for (auto &k : o.cand) ok = ok || (k.second <= best && same(o.seen[k.first].s, e));
        if (!ok) mc::fail("%s: the path %s does not lead to the best of %zu candidates (%g)", w.c_str(), show(o.path).c_str(), o.cand.size(), best);
        Pose2d end(e.x, e.y, e.th); Query q = c.rev ? Query{end, from} : Query{from, end}; std::string j = judge(g, o.path, q, c, SearchOptions(), false); if (!j.empty()) mc::fail("%s: path %s: %s", w.c_str(), show(o.path).c_str(), j.c_str());
        if (o.cand.size() > 1 && o.path.size() > 1) mc::nontrivial(); mc::Hash h; for (auto &x : o.path) h.q(x.x).q(x.y).q(x.th); mc::state(h.u(o.seen.size()).h);
    };
    A a; a.setMap(m); Out full = run(a, from, pattern, at, false, 0, cap, 0, POSE); judged(full, false, base);
    // without a distance all candidates count; with one the search ends with the first state beyond it
    double first = full.cand.empty() ? INFINITY : full.seen[full.cand[0].first].s.cost;
    for (double over : {0.6, 3.0}) { A b; b.setMap(m); Out o = run(b, from, pattern, at, false, 0, cap, over, POSE); std::string w = base + mc::fmt(", oversearch %g", over); judged(o, false, w);
        size_t n = 0; bool beyond = false; while (n < full.seen.size() && !beyond) { if (n && full.cand.size() && full.cand[0].first < n && full.seen[n].s.cost > first + over + 1e-9) beyond = true; ++n; }
        bool edge = false; for (auto &x : full.seen) if (std::fabs(x.s.cost - first - over) < 1e-6) edge = true;
        if (!prefix(o, full)) mc::fail("%s: the states shown are not the first ones of the unlimited search", w.c_str()); if (!edge && o.seen.size() != n) mc::fail("%s: %zu states shown instead of %zu", w.c_str(), o.seen.size(), n); }
    // the other entrances and a planner that has searched before give the same
    run(a, Pose2d(from.x, from.y, from.theta + 0.05), pattern, at, false, 0, 20, 0, POSE);   // begins in the same state, with another heading
    Out k = run(a, from, pattern, at, false, 0, cap, 0, CONFIG); if (!same(k.path, full.path) || !prefix(k, full) || k.seen.size() != full.seen.size()) mc::fail("%s: another result from a start configuration (%zu states instead of %zu): %s instead of %s", base.c_str(), k.seen.size(), full.seen.size(), show(k.path).c_str(), show(full.path).c_str());
    run(a, Pose2d(from.x, from.y, from.theta + 0.05), pattern, at, false, 0, 20, 0, CONFIG);
    k = run(a, from, pattern, at, false, 0, cap, 0, CALLBACK); if (!same(k.path, full.path) || k.seen.size() != full.seen.size()) mc::fail("%s: another result with callbacks", base.c_str());
    // stopped by the test
    for (int stop : {1, 2, 7, 30}) { if (stop > (int) full.seen.size()) break; Out o = run(a, from, pattern, at, false, stop, cap, 0, stop & 1 ? POSE : CONFIG); judged(o, false, base + mc::fmt(", stopped at state %d", stop)); if ((int) o.seen.size() != stop || !prefix(o, full)) mc::fail("%s: stopped at state %d, %zu states shown", base.c_str(), stop, o.seen.size()); }
    // a hint for the heuristic must not change what is found, only where it looks first
    Out h = run(a, from, pattern, at, true, 0, cap, 0, POSE); judged(h, true, base + ", with a heuristic goal");
    // the caller's test leaves nothing behind
    A f; f.setMap(m); Query q{from, at}; SearchOptions so; auto p1 = search(a, q, so, 80), p2 = search(f, q, so, 80); if (!same(p1, p2)) mc::fail("%s: the search for a pose afterwards gives another path", base.c_str());
}
static const char *MAPS[] = {"......./......./......./......./.......", "......./..##.../..#..../......./...#...", ".....#./.##..../....??./##...../......#", ".../.#./.../...", "....."};
static void kind(int k, const Grid &g, const GridMap2d *m, const Pose2d &from, int pattern, const Pose2d &at, int cap)
{
    switch (k) { case 0: one<SD>("dynamic", g, m, from, pattern, at, cap); break; case 1: one<S1>("static", g, m, from, pattern, at, cap); break; case 2: one<SF>("static, forward only", g, m, from, pattern, at, cap); break; case 3: one<SR>("static, reversed", g, m, from, pattern, at, cap); break; default: DSN::reversed = true; one<SD>("dynamic, reversed", g, m, from, pattern, at, cap); }
}
static void layouts(uint64_t i)
{
    Dec d(i); int k = d(5), mi = d(5), h = d(mc::thorough ? 8 : 3), pattern = d(5), si = d(mc::thorough ? 3 : 2), dd = mc::thorough ? d(2) : (i / 5 + i / 25) & 1; defaults(); Grid g = parse(MAPS[mi]); auto m = to_map(g); mc::describe(show(g)); verif_queue_dedup = !dd; mc::pick_policy = POLICY[(i / 3) % 3];
    static const double X[] = {0.5, 3.2, 5.9}, Y[] = {0.5, 2.9, 1.5}; double th = h * 2 * M_PI / (mc::thorough ? 8 : 3) + (h ? 0.2 : 0.0); double ax = X[(si + 1) % 3], ay = Y[(si + 1) % 3]; if (mi > 2) { ax = std::min(ax, g.w - 0.5); ay = std::min(ay, g.h - 0.5); }
    Pose2d from(std::min(X[si], g.w - 0.5), std::min(Y[si], g.h - 0.5), th); if (g.occ(std::floor(from.x), std::floor(from.y))) return; kind(k, g, m.get(), from, pattern, Pose2d(ax, ay, th + 0.7), mc::thorough ? 700 : 160);
}
void mc_setup()
{
    mc::bound("five planners (configurable and static, forward only, both reversed) x 5 maps x %d headings x %d starts x 5 caller-defined tests, each fresh, reused, from a start configuration, with callbacks, two oversearch distances, four stopping points, with a heuristic goal and with the open set with and without duplicates; at most %d states per search", mc::thorough ? 8 : 3, mc::thorough ? 3 : 2, mc::thorough ? 700 : 160);
    mc::assumption("a caller's test that ends the search without having registered a candidate gives no path; the order by cost holds without a heuristic goal");
    mc::family("layouts", 5 * 5 * (mc::thorough ? 8 : 3) * 5 * (mc::thorough ? 3 : 2) * (mc::thorough ? 2 : 1), layouts, 2, 200);
}

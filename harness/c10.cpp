// C10: legacy A*: histories on one object against fresh objects
#include "legacy.h"
using mc::Dec;
struct Pair { int sx, sy, gx, gy; };
// maps the histories switch between: same size, as many cells in another shape, other size, blocked start/goal
static const char *MAPS[] = {"....#./.##.#./......", "....../.####./..#...", ".#./.#./.#./.../##./...", "#########/........./#########"};
static Grid parse(const char *t)
{
    Grid g; g.h = 1; g.w = 0; int c = 0; for (const char *p = t; *p; ++p) { if (*p == '/') { ++g.h; c = 0; } else { ++c; g.w = std::max(g.w, c); g.v.push_back(*p == '#' ? 255 : *p == '?' ? 100 : 0); } } return g;
}
static const Pair PLANS[] = {{0, 0, 3, 2}, {5, 2, 0, 0}, {3, 0, 0, 2}, {1, 1, 3, 1}, {0, 0, 0, 0}, {9, 9, 0, 0}};
static const int NPLAN = 6, NOPS = NPLAN + 4 + 2 + 1;
struct World {
    Grid g[5]; std::unique_ptr<SimpleGridMap2d> m[5]; int cur; std::unique_ptr<AStar> a; std::string hist; bool stale;
    World(int first) : cur(first), stale(false) { for (int i = 0; i < 4; ++i) { g[i] = parse(MAPS[i]); m[i] = to_map(g[i]); } g[4] = g[0]; m[4] = to_map(g[4]); a.reset(new AStar(m[cur].get())); hist = mc::fmt("map %d; ", first); }
    void apply(int op, bool check)
    {
        if (op < NPLAN) {
            const Pair &p = PLANS[op]; hist += mc::fmt("plan (%d,%d)->(%d,%d); ", p.sx, p.sy, p.gx, p.gy);
            Result r = plan(*a, p.sx, p.sy, p.gx, p.gy);
            if (!check) return;
            std::string what = "after " + hist;
            judge(g[cur], r, p.sx, p.sy, p.gx, p.gy, nullptr, what.c_str());
            AStar f(m[cur].get()); Result q = plan(f, p.sx, p.sy, p.gx, p.gy);
            if (q.ok != r.ok) mc::fail("after %sgot %d, a fresh planner %d", hist.c_str(), r.ok, q.ok);
            if (q.ok && std::fabs(length(q.path) - length(r.path)) > 1e-6) mc::fail("after %spath %s, a fresh planner gives %s", hist.c_str(), show(r.path).c_str(), show(q.path).c_str());
        } else if (op < NPLAN + 4) { cur = op - NPLAN; a->setNewMap(m[cur].get()); hist += mc::fmt("set map %d; ", cur); mc::step(); }
        else if (op == NPLAN + 4) { // in-place edit of one cell
            Grid &G = g[cur]; int k = G.w + 1; G.v[k] = G.v[k] ? 0 : 255; m[cur]->setValue(k % G.w, k / G.w, G.v[k]); hist += "toggle a cell; "; mc::step();
        } else if (op == NPLAN + 5) { // block a corner used as start / goal
            Grid &G = g[cur]; G.v[0] = G.v[0] ? 0 : 255; m[cur]->setValue(0, 0, G.v[0]); hist += "toggle (0,0); "; mc::step();
        } else { // resize in place and announce
            int o = (cur + 2) % 4; g[cur].w = g[o].w; g[cur].h = g[o].h; g[cur].v = g[o].v; m[cur]->set(g[cur].v, g[cur].w, g[cur].h); a->setNewMap(m[cur].get()); hist += mc::fmt("resize in place to %dx%d and set; ", g[cur].w, g[cur].h); mc::step();
        }
    }
};
static int depth() { return mc::thorough ? 5 : 4; }
static void histories(uint64_t i)
{
    Dec d(i); int first = d(4); int a = d(NOPS), b = d(NOPS); mc::describe(mc::fmt("map %d, operations %d, %d then every continuation up to length %d", first, a, b, depth()));
    for (uint64_t s = 0; s < mc::ipow(NOPS, depth() - 2); ++s) for (int p = 0; p < 4; ++p) {
        World w(first); w.apply(a, true); w.apply(b, true); Dec q(s); for (int k = 2; k < depth(); ++k) w.apply(q(NOPS), k + 1 == depth()); w.apply(p, true);
    }
}
// every pair of plans on one object, on every content of a small map
static void pairs(uint64_t i)
{
    Grid g{4, 3, std::vector<uint8_t>(12, 0)}; for (int k = 0; k < 12; ++k) if (i >> k & 1) g.v[k] = 255; auto m = to_map(g); mc::describe("map " + show(g) + ": pairs of plans on one object");
    for (int s = 0; s < 12; s += mc::thorough ? 1 : 5) for (int t = 0; t < 12; ++t) {
        AStar a(m.get()); plan(a, s % 4, s / 4, t % 4, t / 4);
        for (int u = 0; u < 12; ++u) for (int v = 0; v < 12; v += mc::thorough ? 1 : 3) { Result r = plan(a, u % 4, u / 4, v % 4, v / 4); judge(g, r, u % 4, u / 4, v % 4, v / 4, nullptr, "reused"); }
    }
}
void mc_setup()
{
    mc::bound("every sequence of %d operations (+ a final plan) out of %d: 6 plans (also unreachable, trivial and outside), 4 map replacements (same and other size), 2 in-place edits, 1 in-place resize", depth(), NOPS);
    mc::bound("every free/blocked content of a 4x3 map: chains of plans between all cells on one object");
    mc::family("histories", (uint64_t) 4 * NOPS * NOPS, histories, 4);
    mc::family("chains", 4096, pairs, 32);
}

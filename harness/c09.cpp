// C09: legacy A*
#include "legacy.h"
using mc::Dec;
static void all_pairs(const Grid &g, const char *what, bool outside)
{
    mc::describe(std::string(what) + " map " + show(g) + ": every start and goal");
    auto m = to_map(g); int n = g.w * g.h;
    for (int goal = 0; goal < n; ++goal) {
        std::vector<double> d = dijkstra(g, goal);
        for (int s = 0; s < n; ++s) { AStar a(m.get()); Result r = plan(a, s % g.w, s / g.w, goal % g.w, goal / g.w); judge(g, r, s % g.w, s / g.w, goal % g.w, goal / g.w, &d, what); }
    }
    if (outside) {
        static const int o[] = {-2, -1, 0, 1, 1000000};
        for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) for (int k = 0; k < n; ++k) for (int sw = 0; sw < 2; ++sw) {
            int x = o[i] > 0 ? g.w - 1 + o[i] : o[i], y = o[j] > 0 ? g.h - 1 + o[j] : o[j];
            AStar a(m.get()); Result r = sw ? plan(a, x, y, k % g.w, k / g.w) : plan(a, k % g.w, k / g.w, x, y);
            if (sw) judge(g, r, x, y, k % g.w, k / g.w, nullptr, "outside"); else judge(g, r, k % g.w, k / g.w, x, y, nullptr, "outside");
        }
    }
}
static Grid binary(int w, int h, uint64_t bits) { Grid g{w, h, std::vector<uint8_t>(w * h, 0)}; for (int k = 0; k < w * h; ++k) if (bits >> k & 1) g.v[k] = (k % 3 == 1) ? 51 : 255; else g.v[k] = (k % 2) ? 50 : 0; return g; }
static const int SHW[] = {1, 2, 3, 4, 1, 2, 3, 5, 2, 4}, SHH[] = {1, 2, 3, 3, 6, 5, 4, 2, 3, 2};
static void small(uint64_t i)
{
    int s = i / 4096; uint64_t bits = i % 4096; int w = SHW[s], h = SHH[s]; if (bits >> (w * h)) return;
    all_pairs(binary(w, h, bits), "binary", bits % 16 == 0 || w * h < 6);
}
static void tern(uint64_t i)
{
    Grid g{3, 2, {}}; Dec d(i); static const uint8_t V[] = {0, 50, 51, 199, 255}; for (int k = 0; k < 6; ++k) g.v.push_back(V[d(5)]);
    all_pairs(g, "values", false);
}
static void four(uint64_t i)
{
    if (mc::thorough) { all_pairs(binary(4, 4, i), "4x4", false); return; }
    Grid g = binary(4, 4, i); mc::describe("4x4 map " + show(g)); auto m = to_map(g);
    for (int goal : {0, 2, 7, 9, 15}) { std::vector<double> d = dijkstra(g, goal); for (int s = 0; s < 16; ++s) { AStar a(m.get()); Result r = plan(a, s % 4, s / 4, goal % 4, goal / 4); judge(g, r, s % 4, s / 4, goal % 4, goal / 4, &d, "4x4"); } }
}
static void fourfive(uint64_t i)
{   // 5x4, goal restricted to a corner, an edge and the centre
    Grid g = binary(5, 4, i); mc::describe("5x4 map " + show(g)); auto m = to_map(g);
    for (int goal : {0, 4, 12}) { std::vector<double> d = dijkstra(g, goal); for (int s = 0; s < 20; ++s) { AStar a(m.get()); Result r = plan(a, s % 5, s / 5, goal % 5, goal / 5); judge(g, r, s % 5, s / 5, goal % 5, goal / 5, &d, "5x4"); } }
}
// larger maps: every set of up to two walls (horizontal or vertical) with one gap each
static void walls(uint64_t i)
{
    Dec d(i); const int W = 9, H = 8; Grid g{W, H, std::vector<uint8_t>(W * H, 0)}; std::string t;
    int n = 2; for (int k = 0; k < n; ++k) { int dir = d(2), pos = d(7), gap = d(10); for (int q = 0; q < (dir ? H : W); ++q) if (q != gap) { int x = dir ? pos + 1 : q, y = dir ? q : pos; if (x < W && y < H) g.v[y * W + x] = 255; } }
    mc::describe("walls " + show(g)); auto m = to_map(g);
    static const int P[][2] = {{0, 0}, {W - 1, H - 1}, {W - 1, 0}, {4, 3}, {0, H - 1}};
    for (auto &gl : P) { std::vector<double> dd = dijkstra(g, gl[1] * W + gl[0]); for (auto &st : P) { AStar a(m.get()); Result r = plan(a, st[0], st[1], gl[0], gl[1]); judge(g, r, st[0], st[1], gl[0], gl[1], &dd, "walls"); } }
}
void mc_setup()
{
    mc::bound("every free/blocked content of maps 1x1..4x3, 3x4, 5x2, 1x6 with every start and goal (also outside), of 4x4 with every start and %s goals, all 5^6 value contents of 3x2, 9x8 maps with every pair of walls with a gap%s", mc::thorough ? "all" : "5", mc::thorough ? ", every 5x4 content with 3 goals and every start" : "");
    mc::assumption("path cost slack of at most 1 cell (larger maps: 1 cell + 25%%) over the optimum is accepted: the code documents that totals are compared as integers");
    mc::family("small", 10 * 4096, small, 64);
    mc::family("values", 15625, tern, 64);
    mc::family("4x4", 65536, four, 64);
    mc::family("walls", (uint64_t) 140 * 140, walls, 64);
    if (mc::thorough) mc::family("5x4", 1 << 20, fourfive, 1024);
}

// C34: generated mazes join all cells in exactly one way, whatever the random numbers; the filling curve passes every cell once
#include "mc.h"
#include <opencv2/opencv.hpp>
#include <cassert>
#include <cstdlib>
#include <ctime>
#include <memory>
#include <random>
#include <stack>
#ifndef CV_FILLED
#define CV_FILLED cv::FILLED
#endif
#include <cslibs_path_planning/evaluation/MapGenerators.hpp>
#include <cslibs_path_planning/common/Pose2d.h>
using namespace lib_path; using mc::Dec;
// the environment: every random number is an answer of the explorer. After a draw that opened nothing the answers go round, so that every run is fair
static struct { const cv::Mat *map = nullptr; int last = 0, seen = -1; uint64_t raw = 0, calls = 0; int digits = 0, repeat = 0, again = 0; bool explore = false; } rnd;
static int draw()
{
    ++rnd.calls; if ((int) rnd.calls <= rnd.digits) { rnd.last = rnd.raw & 3; rnd.raw >>= 2; return rnd.last; }
    int n = cv::countNonZero(*rnd.map); if (n != rnd.seen) { rnd.seen = n; rnd.again = rnd.repeat; rnd.last = rnd.explore ? (int) mc::choose(4) : (int) ((rnd.last + rnd.calls) & 3); } else if (rnd.again) --rnd.again; else rnd.last = (rnd.last + 1) & 3;
    return rnd.last;
}
static int answer() { int c = draw(); return c * (1 << 29) + c; }     // c in the low and in the high bits
extern "C" int rand() __THROW { return rnd.map ? answer() : 0; }
extern "C" long random() __THROW { return rnd.map ? answer() : 0; }
static std::string text(const cv::Mat &m) { std::string s; for (int y = 0; y < m.rows && y < 40; ++y) { if (y) s += '/'; for (int x = 0; x < m.cols && x < 40; ++x) s += m.at<uint8_t>(y, x) ? '.' : '#'; } return s; }
// n cells wide, k cells high, of W pixels with walls of b; cell (0,0) begins at pixel (ox,oy). Openings to the right / below are returned
static std::string judge(const cv::Mat &m, int n, int k, int W, int b, std::vector<int> &right, std::vector<int> &below, bool partial = false, int first = 0)
{
    cv::Mat left(m.rows, m.cols, CV_8UC1, cv::Scalar::all(0)); int o = b / 2, s = W - b; auto is = [&](int x, int y) { return m.at<uint8_t>(y, x) != 0; }; auto in = [&](int x, int y) { return x >= 0 && y >= 0 && x < m.cols && y < m.rows; };
    for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) if (m.at<uint8_t>(y, x) != 0 && m.at<uint8_t>(y, x) != 255) return mc::fmt("pixel (%d,%d) has value %d", x, y, m.at<uint8_t>(y, x));
    right.assign(n * k, 0); below.assign(n * k, 0);
    for (int y = 0; y < k; ++y) for (int x = 0; x < n; ++x) {
        int px = (x + first) * W + o, py = (y + first) * W + o; for (int j = 0; j < s; ++j) for (int i = 0; i < s; ++i) if (in(px + i, py + j)) { if (!is(px + i, py + j)) return mc::fmt("pixel (%d,%d) of cell (%d,%d) is not free", px + i, py + j, x, y); left.at<uint8_t>(py + j, px + i) = 1; }
        for (int v = 0; v < 2; ++v) { if ((v ? y : x) + 1 >= (v ? k : n)) continue; int open = 0, all = 0; for (int j = 0; j < s; ++j) for (int i = 0; i < b; ++i) { int qx = v ? px + j : px + s + i, qy = v ? py + s + i : py + j; if (!in(qx, qy)) continue; ++all; if (is(qx, qy)) ++open, left.at<uint8_t>(qy, qx) = 1; }
            if (open && open != all) return mc::fmt("the wall %s cell (%d,%d) is partly open", v ? "below" : "right of", x, y); (v ? below : right)[y * n + x] = open > 0; }
    }
    for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) if (is(x, y) && !left.at<uint8_t>(y, x)) return mc::fmt("pixel (%d,%d) belongs to no cell or opening and is free", x, y);
    return "";
}
static std::string tree(int n, int k, const std::vector<int> &right, const std::vector<int> &below)
{
    std::vector<int> root(n * k); for (int i = 0; i < n * k; ++i) root[i] = i; std::function<int(int)> find = [&](int i) { return root[i] == i ? i : root[i] = find(root[i]); }; int parts = n * k;
    for (int i = 0; i < n * k; ++i) for (int v = 0; v < 2; ++v) if ((v ? below : right)[i]) { int a = find(i), b = find(v ? i + n : i + 1); if (a == b) return mc::fmt("cell (%d,%d) is reached in two ways", i % n, i / n); root[a] = b; --parts; }
    return parts == 1 ? "" : mc::fmt("the cells fall into %d parts that are not joined", parts);
}
static uint64_t maze(int rows, int cols, int width, double sx, double sy, int deviations)
{
    int W = std::max(2, width), b = std::max(1, width / 4), n = cols / W, k = rows / W; if (n * k < 2) return 0; uint64_t runs = 0; auto was = rnd;
    mc::describe(mc::fmt("maze of %dx%d cells of %d pixels, map %dx%d, start (%g,%g)", n, k, width, cols, rows, sx, sy));
    auto body = [&] { ++runs; cv::Mat m(rows, cols, CV_8UC1, cv::Scalar::all(0)); rnd = was; rnd.map = &m; mc::step(n * k); { map_generator::Maze<Pose2d> z(width, m); z.run(Pose2d(sx, sy, 0), Pose2d(cols - 1, rows - 1, 0)); } rnd.map = nullptr; mc::exec();
        std::vector<int> r, d; std::string e = judge(m, n, k, W, b, r, d); if (e.empty()) e = tree(n, k, r, d); if (!e.empty()) mc::fail("maze of %dx%d cells of %d pixels on a map of %dx%d, begun at (%g,%g): %s: %s", n, k, width, cols, rows, sx, sy, e.c_str(), text(m).c_str()); mc::Hash h; for (int i = 0; i < n * k; ++i) h.u(r[i] * 2 + d[i]); mc::state(h.u(n).u(k).h); mc::nontrivial(); };
    rnd.explore = deviations > 0; was = rnd; if (deviations) mc::explore(body, deviations); else body(); rnd = decltype(rnd)(); return runs;
}
// the Hilbert curve from cell (1,1) over 256 x 256 cells, on maps that hold it and on smaller ones
static void hilbert(int rows, int cols, int width)
{
    const int S = 256; int W = std::max(2, width); mc::describe(mc::fmt("filling curve, cells of %d pixels, map %dx%d", width, cols, rows)); cv::Mat m(rows, cols, CV_8UC1, cv::Scalar::all(0)); rnd.map = &m; { map_generator::HilbertCurve<Pose2d> h(width, m); h.run(Pose2d(0, 0, 0), Pose2d(1, 1, 0)); } rnd.map = nullptr; mc::exec(); mc::step(S * S);
    std::vector<int> r, d; std::string e = judge(m, S, S, W, 1, r, d, true, 1); int ends = 0; auto vis = [&](int x, int y) { return (x + 1) * W < cols && (y + 1) * W < rows; }; // cells at least partly on the map
    bool whole = (S + 1) * W <= cols && (S + 1) * W <= rows; if (e.empty() && whole) e = tree(S, S, r, d);
    for (int y = 0; y < S && e.empty(); ++y) for (int x = 0; x < S && e.empty(); ++x) { if (!vis(x, y)) continue; int deg = r[y * S + x] + d[y * S + x] + (x ? r[y * S + x - 1] : 0) + (y ? d[(y - 1) * S + x] : 0); if (deg > 2 || !deg) { if (deg > 2 || (vis(x + 1, y) && vis(x, y + 1))) e = mc::fmt("cell (%d,%d) has %d openings", x, y, deg); } ends += deg == 1; }
    if (e.empty() && whole && ends != 2) e = mc::fmt("%d cells with one opening", ends); if (e.empty() && whole && !(r[0] + d[0] == 1)) e = "the curve does not begin in its corner";
    if (!e.empty()) mc::fail("filling curve, cells of %d pixels on a map of %dx%d: %s", width, cols, rows, e.c_str()); mc::nontrivial(); mc::Hash h; for (int v : r) h.u(v); mc::state(h.u(rows).u(cols).h);
}
void mc_setup()
{
    static const int CELLS[][2] = {{1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 5}, {5, 1}, {3, 3}, {2, 4}, {4, 2}}, WID[] = {1, 2, 3, 4, 5, 8, 9};
    // every sequence of fruitful draws
    mc::family("every run", 10 * 7 * 9 * 2, [](uint64_t i) { Dec d(i); const int *c = CELLS[d(10)]; int w = WID[d(7)], s = d(9); rnd.repeat = d(2); if (s >= c[0] * c[1] || (c[0] * c[1] > 6 && rnd.repeat)) { rnd.repeat = 0; return; } int W = std::max(2, w); maze(c[1] * W, c[0] * W, w, (s % c[0] + 0.5) * W, (s / c[0] + 0.5) * W, 1000); }, 1, 120);
    if (mc::thorough) mc::family("every run, larger", 3 * 12, [](uint64_t i) { static const int C[][2] = {{3, 4}, {4, 3}, {2, 6}}; Dec d(i); const int *c = C[d(3)]; int s = d(12); maze(c[1] * 4, c[0] * 4, 4, (s % c[0]) * 4, (s / c[0]) * 4, 1000); }, 1, 1200);
    // every sequence of first draws, fruitful or not
    mc::family("every draw", 2 * mc::ipow(4, mc::thorough ? 9 : 7), [](uint64_t i) { Dec d(i); int big = d(2); rnd.digits = mc::thorough ? 9 : 7; rnd.raw = d.v; maze(big ? 6 : 4, 4, 2, 1, 3, 0); });
    // sizes that the cells do not divide, every place to begin
    mc::family("sizes", 30 * 30 * 9, [](uint64_t i) { Dec d(i); int rows = 1 + d(30), cols = 1 + d(30), w = 1 + d(9); for (int y = 0; y < rows; y += rows > 12 ? 1 + rows / 6 : 1) for (int x = 0; x < cols; x += cols > 12 ? 1 + cols / 6 : 1) for (int f = 0; f < 2; ++f) maze(rows, cols, w, x + f * 0.9, y + f * 0.9, 0); for (int f = 0; f < 4; ++f) maze(rows, cols, w, f & 1 ? cols - 0.01 : 0, f & 2 ? rows - 0.01 : 0, 0); });
    mc::family("one draw changed, larger mazes", 6 * 4, [](uint64_t i) { static const int R[][3] = {{40, 40, 4}, {33, 47, 5}, {64, 16, 2}, {16, 64, 3}, {50, 50, 9}, {128, 128, 16}}; Dec d(i); const int *r = R[d(6)]; int s = d(4); maze(r[0], r[1], r[2], s & 1 ? r[1] - 1 : 0, s & 2 ? r[0] - 1 : 0, 1); });
    mc::family("filling curve", 12, [](uint64_t i) { static const int R[][3] = {{520, 520, 2}, {514, 514, 1}, {771, 771, 3}, {1030, 1028, 4}, {1290, 1290, 5}, {128, 128, 2}, {128, 128, 4}, {128, 128, 16}, {100, 77, 3}, {515, 300, 2}, {300, 515, 2}, {64, 64, 20}}; hilbert(R[i][0], R[i][1], R[i][2]); }, 1, 120);
    mc::bound("every sequence of random choices for mazes of up to 3x3%s, 5x1 and 4x2 cells from every cell, seven cell sizes; every sequence of the first %d random numbers for 2x2 and 3x2 cells; every map up to 30x30 pixels with cell sizes 1..9 begun everywhere; mazes of up to 256 cells with one choice changed; the filling curve on twelve maps", mc::thorough ? ", 4x3 and 2x6" : "", mc::thorough ? 9 : 7);
    mc::assumption("random numbers are fair: after a number that opens no cell the following ones go round all four directions; maps of at least two cells; the map is all walls before (as the evaluator makes it)");
}

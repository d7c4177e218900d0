// C35: the cost table written by the precomputation tool holds the cheapest curve for every start
#include "rs.h"
#include <opencv2/opencv.hpp>
#include <opencv2/imgproc/imgproc_c.h>
#include <boost/exception/all.hpp>
#include <boost/program_options.hpp>
#include <fstream>
#include <iostream>
#include <unistd.h>
#define main precompute_main
#include <cslibs_path_planning/../../src/ReedsShepp/CostPrecomputation.cpp>
#undef main
using namespace rs; using mc::Dec;
// no windows here
int cv::waitKey(int) { return -1; }
void cv::imshow(const cv::String &, cv::InputArray) {}
static int run(std::vector<std::string> a)
{
    std::vector<char *> v; a.insert(a.begin(), "CostPrecomputation"); for (auto &s : a) v.push_back(&s[0]); v.push_back(nullptr);
    struct Mute { std::ostringstream o, e; std::streambuf *c = std::cout.rdbuf(o.rdbuf()), *d = std::cerr.rdbuf(e.rdbuf()); ~Mute() { std::cout.rdbuf(c); std::cerr.rdbuf(d); } } mute;
    return precompute_main((int) a.size(), v.data());
}
struct Scratch { std::string dir; Scratch() { char t[] = "/tmp/c35-XXXXXX"; dir = mkdtemp(t); } std::string file() const { return dir + "/heuristic_holo_no_obst.txt"; } ~Scratch() { ::unlink(file().c_str()); ::rmdir(dir.c_str()); } };
static std::vector<Segs> WS;
static void table(int dim, int angles, double res, bool dbg, int only = -1)
{
    std::string w = mc::fmt("--dimension=%d --angles=%d --resolution=%g", dim, angles, res); mc::describe(w); Scratch s; std::vector<std::string> a{mc::fmt("--dimension=%d", dim), mc::fmt("--angles=%d", angles), mc::fmt("--resolution=%.17g", res), "--directory=" + s.dir}; if (dbg) a.push_back("--debug");
    int r = run(a); mc::exec(); if (r) mc::fail("%s ends with status %d", w.c_str(), r); std::ifstream in(s.file()); int d = -1, n = -1; double q = 0; in >> d >> n >> q; int px = dim / res;
    if (!in || d != px || n != angles || std::fabs(q - res) > 1e-5 * res) mc::fail("%s: the table is headed %d, %d, %g; it has %d cells a side", w.c_str(), d, n, q, px);
    mc::Hash h; double R = 2.5 / res; P go{px / 2., px / 2., 0}; Costs c;
    for (int k = 0; k < angles; ++k) { double t = -1; in >> t; if (!in || std::fabs(t - k * TAU / angles) > 1e-5 * (1 + t)) mc::fail("%s: heading %d is %g", w.c_str(), k, t);
        for (int y = 0; y < px; ++y) for (int x = 0; x < px; ++x) { double v = -1; in >> v; if (!in) mc::fail("%s: there is no cost for (%d,%d), heading %d", w.c_str(), x, y, k); if (only >= 0 && (x + 3 * y + k) % 7 != only) continue; bool vague = false; double best = 1e300; for (auto &sg : WS) { bool e; for (auto &sol : solve(sg, P{(double) x, (double) y, k * TAU / angles}, go, R, c, e)) best = std::min(best, sol.weight); vague |= e; } mc::step();
            if (vague) continue; if (best > 1e299) best = 0; else mc::nontrivial(); if (!(std::fabs(v - best) <= tolw(best) + 1e-5 * best)) mc::fail("%s: the cost of (%d,%d), heading %d of %d, is %g; the cheapest curve to (%g,%g) costs %g", w.c_str(), x, y, k, angles, v, go.x, go.y, best); h.q(v, 1e-3); } }
    std::string rest; if (in >> rest) mc::fail("%s: there is more in the table: %s", w.c_str(), rest.c_str()); mc::state(h.h);
}
static const char *BAD[] = {"--dimension=101", "--dimension=-1", "--angles=0", "--angles=37", "--resolution=0", "--resolution=2.5", "--resolution=-1", "--nonsense=1"};
void mc_setup()
{
    for (const char *w : {"LSL", "LSR", "RSL", "RSR", "LRL", "RLR"}) { Segs s; spell(w, s); WS.push_back(s); }
    static const double RES[] = {0.5, 1, 0.7, 2, 0.25}; const int DIM = mc::thorough ? 13 : 9;
    mc::family("tables", DIM * 8 * 5, [=](uint64_t i) { static const int ANG[] = {1, 2, 3, 4, 7, 8, 16, 36}; Dec d(i); int dim = d(DIM), a = ANG[d(8)]; double res = RES[d(5)]; if (!mc::thorough && dim / res > 24 && a > 8) return; table(dim, a, res, false); }, 1, 300);
    mc::family("every number of headings", 36, [](uint64_t i) { table(6, 1 + i, 0.5, false); }, 1, 120);
    mc::family("large tables", 4, [](uint64_t i) { static const double L[][3] = {{16, 16, 0.5}, {100, 1, 2}, {33, 5, 0.7}, {10, 36, 0.25}}; table(L[i][0], L[i][1], L[i][2], i == 0); }, 1, 300);
    mc::family("options", 8 * 4, [](uint64_t i) { Dec d(i); const char *b = BAD[d(8)]; int miss = d(4); Scratch s; std::vector<std::string> a{"--dimension=4", "--angles=2", "--resolution=1", "--directory=" + s.dir}; std::string k = std::string(b).substr(0, std::string(b).find('=')); if (miss == 3) a.erase(a.begin() + i / 8 % 4); bool put = false; for (auto &x : a) if (x.compare(0, k.size(), k) == 0) x = b, put = true; if (!put) a.push_back(b); if (miss < 3) std::rotate(a.begin(), a.begin() + miss, a.end()); mc::describe(b); int r = run(a); mc::exec(); mc::nontrivial(); mc::state(i); if (!r || ::access(s.file().c_str(), F_OK) == 0) mc::fail("%s is accepted: status %d", b, r); });
    mc::family("missing options", 15, [](uint64_t i) { Scratch s; std::vector<std::string> all{"--dimension=4", "--angles=2", "--resolution=1", "--directory=" + s.dir}, a; for (int k = 0; k < 4; ++k) if (i >> k & 1) a.push_back(all[k]); int r = run(a); mc::exec(); mc::nontrivial(); mc::state(i); if (!r || ::access(s.file().c_str(), F_OK) == 0) mc::fail("only %d options (%d) are accepted", (int) a.size(), (int) i); });
    mc::bound("dimensions 0..%d m, 1..36 headings, five resolutions, every cell and heading of each table; every required option missing, every limit overstepped", DIM - 1);
    mc::assumption("the independent solver of C18/C19 is the reference for the six words of the tool; starts on the limit of a construction (within 1e-6) are not judged; starts less than two cells from the goal have no curve and cost 0");
}

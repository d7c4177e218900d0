// C17: curve pattern strings
#include "rs.h"
using namespace rs; using mc::Dec;
static const char AL[] = "LRS|()bpX";        // the pattern alphabet and an illegal character
static const int NA = 9;
struct Query { P st, go; };
static const Query Q[] = {{{10.2, 20.1, 0.3}, {27.5, 24.9, 1.9}}, {{10.2, 20.1, -2.3}, {8.1, 14.3, 0.4}}, {{0, 0, 3.0}, {3.3, -6.1, -1.1}}};
static GridMap2d *map_() { static std::unique_ptr<SimpleGridMap2d> m = freemap(4, 4, 1.0); return m.get(); }
static void setup(CurveGenerator &g) { g.set_circle_radius(3.25); g.set_max_waypoint_distance(0.5); g.set_cost_backwards(1.7); g.set_cost_curve(1.3); }
static Costs costs() { Costs c; c.bwd = 1.7; c.curve = 1.3; return c; }
static double expected(const Segs &s, const Query &q) { bool e; double b = 1e300; for (auto &x : solve(s, q.st, q.go, 3.25, costs(), e)) b = std::min(b, x.weight); return b; }
static double found(CurveGenerator &g, const Query &q) { std::unique_ptr<Curve> c(g.find_path(pose(q.st), pose(q.go), map_(), true)); mc::step(); return c ? c->weight() : 1e300; }
static bool same(double a, double b) { return (a > 1e299 && b > 1e299) || std::fabs(a - b) <= tolw(a); }
static std::string show(const std::string &w) { std::string s; for (char c : w) s += c ? std::string(1, c) : std::string("\\0"); return "\"" + s + "\""; }
static bool judge(CurveGenerator &g, const std::string &w, Segs &segs)
{
    bool good = spell(w, segs); std::stringstream ss; bool r = g.parse(w, ss); mc::step();
    if (r != good) mc::fail("the word %s is %s but the parser says it is %s", show(w).c_str(), good ? "correct" : "malformed", r ? "correct" : "malformed");
    if (good != ss.str().empty()) mc::fail("the word %s is %s and the parser reports: '%s'", show(w).c_str(), good ? "correct" : "malformed", ss.str().c_str());
    return good;
}
static void one(const std::string &w, int depth)
{
    Segs segs; CurveGenerator g; setup(g); bool good = judge(g, w, segs); mc::exec(); if (good && supported(segs)) mc::nontrivial();
    { mc::Hash h; h.u(good); if (good) for (auto &x : segs) h.u(x.steer * 4 + x.dir + 8); mc::state(h.h); }
    if (depth == 0) return;
    for (auto &q : Q) {
        double e = good ? expected(segs, q) : 1e300, f = found(g, q);
        if (!same(e, f)) mc::fail("after the %s word %s the curve has weight %g instead of %g", good ? "correct" : "malformed", show(w).c_str(), f, e);
    }
    // a word given before and one given after the word count as if they were alone
    if (depth == 2) {
        static const char *O[] = {"LSL", "|RL|R"};
        for (int order = 0; order < 2; ++order) {
            CurveGenerator h; setup(h); Segs a, b, s; judge(h, O[order], a); judge(h, w, s); judge(h, O[1 - order], b);
            for (auto &q : Q) { double e = std::min(expected(a, q), expected(b, q)); if (good) e = std::min(e, expected(segs, q)); double f = found(h, q); if (!same(e, f)) mc::fail("words %s, %s, %s: weight %g instead of %g", O[order], show(w).c_str(), O[1 - order], f, e); }
        }
    }
}
static int LEN; // full strings
static void strings(uint64_t i)
{
    Dec d(i); std::string pre; for (int k = 0; k < 3; ++k) pre += AL[d(NA)]; int len = 3 + d(LEN - 2);
    mc::describe(mc::fmt("every word of length %d beginning with %s", len, pre.c_str()));
    uint64_t n = mc::ipow(NA, len - 3);
    for (uint64_t j = 0; j < n; ++j) { Dec e(j); std::string w = pre; for (int k = 3; k < len; ++k) w += AL[e(NA)]; one(w, len <= LEN - 2 ? 2 : len == LEN - 1 ? 1 : 0); }
}
static void small(uint64_t)
{
    mc::describe("words of up to two characters of the whole character set");
    one("", 2);
    for (int a = 0; a < 256; ++a) { std::string w(1, (char) a); one(w, 2); for (int b = 0; b < 256; ++b) { std::string v = w; v += (char) b; one(v, 1); std::string u = "LS"; u += v; u += "R"; one(u, 1); } }
}
// correct words longer than the exhaustive strings: every cusp and every mark at every place of a supported word
static void marked(uint64_t i)
{
    Dec d(i); static std::vector<std::string> W = words(); const std::string &w = W[d(W.size())]; static const char *MK[] = {"", "(b)", "(p)", "()", "(bp)", "(b", "b)", "(S)", "((b))", "X"};
    mc::describe("marked word " + w);
    size_t n = w.size() + 1;
    for (int a = 0; a < 10; ++a) for (size_t x = 0; x < n; ++x) for (int b = 0; b < 10; ++b) for (size_t y = x; y < n; ++y)
        one(w.substr(0, x) + MK[a] + w.substr(x, y - x) + MK[b] + w.substr(y), 1);
}
// many words in one generator, any of them malformed: nothing but the correct ones count
static void many(uint64_t i)
{
    Dec d(i); static std::vector<std::string> W = words(); int first = d(W.size()); static const char *BAD[] = {"LX", "(", "L(", "b", ")", "(b)L", "S(b)", "L((", "LSR)"};
    mc::describe(mc::fmt("all words from number %d on, malformed ones between", first));
    CurveGenerator g; setup(g); Segs s; double best[3] = {1e300, 1e300, 1e300};
    for (size_t k = 0; k < W.size(); ++k) {
        if (k % 3 == 0) judge(g, BAD[(k / 3 + first) % 9], s);
        judge(g, W[(first + k) % W.size()], s); if (k % 5 == 0) judge(g, W[(first + k) % W.size()], s);
        for (int q = 0; q < 3; ++q) { best[q] = std::min(best[q], expected(s, Q[q])); if (k % 4 == 0) { double f = found(g, Q[q]); if (!same(best[q], f)) mc::fail("%zu words from number %d on: weight %g instead of %g", k + 1, first, f, best[q]); } }
        mc::exec(); mc::nontrivial();
    }
}
void mc_setup()
{
    LEN = mc::thorough ? 8 : 7;
    mc::bound("every string over {L R S | ( ) b p X} of length 3..%d, every string of one or two arbitrary bytes (also inside a word)", LEN);
    mc::bound("every pair of 10 marks at every pair of places of the 80 supported words; every rotation of the list of words mixed with malformed ones");
    mc::family("strings", 729ull * (LEN - 2), strings, 4, 300);
    mc::family("bytes", 1, small, 1, 300);
    mc::family("marked words", 80, marked, 1, 300);
    mc::family("many words", 80, many, 4);
}

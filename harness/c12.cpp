// C12: classification and storage of grid map cells
#include "mc.h"
#include <cslibs_path_planning/common/SimpleGridMap2d.h>
#include <cslibs_path_planning/common/RotatedGridMap2d.h>
#include <cslibs_path_planning/common/CollisionGridMap2d.h>
#include <memory>
using namespace lib_path;
using mc::Dec;

static std::unique_ptr<SimpleGridMap2d> make(int kind, unsigned w, unsigned h, double r)
{
    if (kind == 0) return std::unique_ptr<SimpleGridMap2d>(new SimpleGridMap2d(w, h, r));
    return std::unique_ptr<SimpleGridMap2d>(new RotatedGridMap2d(w, h, 0.3, r));
}
// 1 free, 2 occupied, 4 unknown
static int ref_class(int v, int lo, int up, int ni)
{
    if (ni != -1 && v == ni) return 4;
    return v <= lo ? 1 : v >= up ? 2 : 4;
}
static void classes(uint64_t i)
{
    Dec d(i); int lo = d(256), kind = d(2);
    static std::unique_ptr<SimpleGridMap2d> maps[2];
    if (!maps[kind]) {
        maps[kind] = make(kind, 16, 16, 0.5);
        for (int v = 0; v < 256; ++v) maps[kind]->setValue(v % 16, v / 16, v);
    }
    SimpleGridMap2d &m = *maps[kind]; GridMap2d &g = m;
    mc::describe(mc::fmt("map kind %d, lower threshold %d, every upper threshold above it", kind, lo));
    m.setLowerThreshold(lo);
    for (int up = lo + 1; up < 256; ++up) {
        m.setUpperThreshold(up);
        std::vector<int> nis;
        if (mc::thorough) for (int n = -1; n < 256; ++n) nis.push_back(n);
        else for (int n : {-1, 0, lo - 1, lo, lo + 1, (lo + up) / 2, up - 1, up, up + 1, 255, 300}) nis.push_back(n);
        for (int ni : nis) {
            if (ni < -1) continue;
            m.setNoInformationValue(ni);
            for (int v = 0; v < 256; ++v) {
                unsigned x = v % 16, y = v / 16;
                int want = ref_class(v, lo, up, ni);
                int got = (g.isFree(x, y) ? 1 : 0) | (g.isOccupied(x, y) ? 2 : 0) | (g.isNoInformation(x, y) ? 4 : 0);
                if (got != want) mc::fail("value %d with thresholds %d/%d and no-information %d: got class %d, want %d", v, lo, up, ni, got, want);
            }
            mc::exec(256); mc::nontrivial(ni == -1 ? 0 : 256);
        }
        mc::step(1);
        mc::state(mc::Hash().u(lo).u(up).h);
        // heading and point variants, on the boundary values
        for (int ni : {-1, lo, up, (lo + up) / 2}) {
            m.setNoInformationValue(ni);
            for (int v : {0, lo, lo + 1, (lo + up) / 2, up - 1, up, 255}) {
                unsigned x = v % 16, y = v / 16; int want = ref_class(v, lo, up, ni);
                double px, py; g.cell2point(x, y, px, py); Point2d p(px, py);
                int got = (g.isFree(p) ? 1 : 0) | (g.isOccupied(p) ? 2 : 0) | (g.isNoInformation(p) ? 4 : 0);
                if (got != want) mc::fail("by point: value %d thresholds %d/%d no-information %d: class %d, want %d", v, lo, up, ni, got, want);
                for (double th : {0.0, 1.0, -3.0}) {
                    got = (g.isFree(x, y, th) ? 1 : 0) | (g.isOccupied(x, y, th) ? 2 : 0) | (g.isNoInformation(x, y, th) ? 4 : 0);
                    if (got != want) mc::fail("with heading %g: value %d thresholds %d/%d no-information %d: class %d, want %d", th, v, lo, up, ni, got, want);
                }
                mc::exec(4);
            }
        }
    }
}
static void defaults(uint64_t i)
{
    int kind = i; mc::describe(mc::fmt("default thresholds, map kind %d", kind));
    std::unique_ptr<SimpleGridMap2d> m = make(kind, 16, 16, 1);
    for (int v = 0; v < 256; ++v) {
        m->setValue(v % 16, v / 16, v);
    }
    for (int v = 0; v < 256; ++v) {
        unsigned x = v % 16, y = v / 16; int want = ref_class(v, 50, 200, -1);
        int got = (m->isFree(x, y) ? 1 : 0) | (m->isOccupied(x, y) ? 2 : 0) | (m->isNoInformation(x, y) ? 4 : 0);
        if (got != want) mc::fail("default map: value %d class %d want %d", v, got, want);
        mc::exec(); mc::step(2);
    }
}
struct Model { unsigned w, h; std::vector<uint8_t> d; };
static const uint8_t VALS[3] = {0, 7, 255};
static void check(SimpleGridMap2d &m, const Model &r, const char *when)
{
    GridMap2d &g = m;
    if (g.getWidth() != r.w || g.getHeight() != r.h) mc::fail("%s: size %ux%u, want %ux%u", when, g.getWidth(), g.getHeight(), r.w, r.h);
    for (unsigned y = 0; y < r.h; ++y) for (unsigned x = 0; x < r.w; ++x) {
        if (g.getValue(x, y) != r.d[y * r.w + x]) mc::fail("%s: cell (%u,%u) of a %ux%u map reads %d, want %d", when, x, y, r.w, r.h, g.getValue(x, y), r.d[y * r.w + x]);
        if (m.getData()[y * r.w + x] != r.d[y * r.w + x]) mc::fail("%s: raw data of cell (%u,%u) differs", when, x, y);
    }
    mc::exec();
    mc::Hash h; h.u(r.w).u(r.h); for (uint8_t v : r.d) h.u(v); mc::state(h.h);
}
static const int S = 4; // shapes 1..S
static void storage(uint64_t i)
{
    Dec d(i); unsigned w = 1 + d(S), h = 1 + d(S); int kind = d(2); int first = d(48);
    std::vector<std::function<void(SimpleGridMap2d &, Model &)>> ops; std::vector<std::string> names;
    auto rebuild = [&](const Model &r) {
        ops.clear(); names.clear();
        for (unsigned y = 0; y < r.h; ++y) for (unsigned x = 0; x < r.w; ++x) for (int v = 1; v < 3; ++v) {
            ops.push_back([=](SimpleGridMap2d &m, Model &q) { m.setValue(x, y, VALS[v]); q.d[y * q.w + x] = VALS[v]; });
            names.push_back(mc::fmt("set(%u,%u)=%d", x, y, VALS[v]));
        }
        for (int v = 0; v < 3; ++v) {
            ops.push_back([=](SimpleGridMap2d &m, Model &q) { m.set(VALS[v]); std::fill(q.d.begin(), q.d.end(), VALS[v]); });
            names.push_back(mc::fmt("fill %d", VALS[v]));
        }
        for (unsigned a = 1; a <= 3; ++a) for (unsigned b = 1; b <= 3; b += 2) {
            ops.push_back([=](SimpleGridMap2d &m, Model &q) {
                std::vector<uint8_t> dat; for (unsigned k = 0; k < a * b; ++k) dat.push_back(10 + k);
                m.set(dat, a, b); q.w = a; q.h = b; q.d = dat; });
            names.push_back(mc::fmt("replace %ux%u", a, b));
        }
    };
    Model r0{w, h, std::vector<uint8_t>(w * h, 0)};
    rebuild(r0);
    if (first >= (int) ops.size()) return;
    auto op1 = ops[first]; std::string n1 = names[first];
    mc::describe(mc::fmt("kind %d map %ux%u first operation ", kind, w, h) + n1 + ", then every second and third operation");
    Model r1 = r0; { auto m = make(kind, w, h, 1.0); check(*m, r1, "fresh"); op1(*m, r1); check(*m, r1, n1.c_str()); mc::step(1); }
    rebuild(r1); auto ops2 = ops; auto names2 = names;
    for (size_t b = 0; b < ops2.size(); ++b) {
        Model r2 = r1; { auto m = make(kind, w, h, 1.0); Model t = r0; op1(*m, t); ops2[b](*m, r2); check(*m, r2, (n1 + "; " + names2[b]).c_str()); mc::step(2); }
        rebuild(r2);
        if (!mc::thorough && w * h > 6) continue;
        for (size_t c = 0; c < ops.size(); ++c) {
            auto m = make(kind, w, h, 1.0); Model t = r0; op1(*m, t); Model r3 = r2; { Model u = r1; ops2[b](*m, u); } ops[c](*m, r3);
            check(*m, r3, (n1 + "; " + names2[b] + "; " + names[c]).c_str()); mc::step(3); mc::nontrivial();
        }
    }
}
static void bigshapes(uint64_t i)
{
    Dec d(i); static const unsigned WS[] = {1, 2, 31, 32, 33, 255, 256, 257, 300}; unsigned w = WS[d(9)], h = WS[d(9)]; int kind = d(2);
    mc::describe(mc::fmt("kind %d map %ux%u: every cell holds its own value", kind, w, h));
    auto m = make(kind, w, h, 0.1);
    auto val = [&](unsigned x, unsigned y) { return (uint8_t)(x * 7 + y * 31 + (x * y) / 5 + 3); };
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) m->setValue(x, y, val(x, y));
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x)
        if (m->getValue(x, y) != val(x, y)) mc::fail("cell (%u,%u) of %ux%u reads %d, wrote %d", x, y, w, h, m->getValue(x, y), val(x, y));
    mc::exec(); mc::step(w * h); mc::nontrivial(); mc::state(mc::Hash().u(w).u(h).u(77).h);
}
void mc_setup()
{
    mc::bound("classification: all 256 values x all threshold pairs lower<upper x %s no-information settings, simple and rotated map", mc::thorough ? "all 257" : "11 boundary");
    mc::bound("storage: all operation sequences of depth 3 (write any cell / fill / replace by another size) on maps up to %dx%d, plus per-cell values on 81 shapes up to 300x300", S, S);
    mc::family("defaults", 2, defaults);
    mc::family("storage", (uint64_t) S * S * 2 * 48, storage, 8);
    mc::family("big-shapes", 162, bigshapes, 8);
    mc::family("classes", 512, classes, 4, 120);
}

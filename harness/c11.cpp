// C11: the open list: every operation sequence up to the bounded depth against a reference
#include "mc.h"
#include <cslibs_path_planning/a_star/OpenList.h>
#include <memory>
using namespace lib_path;
using mc::Dec;
struct Ref { bool init, visited, stored; double d, p; int par; };
struct Model {
    std::vector<Ref> n; Model(int k) : n(k, Ref{false, false, false, 0, 0, -1}) {}
    static double val(const Ref &r) { return (double) (float) r.d + (double) (float) r.p; }
    static int key(const Ref &r) { return (int) ((float) r.d + (float) r.p); }
};
struct Add { int node; double d, p; };
static std::vector<Add> menu(int level)
{
    std::vector<Add> m; int N = 3;
    static const double D[] = {1.0, 1.5, 2.0, 3.25, 0.5}, P[] = {0.0, 1.25};
    for (int i = 0; i < N; ++i) for (int k = 0; k < (level ? 5 : 4); ++k) m.push_back({i, D[k], 0});
    for (int i = 0; i < N; ++i) m.push_back({i, 1.0, P[1]});
    return m;
}
struct Sys {
    int W, H; OpenList l; Model m; std::vector<Node *> handle; std::string hist; bool poppedNull = false;
    std::vector<int> stored() { std::vector<int> s; for (size_t i = 0; i < m.n.size(); ++i) if (m.n[i].stored) s.push_back(i); return s; }
    Sys(int W, int H) : W(W), H(H), l(W, H), m(W * H), handle(W * H, nullptr) {}
    void add(int i, double d, double p, int par)
    {
        hist += mc::fmt("add %d cost %g+%g parent %d; ", i, d, p, par);
        waypoint_t w; w.x = i % W; w.y = i / W; Node *pn = par >= 0 ? handle[par] : nullptr; if (par >= 0 && !pn) par = -1;
        l.addNode(w, d, p, pn); mc::step();
        Ref &r = m.n[i];
        if (!r.init) { r = Ref{true, false, true, d, p, par}; return; }
        if (r.visited) return;                                   // closed nodes are never stored again
        double nt = d + p, ot = Model::val(r);
        if (nt <= Model::key(r)) { r.d = d; r.par = par; return; }   // improves by the documented integer comparison
        if (nt > ot) return;                                      // more expensive: nothing changes
        // in between (cheaper by less than the rounding): may or may not be taken; remember both
        maybe.push_back({i, d, par});
    }
    struct Alt { int i; double d; int par; }; std::vector<Alt> maybe;
    void pop()
    {
        hist += "pop; "; Node *n = l.getFirstNode(); mc::step(); std::vector<int> s = stored();
        if (s.empty()) { if (n) mc::fail("after %spop from an empty list yields a node", hist.c_str()); return; }
        if (!n) mc::fail("after %spop yields nothing, but %zu nodes are stored", hist.c_str(), s.size());
        waypoint_t w = n->getPosition(); int i = w.y * W + w.x;
        if (w.x < 0 || w.y < 0 || w.x >= W || w.y >= H || !m.n[i].stored) mc::fail("after %spop yields (%d,%d), which is not stored", hist.c_str(), w.x, w.y);
        // admit undecided cheaper costs
        auto matches = [&](int k, double d, Node *par) {
            Ref &r = m.n[k]; Node *rp = r.par >= 0 ? handle[r.par] : nullptr; if (std::fabs(r.d - d) < 1e-5 && rp == par) return true;
            for (auto &a : maybe) if (a.i == k && std::fabs(a.d - d) < 1e-5 && (a.par >= 0 ? handle[a.par] : nullptr) == par) { r.d = a.d; r.par = a.par; return true; }
            return false; };
        if (!matches(i, n->getDistance(), n->getParent())) mc::fail("after %snode %d has cost %g parent %p, want cost %g parent %d", hist.c_str(), i, n->getDistance(), (void *) n->getParent(), m.n[i].d, m.n[i].par);
        int k = Model::key(m.n[i]);
        if (n->getValue() != k) mc::fail("after %snode %d reports rounded total %d, want %d", hist.c_str(), i, n->getValue(), k);
        for (int o : s) { int ko = Model::key(m.n[o]); for (auto &a : maybe) if (a.i == o) ko = std::max(ko, Model::key(m.n[o])); if (ko < k) mc::fail("after %spop yields node %d with rounded total %d, but node %d has %d", hist.c_str(), i, k, o, ko); }
        if (!n->isVisited()) mc::fail("after %sthe popped node %d is not marked visited", hist.c_str(), i);
        if (n->getPositionIndex() != i) mc::fail("after %sthe popped node %d has index %d", hist.c_str(), i, n->getPositionIndex());
        handle[i] = n; m.n[i].stored = false; m.n[i].visited = true;
    }
    void clear() { hist += "new search; "; l.prepareNewSearch(); mc::step(); m = Model(W * H); handle.assign(W * H, nullptr); maybe.clear(); }
    void drain()
    {
        size_t limit = W * H + 2; for (size_t k = 0; k < limit; ++k) { bool e = stored().empty(); pop(); if (e) return; }
        mc::fail("after %sthe list never empties", hist.c_str());
    }
    uint64_t hash() { mc::Hash h; for (auto &r : m.n) h.u(r.init).u(r.visited).u(r.stored).d(r.d).d(r.p).u(r.par); return h.h; }
};
static void sequences(uint64_t i)
{
    std::vector<Add> M = menu(mc::thorough); int N = M.size(), NO = N + 2; // + pop, clear
    Dec d(i); int first = d(N), second = d(NO); int depth = mc::thorough ? 6 : 5; const int W = 3, H = 1;
    mc::describe(mc::fmt("operations %d,%d then every continuation of length %d, then drained", first, second, depth - 2));
    for (uint64_t s = 0; s < mc::ipow(NO, depth - 2); ++s) {
        Sys y(W, H); Dec q(s); int lastpop = -1;
        for (int k = 0; k < depth; ++k) {
            int op = k == 0 ? first : k == 1 ? second : q(NO);
            if (op < N) y.add(M[op].node, M[op].d, M[op].p, lastpop);
            else if (op == N) { y.pop(); for (int z = 0; z < W * H; ++z) if (y.handle[z]) lastpop = z; }
            else { y.clear(); lastpop = -1; }
            mc::state(y.hash());
        }
        y.drain();
        // a new search starts empty and accepts every cell again
        y.clear(); y.pop(); for (int z = 0; z < W * H; ++z) y.add(z, 3 - z, 0, -1); y.drain();
        mc::exec(); mc::nontrivial();
    }
}
// many nodes, every insertion order of costs with ties, then decreases
static void perms(uint64_t i)
{
    static const double C[6] = {4, 2, 2.5, 7, 2, 5}; Dec d(i); const int W = 3, H = 2; std::vector<int> left{0, 1, 2, 3, 4, 5}; Sys y(W, H); int pops = d(4);
    int n = 0; std::string t; uint64_t perm = d(720); int dec = d(7); double dv = d(3) * 1.0; mc::describe(mc::fmt("six nodes in order #%llu, %d pops in between, node %d decreased to %g", (unsigned long long) perm, pops, dec, dv));
    for (int k = 6; k > 0; --k) { int j = perm % k; perm /= k; int node = left[j]; left.erase(left.begin() + j); y.add(node, C[n], 0.25 * (node % 3), -1); ++n; if (n == 3 && pops > 0) y.pop(); if (n == 5 && pops > 1) y.pop(); }
    if (pops > 2) y.pop();
    if (dec < 6) y.add(dec, dv, 0.25 * (dec % 3), -1);
    mc::state(y.hash()); y.drain(); mc::exec(); mc::nontrivial();
}
// positions: every cell of maps of several shapes has its own slot; outside positions are ignored
static void slots(uint64_t i)
{
    Dec d(i); int W = 1 + d(5), H = 1 + d(5); mc::describe(mc::fmt("%dx%d cells", W, H)); Sys y(W, H); int n = W * H;
    for (int round = 0; round < 2; ++round) {
        for (int k = 0; k < n; ++k) y.add(k, (k * 7) % n, 0.5, -1);
        waypoint_t w; w.x = 0; w.y = H; y.l.addNode(w, 0, 0, nullptr); w.y = -1; y.l.addNode(w, 0, 0, nullptr); w.x = W - 1; w.y = H; y.l.addNode(w, 0, 0, nullptr);
        y.drain(); for (int k = 0; k < n; ++k) y.add(k, 0, 0, -1); y.pop(); y.clear(); mc::exec();
    }
    mc::state(mc::Hash().u(W).u(H).u(5).h);
}
// node arithmetic
static void nodes(uint64_t i)
{
    Dec d(i); static const double V[] = {0, 0.4, 0.99, 1, 1.5, 2, 10.75, 1000.25}; double a = V[d(8)], b = V[d(8)], c = V[d(8)]; waypoint_t w; w.x = 3; w.y = 4; mc::describe(mc::fmt("node cost %g + %g, updated to %g", a, b, c));
    Node p(w, 9, 9, nullptr, 1); Node n(w, a, b, &p, 42); auto near = [](double x, double y) { return std::fabs(x - y) < 1e-4; };
    if (n.getParent() != &p || n.getPosition().x != 3 || n.getPosition().y != 4 || n.getPositionIndex() != 42 || n.isVisited() || !n.isInitialized() || !near(n.getDistance(), a) || n.getValue() != (int) ((float) a + (float) b)) mc::fail("node constructed with cost %g + %g reads back differently", a, b);
    Node q(w, c, 0, nullptr, 7); Node m = n; m.update(&q);
    bool cheaper = c < a; if (!near(m.getDistance(), cheaper ? c : a) || m.getParent() != (cheaper ? nullptr : &p)) mc::fail("updating a node of cost %g from one of cost %g gives cost %g", a, c, m.getDistance());
    m.update(c, &q); if (!near(m.getDistance(), c) || m.getParent() != &q || m.getValue() != (int) ((float) c + (float) b)) mc::fail("update to cost %g not effective", c);
    m.setParent(&p); if (m.getParent() != &p) mc::fail("setParent"); m.setVisited(); if (!m.isVisited()) mc::fail("setVisited"); m.reset(); if (m.isVisited() || m.isInitialized()) mc::fail("reset");
    if (n.toString().find("(3, 4)") == std::string::npos) mc::fail("text"); mc::exec(); mc::step(5); mc::state(mc::Hash().d(a).d(b).d(c).h);
}
void mc_setup()
{
    mc::bound("every sequence of %d operations out of %zu insertions (3 nodes, %d totals with ties and sub-unit differences, parents), pop and new search, then drained and reused", mc::thorough ? 6 : 5, menu(mc::thorough).size(), mc::thorough ? 6 : 5);
    mc::bound("six nodes in all 720 insertion orders with 0..3 interleaved pops and every decrease; all shapes up to 5x5");
    size_t N = menu(mc::thorough).size();
    mc::family("nodes", 512, nodes, 64); mc::family("slots", 25, slots, 1); mc::family("sequences", N * (N + 2), sequences, 1); mc::family("orders", 4 * 720 * 7 * 3, perms, 512);
}

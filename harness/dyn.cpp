// C15: dynamic minimum cut.  Built with and without -DPARALLEL.
#include "sim/rt.h"
#include "sim/oracle.h"
#include "graphs.h"
inline uint32_t g_coarse_limit = 10000;
#define VIECUT_COARSE_LIMIT g_coarse_limit
#include "common/configuration.h"
#include "tools/random_functions.h"
#include "algorithms/global_mincut/minimum_cut.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#endif
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
#include "build_graph.h"

using namespace sim;

#ifndef MULTI
#define MULTI 0.2
#endif
namespace {
typedef unsigned long long ull;
// the graph as the user sees it; several edges may join two vertices
struct Model {
    uint32_t n = 0;
    std::map<std::pair<uint32_t, uint32_t>, std::multiset<uint64_t> > e;
    static std::pair<uint32_t, uint32_t> key(uint32_t a, uint32_t b) { return { std::min(a, b), std::max(a, b) }; }
    ora::Graph graph() const {
        ora::Graph g;
        g.n = n;
        for (auto& x : e) { uint64_t s = 0; for (auto w : x.second) s += w; if (s) g.e.push_back({ x.first.first, x.first.second, s }); }
        return g;
    }
};
std::multiset<uint64_t> between(const mutableGraphPtr& G, uint32_t a, uint32_t b) {
    std::multiset<uint64_t> s;
    for (EdgeID e : G->edges_of(a)) if (G->getEdgeTarget(a, e) == b) s.insert(G->getEdgeWeight(a, e));
    return s;
}
void check_graph(const Model& m, const mutableGraphPtr& G) {
    Model h;
    h.n = G->n();
    if (h.n != m.n) fail("graph", "the graph has %u vertices instead of %u", h.n, m.n);
    for (uint32_t v = 0; v < h.n; ++v) for (EdgeID e : G->edges_of(v)) {
        uint32_t t = G->getEdgeTarget(v, e);
        if (t >= h.n) fail("graph", "vertex %u has an edge to %u", v, t);
        if (v < t) h.e[{ v, t }].insert(G->getEdgeWeight(v, e));
    }
    for (auto& x : m.e) if (!x.second.empty() && h.e[x.first] != x.second) fail("graph", "edge %u-%u of the maintained graph differs from the updates", x.first.first, x.first.second);
    for (auto& x : h.e) { auto it = m.e.find(x.first); if (!x.second.empty() && (it == m.e.end() || it->second != x.second)) fail("graph", "edge %u-%u of the maintained graph differs from the updates", x.first.first, x.first.second); }
}
// the cache of cacti holds 1000 insertions; a smaller one runs full in short histories (this
// file is compiled with -fno-access-control; nothing happens should the member be gone)
template <class D, class = void> struct Cache { static void limit(D&, size_t) { } };
template <class D> struct Cache<D, std::void_t<decltype(std::declval<D&>().max_cache_size = size_t(1))> > {
    static void limit(D& d, size_t n) { d.max_cache_size = n; probe("small_cache"); }
};
struct Stats { int cached = 0; };
void check_state(const Model& m, const ora::Graph& g, uint64_t lam, dynamic_mincut& d, uint64_t value, bool exact, size_t step, const char* what) {
    Quiet q;
    if (value != lam) fail(value < lam ? "below-minimum" : "not-minimum", "after update %zu (%s): reported %llu, the minimum cut is %llu (n=%u m=%zu)", step, what, (ull)value, (ull)lam, g.n, g.e.size());
    if (d.getCurrentCut() != value) fail("current-cut", "after update %zu (%s): returned %llu, getCurrentCut is %llu", step, what, (ull)value, (ull)d.getCurrentCut());
    check_graph(m, d.getOriginalGraph());
    auto C = d.getCurrentCactus();
    if (!C) fail("cactus-missing", "after update %zu (%s): no cactus", step, what);
    std::vector<int> where(g.n, -1);
    uint32_t k = C->n();
    for (uint32_t x = 0; x < k; ++x) for (auto v : C->containedVertices(x)) {
        if (v >= g.n || where[v] >= 0) fail("cactus-vertices", "after update %zu (%s): vertex %u is in two cactus nodes or does not exist", step, what, v);
        where[v] = (int)x;
    }
    for (uint32_t v = 0; v < g.n; ++v) {
        if (where[v] < 0) fail("cactus-vertices", "after update %zu (%s): vertex %u is in no cactus node", step, what, v);
        if ((uint32_t)where[v] != C->getCurrentPosition(v)) fail("cactus-vertices", "after update %zu (%s): vertex %u is in cactus node %d but recorded in %u", step, what, v, where[v], (unsigned)C->getCurrentPosition(v));
    }
    if (k < 2) fail("cactus-missing", "after update %zu (%s): the cactus has one node, there is a minimum cut of weight %llu", step, what, (ull)lam);
    if (lam == 0) {
        std::set<int> used(where.begin(), where.end());
        if (used.size() < 2) fail("cactus-missing", "after update %zu (%s): all vertices are in one cactus node, the graph is disconnected", step, what);
        for (auto& e : g.e) if (where[e.u] != where[e.v]) fail("cactus-spurious", "after update %zu (%s): the cactus separates %u and %u, which an edge joins, by a cut of weight 0", step, what, e.u, e.v);
        return;
    }
    ora::Graph cg;
    cg.n = k;
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> ce;
    for (uint32_t x = 0; x < k; ++x) for (EdgeID e : C->edges_of(x)) {
        uint32_t t = C->getEdgeTarget(x, e);
        if (t >= k || t == x) fail("cactus-structure", "after update %zu (%s): cactus node %u has an edge to %u of %u", step, what, x, t, k);
        if (x < t) ce[{ x, t }] += C->getEdgeWeight(x, e);
    }
    for (auto& x : ce) cg.e.push_back({ x.first.first, x.first.second, x.second });
    if (k > 150) return;
    uint64_t cl = ora::mincut(cg);
    if (cl != lam) fail("cactus-value", "after update %zu (%s): minimum cut %llu, the minimum cut of the cactus is %llu (%u nodes)", step, what, (ull)lam, (ull)cl, k);
    std::set<uint64_t> want, got, raw;
    if (g.n > 64 || k > 64 || !ora::all_mincuts(g, lam, &want, 1500) || !ora::all_mincuts(cg, cl, &raw, 3000)) { probe("too many cuts to compare"); return; }
    uint64_t all = g.n == 64 ? ~0ull : (1ull << g.n) - 1;
    for (auto r : raw) {
        uint64_t s = 0;
        for (uint32_t v = 0; v < g.n; ++v) if (r >> where[v] & 1) s |= 1ull << v;
        if (s & 1) s = all & ~s;
        got.insert(s);
    }
    for (auto s : got) if (!want.count(s)) fail("cactus-spurious", "after update %zu (%s): the cactus has a cut that is no minimum cut (value %llu, n=%u)", step, what, (ull)lam, g.n);
    if (exact) for (auto s : want) if (!got.count(s)) fail("cactus-missing", "after update %zu (%s): the cactus has %zu of %zu minimum cuts (value %llu, n=%u)", step, what, got.size(), want.size(), (ull)lam, g.n);
    if (got.size() < want.size()) probe("cactus keeps only some minimum cuts");
}
enum Op { INS, DEL, INS_ACROSS, DEL_ACROSS, REINSERT, INS_INSIDE, DEL_INSIDE, MISSING, REINIT, UNDO, DOUBLE };

void run(const Case& c) {
    Model m;
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    m.n = g.n;
    g_coarse_limit = (uint32_t)c.get("limit", 10000);
    auto cf = configuration::getConfig();
    cf->save_cut = true;
    cf->verbose = 0;
    cf->threads = (size_t)sim::cfg.threads;
    cf->seed = (size_t)c.get("seed");
    cf->find_most_balanced_cut = c.get("balanced");
    static const char* const ES[] = { "", "heavy", "heavy_weighted", "central", "random", "heavy_vertex" };
    cf->edge_selection = ES[c.get("es") % 6];
    cf->depthOfPartialRelabeling = (size_t)c.get("depth", 1);
    random_functions::setSeed((int)c.get("seed"));
    if (c.get("empty")) g.e.clear();
    for (auto& e : g.e) m.e[Model::key(e.u, e.v)].insert(e.w);
    mutableGraphPtr G = wl::Make<mutableGraphPtr>::make(g);
    dynamic_mincut d;
    if (c.get("cache") > 0) Cache<dynamic_mincut>::limit(d, (size_t)c.get("cache") - 1);
    uint64_t lam, value = d.initialize(G);
    { Quiet q; lam = ora::mincut(g); }
    check_state(m, g, lam, d, value, true, 0, "initialize");
    bool multi = c.get("multi");
    std::vector<std::pair<std::pair<uint32_t, uint32_t>, uint64_t> > gone;
    size_t step = 0, every = m.n > 40 ? 4 : 1, calls = d.getCallsOfStaticAlgorithm();
    for (auto& o : c.ops) {
        if (o.size() != 4) continue;
        ++step;
        uint32_t a = 0, b = 0;
        uint64_t w = (uint64_t)o[3];
        bool ins = true, ok = true;
        const char* what = "insert";
        {
            Quiet q;
            Rng r((uint64_t)o[1]);
            std::vector<std::pair<uint32_t, uint32_t> > es;
            for (auto& x : m.e) if (!x.second.empty()) es.push_back(x.first);
            std::vector<uint8_t> side(m.n, 0);
            bool have = false;
            if ((o[0] == INS_ACROSS || o[0] == DEL_ACROSS || o[0] == INS_INSIDE || o[0] == DEL_INSIDE)) {
                std::set<uint64_t> cuts;
                if (lam > 0 && m.n <= 40 && ora::all_mincuts(g, lam, &cuts, 400) && !cuts.empty()) {
                    auto it = cuts.begin();
                    std::advance(it, (long)r.below(cuts.size()));
                    for (uint32_t v = 0; v < m.n; ++v) side[v] = (*it >> v) & 1;
                    have = true;
                } else if (lam == 0) {
                    std::vector<uint32_t> id;
                    ora::components(g, &id);
                    for (uint32_t v = 0; v < m.n; ++v) side[v] = id[v] == id[r.below(m.n)];
                    have = true;
                }
            }
            switch (o[0]) {
            case INS: case INS_ACROSS: case INS_INSIDE:
                ok = false;
                for (int t = 0; t < 40 && !ok; ++t) {
                    a = (uint32_t)r.below(m.n); b = (uint32_t)r.below(m.n);
                    ok = a != b && (multi || m.e[Model::key(a, b)].empty());
                    if (have && t < 30 && (side[a] != side[b]) != (o[0] == INS_ACROSS)) ok = false;
                }
                break;
            case REINSERT:
                if (gone.empty()) { ok = false; break; }
                { auto x = gone[gone.size() - 1 - r.below(std::min<size_t>(gone.size(), 3))]; a = x.first.first; b = x.first.second; if (o[2] & 1) w = x.second; }
                if (r.chance(0.5)) std::swap(a, b);
                ok = multi || m.e[Model::key(a, b)].empty();
                break;
            case UNDO:              // the last deletion that is not undone yet
                if (gone.empty()) { ok = false; break; }
                { auto x = gone.back(); gone.pop_back(); a = x.first.first; b = x.first.second; w = x.second; }
                ok = multi || m.e[Model::key(a, b)].empty();
                break;
            case DOUBLE:            // a second edge next to an existing one
                ok = multi && !es.empty();
                if (ok) { auto x = es[(size_t)o[1] % es.size()]; a = x.first; b = x.second; w = *m.e[x].begin(); }
                break;
            case REINIT:
                ok = false;
                break;
            case MISSING:
                a = (uint32_t)r.below(m.n); b = (uint32_t)r.below(m.n);
                ins = false;
                ok = a != b && m.e[Model::key(a, b)].empty();
                what = "delete a missing edge";
                break;
            default:
                ins = false;
                what = "delete";
                if (es.empty()) { ok = false; break; }
                for (int t = 0; t < 30; ++t) {
                    auto x = es[r.below(es.size())];
                    a = x.first; b = x.second;
                    if (!have || (side[a] != side[b]) == (o[0] == DEL_ACROSS)) break;
                }
                if (r.chance(0.5)) std::swap(a, b);
            }
        }
        if (o[0] == REINIT) {           // the same object gets a new graph: some part of the current one
            {
                Quiet q;
                Rng r((uint64_t)o[1]);
                if (o[2] & 1) for (auto it = m.e.begin(); it != m.e.end(); ) if (r.chance(0.3)) it = m.e.erase(it); else ++it;
                for (auto& x : m.e) if (x.second.size() > 1) { uint64_t t = 0; for (auto y : x.second) t += y; x.second = { t }; }
                g = m.graph();
                gone.clear();
                G = wl::Make<mutableGraphPtr>::make(g);
            }
            value = d.initialize(G);
            Quiet q;
            lam = ora::mincut(g);
            calls = d.getCallsOfStaticAlgorithm();
            check_state(m, g, lam, d, value, true, step, "initialize again");
            probe("initialized again");
            continue;
        }
        if (!ok) continue;
        uint64_t before = lam;
        if (ins) {
            value = d.addEdge(a, b, w);
            Quiet q;
            m.e[Model::key(a, b)].insert(w);
        } else {
            value = d.removeEdge(a, b);
            Quiet q;
            auto& have = m.e[Model::key(a, b)];
            auto now = between(d.getOriginalGraph(), a, b);
            if (!have.empty()) {
                uint64_t gonew = 0;
                auto left = have;
                for (auto x : now) { auto it = left.find(x); if (it != left.end()) left.erase(it); }
                if (left.size() != 1 || now.size() + 1 != have.size()) fail("graph", "deleting edge %u-%u left %zu of %zu edges", a, b, now.size(), have.size());
                gonew = *left.begin();
                have.erase(have.find(gonew));
                gone.push_back({ { a, b }, gonew });
            }
        }
        nontrivial();
        Quiet q;
        g = m.graph();
        lam = ora::mincut(g);
        note(value);
        bool full = d.getCallsOfStaticAlgorithm() != calls || lam < before;
        if (d.getCallsOfStaticAlgorithm() == calls && lam > before && before > 0) probe("cactus taken from the cache");
        calls = d.getCallsOfStaticAlgorithm();
        if (lam == 0 && before > 0) probe("update disconnected the graph");
        if (lam > 0 && before == 0) probe("update connected the graph");
        if (step % every == 0 || value != lam) check_state(m, g, lam, d, value, full, step, what);
    }
}
void gen(Case& c, Rng& r, int tier) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["empty"] = r.chance(0.15);
    c.p["multi"] = r.chance(MULTI);
    c.p["es"] = (int64_t)r.below(6);
    c.p["depth"] = r.chance(0.7) ? 1 : r.range(0, 2);
    c.p["balanced"] = r.chance(0.08);
    if (r.chance(0.4)) c.p["limit"] = r.range(2, 12);
    if (r.chance(0.3)) c.p["cache"] = r.range(1, 8);
    bool star = r.chance(0.02), cact = r.chance(0.25), ladder = !star && r.chance(0.25);
    std::vector<std::vector<int64_t> > ladder_ops;
    if (ladder) {                   // the minimum cut falls by several values and rises again: several cacti are cached
        wl::B b;
        int64_t n = r.range(4, 14), w = r.range(1, 2), kind = r.range(0, 3);
        if (kind <= 1) for (int64_t i = 0; i < n; ++i) b.add(i, (i + 1) % n, w);
        else if (kind == 2) { n = std::min<int64_t>(n, 8); for (int64_t i = 0; i < n; ++i) for (int64_t j = 0; j < i; ++j) b.add(i, j, w); }
        else for (int64_t i = 0; i < n; ++i) { b.add(i, (i + 1) % n, w); if (n > 5) b.add(i, (i + 2) % n, r.chance(0.7) ? w : r.range(1, 3)); }
        wl::emit(b, c, r, true);
        c.p["multi"] = 1;
        if (r.chance(0.8)) c.p.erase("cache");
        auto op = [&](int k, int64_t x) { ladder_ops.push_back({ k, x, (int64_t)r.below(4), r.range(1, 2) }); };
        if (kind != 2 && r.chance(0.8)) {
            int64_t m = kind == 3 ? std::min<int64_t>(2 * n, 16) : n;
            for (int64_t i = 0; i < m; ++i) op(DOUBLE, i);
        }
        for (int64_t t = r.range(1, 4); t > 0; --t) {
            int64_t j = r.range(2, 7);
            for (int64_t i = 0; i < j; ++i) op(r.chance(0.85) ? DEL_ACROSS : DEL, (int64_t)r.below(1u << 30));
            for (int64_t i = r.range(1, j); i > 0; --i) op(r.chance(0.93) ? UNDO : r.chance(0.5) ? INS_INSIDE : INS_ACROSS, (int64_t)r.below(1u << 30));
        }
    } else if (star) {
        wl::B b;
        int64_t n = r.range(104, 130), w = r.range(1, 3);
        for (int64_t i = 1; i < n; ++i) b.add(0, i, w);
        wl::emit(b, c, r, true);
    } else if (cact) {              // small cut values and many minimum cuts: cacti that are worth caching
        wl::B b;
        int64_t n = r.range(6, 30), w = r.chance(0.7) ? 1 : r.range(1, 3), at = 1;
        double chord = r.chance(0.5) ? 0 : 0.1;
        while (at < n) {
            int64_t root = (int64_t)r.below((uint64_t)at), len = r.range(1, 8), last = root;
            if (r.chance(0.5)) root = 0, last = 0;
            for (int64_t i = 0; i < len && at < n; ++i) { b.add(last, at, w); last = at++; }
            if (last != root && r.chance(0.85)) b.add(last, root, w);
        }
        for (int64_t i = 2; i < n; ++i) if (r.chance(chord)) b.add((int64_t)r.below((uint64_t)i), i, w);
        wl::emit(b, c, r, true);
    } else {
        wl::gen_case(c, r, r.chance(0.6) ? 9 : r.chance(0.8) ? 16 : 30, false, r.chance(0.8));
    }
    if (ladder) { c.ops.insert(c.ops.end(), ladder_ops.begin(), ladder_ops.end()); return; }
    // everything keeps its vertices when edges are deleted by the shrinker
    int64_t n = wl::graph_of(c.ops).n;
    int64_t len = star ? r.range(5, 30) : r.chance(0.5) ? r.range(1, 12) : r.range(10, tier ? 150 : 80);
    if (n > 20 && !cact) len = std::min<int64_t>(len, 40);
    int64_t maxw = cact || r.chance(0.4) ? 1 : r.range(1, 6);
    int style = (int)r.below(5);
    static const int W[5][8] = {
        { 2, 2, 2, 2, 1, 1, 1, 0 }, { 1, 1, 4, 4, 2, 0, 0, 0 }, { 1, 3, 1, 3, 1, 0, 2, 0 }, { 3, 1, 4, 1, 2, 1, 0, 0 }, { 1, 1, 2, 2, 4, 1, 1, 1 },
    };
    int sum = 0;
    for (int i = 0; i < 8; ++i) sum += W[style][i];
    // phases: mostly growing or shrinking for a while
    int bias = 0;
    for (int64_t i = 0; i < len; ++i) {
        if (r.chance(0.15)) bias = (int)r.below(4);
        int k = 0;
        for (int64_t x = (int64_t)r.below((uint64_t)sum); ; ++k) { if (x < W[style][k]) break; x -= W[style][k]; }
        if (bias == 1 && r.chance(0.8)) k = r.chance(0.7) ? INS_ACROSS : INS;
        if (bias == 2 && r.chance(0.8)) k = r.chance(0.7) ? DEL_ACROSS : DEL;
        if (r.chance(0.01)) k = REINIT;
        c.ops.push_back({ k, (int64_t)r.below(1u << 30), (int64_t)r.below(4), r.range(1, maxw) });
    }
}
void tune(const Case&, Rng&, Config& g) { g.soft_steps = 20000000; g.hard_steps = 200000000; }
Reg reg({ "dynamic", 1, gen, tune, run, true });
}

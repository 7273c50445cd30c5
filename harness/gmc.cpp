// Global minimum cut: C01 (parallel exact), C02 (cactus), C03 (heuristics), C04 (reported cuts),
// C17 (sequential exact).  Built once per property with -DPROP=<n>, with or
// without -DPARALLEL.
#include "sim/rt.h"
#include "sim/oracle.h"
#include "graphs.h"
// Size above which VieCut clusters: varied per run, so that small graphs take the
// path of large ones and the exact stages do not start from the exact value.
inline uint32_t g_coarse_limit = 10000;
#define VIECUT_COARSE_LIMIT g_coarse_limit
#include "common/configuration.h"
#include "tools/random_functions.h"
#include "algorithms/global_mincut/minimum_cut.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#include "parallel/algorithm/parallel_cactus.h"
#endif
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#include "algorithms/global_mincut/ks_minimum_cut.h"
#include "algorithms/global_mincut/matula_approx.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
#include "algorithms/global_mincut/padberg_rinaldi.h"
#include "algorithms/global_mincut/viecut.h"
#include "build_graph.h"

using namespace sim;
#ifndef BIG
#define BIG 0.004
#endif

namespace {
enum Alg { EXACT = 0, VC, NOI, PR, MATULA, KS, CACTUS, PCACTUS };
const char* const alg_name[] = { "parallel exact", "viecut", "noi", "padberg-rinaldi", "matula", "karger-stein", "cactus", "parallel cactus" };

template <class GP> std::unique_ptr<minimum_cut> make_alg(int a) {
    switch (a) {
#ifdef PARALLEL
    case EXACT: return std::make_unique<exact_parallel_minimum_cut<GP> >();
    case PCACTUS: return std::make_unique<parallel_cactus<GP> >();
#endif
    case VC: return std::make_unique<viecut<GP> >();
    case NOI: return std::make_unique<noi_minimum_cut<GP> >();
    case PR: return std::make_unique<padberg_rinaldi<GP> >();
    case MATULA: return std::make_unique<matula_approx<GP> >();
    case CACTUS: return std::make_unique<cactus_mincut<GP> >();
    }
    return nullptr;
}

void base_config(const Case& c) {
    auto cfg0 = configuration::getConfig();
    g_coarse_limit = (uint32_t)c.get("limit", 10000);
    cfg0->save_cut = c.get("save");
    cfg0->verbose = c.get("verbose");
    cfg0->threads = (size_t)sim::cfg.threads;
    cfg0->seed = (size_t)c.get("seed");
    cfg0->find_most_balanced_cut = c.get("balanced") != 0;
    cfg0->find_lowest_conductance = c.get("balanced") == 2;
    cfg0->set_node_in_cut = c.get("balanced") != 0;
    cfg0->disable_limiting = c.get("nolimit");
    static const char* const PQ[] = { "default", "bqueue", "heap", "bstack" };
    cfg0->pq = PQ[c.get("pq") & 3];
    static const char* const ES[] = { "", "heavy", "heavy_weighted", "heavy_vertex", "central", "random" };
    cfg0->edge_selection = ES[c.get("es") % 6];
    random_functions::setSeed((int)c.get("seed"));
}

uint64_t known_lambda;
struct Outcome { uint64_t value; std::vector<uint8_t> side; bool cactus = false; ora::Graph cg; std::vector<std::vector<uint32_t> > contained; std::vector<uint32_t> pos; };

void take_cactus(mutableGraphPtr C, uint32_t n, Outcome* o) {
    Quiet q;
    o->cactus = true;
    o->cg.n = C->n();
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (NodeID v : C->nodes())
        for (EdgeID e : C->edges_of(v)) {
            NodeID t = C->getEdgeTarget(v, e);
            if (t >= C->n() || t == v) fail("cactus-structure", "cactus node %u has an edge to %u (of %u nodes)", v, t, (unsigned)C->n());
            if (v < t) m[{ v, t }] += C->getEdgeWeight(v, e);
        }
    for (auto& x : m) o->cg.e.push_back({ x.first.first, x.first.second, x.second });
    for (NodeID v : C->nodes()) o->contained.push_back(C->containedVertices(v));
    for (uint32_t v = 0; v < n; ++v) o->pos.push_back(C->getCurrentPosition(v));
}
template <class GP> uint64_t run_cactus(const Case& c, const ora::Graph& g, GP G, Outcome* o) {
    uint64_t known = c.get("known") ? ora::mincut(g) : (uint64_t)UNDEFINED_NODE;
#ifdef PARALLEL
    if (c.get("alg") == PCACTUS) {
        parallel_cactus<GP> pc;
        auto [v, C, e] = pc.findAllMincuts(G, known);
        take_cactus(C, g.n, o);
        return v;
    }
#endif
    cactus_mincut<GP> cm;
    auto [v, C, e] = cm.findAllMincuts(G, known);
    take_cactus(C, g.n, o);
    return v;
}

template <class GP> Outcome run_on(const Case& c, const ora::Graph& g) {
    GP G = wl::Make<GP>::make(g);
    Outcome o;
    int a = (int)c.get("alg");
    if (c.get("all")) {
        o.value = run_cactus(c, g, G, &o);
    } else if (a == KS) {
        if constexpr (std::is_same<GP, graphAccessPtr>::value) {
            ks_minimum_cut ks;
            o.value = ks.perform_minimum_cut(G);
        }
    } else {
        o.value = make_alg<GP>(a)->perform_minimum_cut(G);
    }
    Quiet q;
    if (c.get("save")) {
        o.side.resize(g.n);
        for (uint32_t v = 0; v < g.n; ++v) o.side[v] = G->getNodeInCut(v) ? 1 : 0;
    }
    return o;
}

void check_value(const Case& c, const ora::Graph& g, const Outcome& o, bool exact) {
    int a = (int)c.get("alg");
    uint64_t lam = c.get("bn") ? known_lambda : ora::mincut(g), deg = ora::min_degree(g);
    note(o.value);
    if (exact) {
        if (o.value != lam) fail(o.value < lam ? "below-minimum" : "not-minimum", "%s returned %llu, the minimum cut is %llu (n=%u m=%zu)", alg_name[a], (unsigned long long)o.value, (unsigned long long)lam, g.n, g.e.size());
        return;
    }
    if (o.value < lam) fail("below-minimum", "%s returned %llu, below the minimum cut %llu", alg_name[a], (unsigned long long)o.value, (unsigned long long)lam);
    if (a != KS && o.value > deg) fail("above-degree", "%s returned %llu, above the minimum degree %llu", alg_name[a], (unsigned long long)o.value, (unsigned long long)deg);
    if (a == MATULA && o.value > 2 * lam + 1) fail("approximation", "matula returned %llu, more than twice the minimum cut %llu plus one", (unsigned long long)o.value, (unsigned long long)lam);
    if (o.value > lam) {
        probe("heuristic above minimum");
        if (g.n <= 18 && !c.get("bn") && !ora::some_cut_weighs(g, o.value)) fail("no-such-cut", "%s returned %llu, no cut of the graph has this weight (minimum %llu, n=%u)", alg_name[a], (unsigned long long)o.value, (unsigned long long)lam, g.n);
    }
}
void check_side(const Case& c, const ora::Graph& g, const Outcome& o) {
    int a = (int)c.get("alg");
    uint32_t in = 0;
    for (auto s : o.side) in += s;
    if (in == 0 || in == g.n) fail("cut-trivial", "%s returned %llu but marked %u of %u vertices", alg_name[a], (unsigned long long)o.value, in, g.n);
    uint64_t w = ora::cut_weight(g, o.side);
    if (w != o.value) fail("cut-weight", "%s returned %llu but the marked cut weighs %llu (%u of %u vertices)", alg_name[a], (unsigned long long)o.value, (unsigned long long)w, in, g.n);
    if (c.get("balanced")) {
        uint64_t lam = ora::mincut(g);
        if (w != lam) fail("balanced-weight", "the most balanced cut weighs %llu, the minimum cut is %llu", (unsigned long long)w, (unsigned long long)lam);
        std::set<uint64_t> all;
        if (g.n > 64 || !ora::all_mincuts(g, lam, &all, 3000)) return;
        // the smaller side is to be as large as possible, in vertices or in weighted degrees
        bool vol = c.get("balanced") == 2;
        std::vector<uint64_t> wt(g.n, vol ? 0 : 1);
        if (vol) for (auto& e : g.e) { wt[e.u] += e.w; wt[e.v] += e.w; }
        uint64_t total = 0, best = 0, mine = 0;
        for (auto x : wt) total += x;
        auto lighter = [&](uint64_t x) { return std::min(x, total - x); };
        for (auto m : all) {
            uint64_t k = 0;
            for (uint32_t v = 0; v < g.n; ++v) if (m >> v & 1) k += wt[v];
            best = std::max(best, lighter(k));
        }
        for (uint32_t v = 0; v < g.n; ++v) if (o.side[v]) mine += wt[v];
        if (lighter(mine) != best) fail(vol ? "not-lowest-conductance" : "not-balanced", "the smaller side of the marked minimum cut has %s %llu of %llu, %llu is possible", vol ? "degree sum" : "size", (unsigned long long)lighter(mine), (unsigned long long)total, (unsigned long long)best);
        if (vol) probe("lowest conductance checked");
        if (best > 1) probe("nontrivial balanced cut");
    }
}

std::string side_text(uint32_t n, uint64_t m) {
    std::string s = "{";
    for (uint32_t v = 0; v < n; ++v) if (m >> v & 1) s += (s.size() > 1 ? "," : "") + std::to_string(v);
    return s + "}";
}
void check_cactus(const Case& c, const ora::Graph& g, const Outcome& o) {
    const char* nm = alg_name[c.get("alg")];
    std::set<uint64_t> want, got, raw;
    if (g.n > 64 || !ora::all_mincuts(g, o.value, &want, 2000)) { probe("too many cuts to compare"); return; }
    if (want.size() > 3) probe("more than three minimum cuts");
    if (o.cg.n < 2) fail("cactus-missing", "%s: the cactus has %u nodes, the graph has %zu minimum cuts", nm, o.cg.n, want.size());
    uint64_t cl = ora::mincut(o.cg);
    if (cl != o.value) fail("cactus-value", "%s returned %llu, the minimum cut of the cactus is %llu (%zu minimum cuts, %u nodes)", nm, (unsigned long long)o.value, (unsigned long long)cl, want.size(), o.cg.n);
    if (o.cg.n > 64) { probe("cactus too large to compare"); return; }
    if (!ora::all_mincuts(o.cg, cl, &raw, 4000)) { probe("too many cuts to compare"); return; }
    std::vector<int> where(g.n, -1);
    for (uint32_t x = 0; x < o.cg.n; ++x)
        for (auto v : o.contained[x]) {
            if (v >= g.n) fail("cactus-vertices", "%s: cactus node %u contains vertex %u of %u", nm, x, v, g.n);
            if (where[v] >= 0) fail("cactus-vertices", "%s: vertex %u is in cactus nodes %d and %u", nm, v, where[v], x);
            where[v] = (int)x;
        }
    for (uint32_t v = 0; v < g.n; ++v) {
        if (where[v] < 0) fail("cactus-vertices", "%s: vertex %u is in no cactus node", nm, v);
        if ((uint32_t)where[v] != o.pos[v]) fail("cactus-vertices", "%s: vertex %u is in node %d but recorded in %u", nm, v, where[v], o.pos[v]);
    }
    uint64_t all = g.n == 64 ? ~0ull : (1ull << g.n) - 1;
    for (auto r : raw) {
        uint64_t m = 0;
        for (uint32_t v = 0; v < g.n; ++v) if (r >> where[v] & 1) m |= 1ull << v;
        if (m & 1) m = all & ~m;
        got.insert(m);
    }
    for (auto m : want) if (!got.count(m)) fail("cactus-missing", "%s: minimum cut %s (value %llu, n=%u) is not in the cactus (%zu of %zu cuts)", nm, side_text(g.n, m).c_str(), (unsigned long long)o.value, g.n, got.size(), want.size());
    for (auto m : got) if (!want.count(m)) fail("cactus-spurious", "%s: the cactus has cut %s, which is no minimum cut (value %llu, n=%u)", nm, side_text(g.n, m).c_str(), (unsigned long long)o.value, g.n);
    if (got.size() != raw.size()) probe("cactus with redundant cuts");
}

void run(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    if (c.get("bn")) {
        wl::Big b;
        { Quiet q; b = wl::big_graph(g, (uint64_t)c.get("bseed"), (uint32_t)c.get("bn"), (int)c.get("bstyle")); }
        if (!b.ok) skip("unsuitable core");
        g = b.g; known_lambda = b.lambda;
        probe("more than 10000 vertices");
    }
    bool bal = c.get("balanced");
    if ((bal || c.get("all")) && ora::components(g) > 1) skip("disconnected");
    // bucket queues are sized by the bound on the cut
    if (ora::min_degree(g) > (1u << 20)) skip("minimum degree above 2^20");
    base_config(c);
    Outcome o = c.get("rep") ? run_on<mutableGraphPtr>(c, g) : run_on<graphAccessPtr>(c, g);
    if (g.n > 2 && g.e.size() > 1) nontrivial();
#if PROP == 17
    // the same call again with other memory contents at another time
    sim::cfg.garbage = 1 + (sim::cfg.garbage + 1) % 4;
    clock_jump(1000000000ull * (uint64_t)c.get("jump"));
    base_config(c);
    Outcome o2 = c.get("rep") ? run_on<mutableGraphPtr>(c, g) : run_on<graphAccessPtr>(c, g);
    if (o2.value != o.value) fail("not-a-function", "the same call returned %llu, then %llu", (unsigned long long)o.value, (unsigned long long)o2.value);
    if (o2.side != o.side) fail("not-a-function", "the same call marked another cut the second time");
#endif
    Quiet q;
    int a = (int)c.get("alg");
    check_value(c, g, o, a == EXACT || a == NOI || a == CACTUS || a == PCACTUS);
    if (o.cactus) check_cactus(c, g, o);
    else if (c.get("save")) check_side(c, g, o);
}

void gen(Case& c, Rng& r, int tier) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["rep"] = r.chance(0.4);
    c.p["verbose"] = 0;
    int64_t maxn = r.chance(0.7) ? 16 : r.chance(0.7) ? 40 : 150;
#if PROP == 1
    c.p["alg"] = EXACT;
    c.p["save"] = r.chance(0.4);
#elif PROP == 2
    c.p["all"] = 1;
#ifdef PARALLEL
    c.p["alg"] = r.chance(0.85) ? PCACTUS : CACTUS;
#else
    c.p["alg"] = CACTUS;
#endif
    c.p["save"] = r.chance(0.85);
    c.p["known"] = r.chance(0.2);
    c.p["es"] = (int64_t)r.below(6);
    maxn = r.chance(0.8) ? 14 : r.chance(0.9) ? 30 : 60;
#elif PROP == 3
#ifdef PARALLEL
    c.p["alg"] = VC;
#else
    static const int A[] = { VC, PR, PR, MATULA, MATULA, KS };
    c.p["alg"] = A[r.below(6)];
    if (c.p["alg"] == KS) { c.p["rep"] = 0; maxn = std::min<int64_t>(maxn, 40); }
#endif
    c.p["save"] = r.chance(0.3);
#elif PROP == 4
    c.p["save"] = 1;
#ifdef PARALLEL
    static const int A[] = { EXACT, EXACT, VC, PCACTUS, PCACTUS };
    c.p["alg"] = A[r.below(5)];
#else
    static const int A[] = { VC, NOI, NOI, PR, MATULA, CACTUS, CACTUS, KS };
    c.p["alg"] = A[r.below(8)];
    if (c.p["alg"] == KS) { c.p["rep"] = 0; maxn = std::min<int64_t>(maxn, 40); }
#endif
    if (c.p["alg"] == CACTUS || c.p["alg"] == PCACTUS) { c.p["balanced"] = r.chance(0.7) ? 1 + (int64_t)r.chance(0.35) : 0; maxn = std::min<int64_t>(maxn, 40); }
#elif PROP == 17
    c.p["alg"] = NOI;
    c.p["save"] = r.chance(0.4);
    c.p["nolimit"] = r.chance(0.25);
    c.p["pq"] = (int64_t)r.below(4);
    c.p["jump"] = (int64_t)r.below(100000);
#endif
    (void)tier;
    if (!c.p["balanced"] && !c.p["all"] && r.chance(BIG)) {
        c.p["bn"] = 10001 + (int64_t)r.below(60);
        c.p["bseed"] = (int64_t)r.below(1u << 30);
        c.p["bstyle"] = (int64_t)r.below(3);
        wl::gen_case(c, r, 14, false, true);
        return;
    }
    if (r.chance(0.7)) c.p["limit"] = r.chance(0.5) ? (int64_t)r.range(2, 8) : (int64_t)r.range(2, maxn);
    wl::bias_heuristic = c.p.count("limit") ? 0.35 : 0;
    bool huge = !(c.p["nolimit"] || c.p["pq"]);
    wl::gen_case(c, r, maxn, huge, c.p["balanced"] || c.p["all"]);
}
void tune(const Case& c, Rng& r, Config& g) {
    g.soft_steps = 20000000; g.hard_steps = 400000000;
    if (c.get("bn")) { g.soft_steps = 100000000; g.p_mem *= 0.05; g.p_sync *= 0.3; g.pct_len = (uint64_t)1 << (16 + r.below(9)); }
}
Reg reg({ "gmc", 1, gen, tune, run, true });
}

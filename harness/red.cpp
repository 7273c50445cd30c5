// Building blocks of the minimum cut algorithms:
//   C06 contraction, C07 reductions and connectivity scans, C08 clustering and sampling.
// Built once per property with -DPROP=<n>, with or without -DPARALLEL.
#include "sim/rt.h"
#include "sim/oracle.h"
#include "graphs.h"
#include "contested.h"
#include "common/configuration.h"
#include "tools/random_functions.h"
#ifdef PARALLEL
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
#include "parallel/coarsening/contract_graph.h"
#include "parallel/coarsening/contraction_tests.h"
#include "parallel/coarsening/sparsify.h"
#include "parallel/coarsening/label_propagation.h"
#else
#include "coarsening/contract_graph.h"
#include "coarsening/contraction_tests.h"
#include "coarsening/sparsify.h"
#include "coarsening/label_propagation.h"
#endif
#include "algorithms/global_mincut/cactus/all_cut_local_red.h"
#include "algorithms/global_mincut/minimum_cut_helpers.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
#include "build_graph.h"

using namespace sim;

namespace {
typedef std::vector<std::vector<NodeID> > Rev;

// ---- what the repository's graph really contains -----------------------------------
template <class GP> ora::Graph extract(GP G, const char* who) {
    ora::Graph g;
    g.n = G->number_of_nodes();
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (uint32_t v = 0; v < g.n; ++v) {
        uint64_t deg = 0;
        for (EdgeID e : G->edges_of(v)) {
            auto [t, w] = G->getEdge(v, e);
            if (t >= g.n) fail("target-range", "%s: vertex %u has an edge to %u, there are %u vertices", who, v, t, g.n);
            if (t == v) fail("self-loop", "%s: vertex %u has a self-loop", who, v);
            if (!m.insert({ { v, t }, w }).second) fail("duplicate-edge", "%s: edge %u-%u is stored twice", who, v, t);
            if (w == 0) fail("zero-edge", "%s: edge %u-%u has weight 0", who, v, t);
            deg += w;
            if constexpr (std::is_same<GP, mutableGraphPtr>::value) {
                EdgeID r = G->getReverseEdge(v, e);
                if (r >= G->get_first_invalid_edge(t) || G->getEdgeTarget(t, r) != v || G->getReverseEdge(t, r) != e)
                    fail("reverse-edge", "%s: the reverse of edge %u-%u is wrong", who, v, t);
            }
        }
        if constexpr (std::is_same<GP, mutableGraphPtr>::value)
            if (G->getWeightedNodeDegree(v) != deg) fail("degree", "%s: vertex %u has recorded degree %llu, its edges weigh %llu", who, v, (unsigned long long)G->getWeightedNodeDegree(v), (unsigned long long)deg);
    }
    for (auto& x : m) {
        auto it = m.find({ x.first.second, x.first.first });
        if (it == m.end() || it->second != x.second) fail("asymmetric", "%s: edge %u-%u differs from its reverse", who, x.first.first, x.first.second);
        if (x.first.first < x.first.second) g.e.push_back({ x.first.first, x.first.second, x.second });
    }
    if (G->number_of_edges() != m.size()) fail("edge-count", "%s: number_of_edges is %llu, %zu arcs exist", who, (unsigned long long)G->number_of_edges(), m.size());
    if constexpr (std::is_same<GP, graphAccessPtr>::value) {
        G->computeDegrees();
        std::vector<uint64_t> d(g.n);
        for (auto& x : m) d[x.first.first] += x.second;
        for (uint32_t v = 0; v < g.n; ++v) if (G->getWeightedNodeDegree(v) != d[v]) fail("degree", "%s: vertex %u has recorded degree %llu, its edges weigh %llu", who, v, (unsigned long long)G->getWeightedNodeDegree(v), (unsigned long long)d[v]);
    }
    return g;
}
ora::Graph quotient(const ora::Graph& g, const std::vector<uint32_t>& block, uint32_t k) {
    ora::Graph q;
    q.n = k;
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (auto& e : g.e) {
        uint32_t a = block[e.u], b = block[e.v];
        if (a != b) m[{ std::min(a, b), std::max(a, b) }] += e.w;
    }
    for (auto& x : m) q.e.push_back({ x.first.first, x.first.second, x.second });
    return q;
}
void expect_quotient(const ora::Graph& g, const std::vector<uint32_t>& block, uint32_t k, const ora::Graph& got, const char* who) {
    ora::Graph want = quotient(g, block, k);
    if (got.n != want.n) fail("vertex-count", "%s: %u vertices for %u blocks", who, got.n, want.n);
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> a;
    for (auto& e : got.e) a[{ std::min(e.u, e.v), std::max(e.u, e.v) }] = e.w;
    for (auto& e : want.e) {
        auto it = a.find({ e.u, e.v });
        if (it == a.end()) fail("edge-lost", "%s: no edge between blocks %u and %u, %llu expected", who, e.u, e.v, (unsigned long long)e.w);
        if (it->second != e.w) fail("edge-weight", "%s: blocks %u and %u are joined by %llu, %llu expected", who, e.u, e.v, (unsigned long long)it->second, (unsigned long long)e.w);
    }
    if (a.size() != want.e.size()) fail("edge-added", "%s: %zu edges, %zu expected", who, a.size(), want.e.size());
}
std::vector<uint32_t> dense_blocks(std::vector<uint32_t> b, uint32_t* k) {
    std::map<uint32_t, uint32_t> id;
    for (auto& x : b) { auto it = id.insert({ x, (uint32_t)id.size() }).first; x = it->second; }
    *k = (uint32_t)id.size();
    return b;
}
void configure(const Case& c) {
    auto cf = configuration::getConfig();
    cf->save_cut = c.get("save");
    cf->verbose = 0;
    cf->threads = c.get("cthreads") ? 1 : (size_t)sim::cfg.threads;
    cf->seed = (size_t)c.get("seed");
    cf->contraction_factor = (double)c.get("factor", 50) / 100.0;
    static const char* const ST[] = { "geometric", "random", "separate", "weighted" };
    cf->sampling_type = ST[c.get("stype") & 3];
    random_functions::setSeed((int)c.get("seed"));
}
// a partition drawn from a seed; parts is the number of blocks aimed at
std::vector<uint32_t> draw_blocks(const Case& c, const ora::Graph& g) {
    Rng r((uint64_t)c.get("pseed"));
    std::vector<uint32_t> b(g.n);
    int64_t parts = std::max<int64_t>(1, c.get("parts"));
    switch (c.get("pkind")) {
    case 0: for (auto& x : b) x = (uint32_t)r.below((uint64_t)parts); break;
    case 1: for (uint32_t v = 0; v < g.n; ++v) b[v] = (uint32_t)(v * (uint64_t)parts / g.n); break;
    case 2: for (uint32_t v = 0; v < g.n; ++v) b[v] = r.chance(0.9) ? (uint32_t)r.below(2) : 2 + (uint32_t)r.below((uint64_t)parts); break;     // two big blocks
    default: {          // merge along edges
        for (uint32_t v = 0; v < g.n; ++v) b[v] = v;
        auto f = [&](uint32_t x) { while (b[x] != x) x = b[x]; return x; };
        int64_t k = (int64_t)g.n - parts;
        for (int64_t i = 0; i < 4 * k && k > 0 && !g.e.empty(); ++i) {
            auto& e = g.e[r.below(g.e.size())];
            uint32_t x = f(e.u), y = f(e.v);
            if (x != y) { b[x] = y; --k; }
        }
        for (uint32_t v = 0; v < g.n; ++v) b[v] = f(v);
    }
    }
    return b;
}

#if PROP == 6
enum Kind { SPARSE_GA, SPARSE_MG, FULLMESH, NOHASH, CG_GA, CG_MG, UF_GA, UF_MG_COPY, UF_MG_INPLACE, NKIND };
const char* const kind_name[] = { "sparse contraction", "sparse contraction (mutable)", "full-mesh contraction", "sparse contraction without hashing", "contractGraph", "contractGraph (mutable)", "fromUnionFind", "fromUnionFind (mutable, copied)", "fromUnionFind (mutable, in place)" };

void run_contract(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    configure(c);
    uint32_t k = 0;
    std::vector<uint32_t> block = dense_blocks(draw_blocks(c, g), &k);
    int kind = (int)c.get("kind");
    const char* who = kind_name[kind];
    std::vector<NodeID> mapping(block.begin(), block.end());
    Rev rev(k);
    for (uint32_t v = 0; v < g.n; ++v) rev[block[v]].push_back(v);
    bool mut = kind == SPARSE_MG || kind == CG_MG || kind == UF_MG_COPY || kind == UF_MG_INPLACE;
    ora::Graph got;
    std::vector<uint32_t> where = block;        // block of each input vertex in the result
    if (k > 1) nontrivial();
    auto make_uf = [&]() {
        union_find uf(g.n);
        Quiet q;
        for (uint32_t b = 0; b < k; ++b) for (size_t i = 1; i < rev[b].size(); ++i) uf.Union(rev[b][i - 1], rev[b][i]);
        return uf;
    };
    if (!mut) {
        graphAccessPtr G = wl::Make<graphAccessPtr>::make(g), H;
        switch (kind) {
#ifdef PARALLEL
        case FULLMESH: H = contraction::contractGraphFullMesh(G, mapping, k); break;
        case NOHASH: H = contraction::contractGraphSparseNoHash(G, mapping, k); break;
        case SPARSE_GA: H = contraction::contractGraphSparse(G, mapping, k); break;
#else
        case FULLMESH: case NOHASH:
        case SPARSE_GA: H = contraction::contractGraphSparse(G, mapping, rev); break;
#endif
        case CG_GA: H = contraction::contractGraph(G, mapping, rev); break;
        default: { auto uf = make_uf(); H = contraction::fromUnionFind(G, &uf); }
        }
        Quiet q;
        if (kind == UF_GA && c.get("save")) for (uint32_t v = 0; v < g.n; ++v) where[v] = G->getPartitionIndex(v);
        got = extract(H, who);
        ora::Graph same = extract(G, "input after contraction");
        std::vector<uint32_t> idn(g.n);
        for (uint32_t v = 0; v < g.n; ++v) idn[v] = v;
        expect_quotient(g, idn, g.n, same, "input after contraction");
    } else {
        mutableGraphPtr G = wl::Make<mutableGraphPtr>::make(g), H;
        bool vtx = false;
        switch (kind) {
#ifdef PARALLEL
        case SPARSE_MG: H = contraction::contractGraphSparse(G, mapping, k); break;
#else
        case SPARSE_MG: H = contraction::contractGraphSparse(G, mapping, rev); break;
#endif
        case CG_MG: vtx = true; H = contraction::contractGraph(G, mapping, rev, true); break;
        case UF_MG_COPY: { vtx = true; auto uf = make_uf(); H = contraction::fromUnionFind(G, &uf, true); break; }
        default: { auto uf = make_uf(); H = contraction::fromUnionFind(G, &uf, false); }
        }
        Quiet q;
        if (kind == UF_MG_INPLACE) {
            for (uint32_t v = 0; v < g.n; ++v) where[v] = H->getCurrentPosition(v);
        } else if (vtx && c.get("save")) {
            // the two strategies number the blocks differently; the partition index tells
            for (uint32_t v = 0; v < g.n; ++v) where[v] = G->getPartitionIndex(v);
            if (kind == CG_MG && where == std::vector<uint32_t>(g.n, 0) && k > 1) where = block;
        } else if (vtx) {
            // only the shape can be compared: sorted degrees and total weight
            got = extract(H, who);
            ora::Graph want = quotient(g, block, k);
            if (got.n != want.n) fail("vertex-count", "%s: %u vertices for %u blocks", who, got.n, want.n);
            auto sig = [](const ora::Graph& x) {
                std::vector<uint64_t> d(x.n), w;
                for (auto& e : x.e) { d[e.u] += e.w; d[e.v] += e.w; w.push_back(e.w); }
                std::sort(d.begin(), d.end()); std::sort(w.begin(), w.end());
                return std::make_pair(d, w);
            };
            if (sig(got) != sig(want)) fail("edge-weight", "%s: degrees or edge weights differ from the quotient graph", who);
            return;
        }
        got = extract(H, who);
        std::set<NodeID> seen;
        for (uint32_t v = 0; v < H->n(); ++v) for (NodeID x : H->containedVertices(v))
            if (!seen.insert(x).second) fail("contained-twice", "%s: vertex %u is contained in two nodes", who, x);
        if (kind == UF_MG_INPLACE) {
            if (seen.size() != g.n) fail("contained-lost", "%s: %zu of %u vertices are contained in a node", who, seen.size(), g.n);
            for (uint32_t v = 0; v < H->n(); ++v) for (NodeID x : H->containedVertices(v))
                if (H->getCurrentPosition(x) != v) fail("position", "%s: vertex %u is contained in node %u but its position is %u", who, x, v, H->getCurrentPosition(x));
        } else {
            // the copied input stays as it was
            ora::Graph same = extract(G, "input after contraction");
            std::vector<uint32_t> idn(g.n);
            for (uint32_t v = 0; v < g.n; ++v) idn[v] = v;
            expect_quotient(g, idn, g.n, same, "input after contraction");
        }
    }
    Quiet q;
    std::vector<uint32_t> wb(k, ~0u);           // where must be a renaming of block
    std::set<uint32_t> used;
    for (uint32_t v = 0; v < g.n; ++v) {
        if (where[v] >= k) fail("block-record", "%s: vertex %u is recorded in block %u of %u", who, v, where[v], k);
        if (wb[block[v]] == ~0u) { wb[block[v]] = where[v]; if (!used.insert(where[v]).second) fail("block-record", "%s: two blocks are recorded as %u", who, where[v]); }
        if (wb[block[v]] != where[v]) fail("block-record", "%s: the vertices of one block are recorded in blocks %u and %u", who, wb[block[v]], where[v]);
    }
    expect_quotient(g, where, k, got, who);
}
void gen_contract(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["kind"] = (int64_t)r.below(NKIND);
    c.p["save"] = r.chance(0.6);
    int64_t maxn = r.chance(0.5) ? 24 : r.chance(0.6) ? 60 : 160;
    wl::gen_case(c, r, maxn, true, false);
    int64_t n = wl::graph_of(c.ops).n;
    c.p["pseed"] = (int64_t)r.below(1u << 30);
    c.p["pkind"] = (int64_t)r.below(4);
    c.p["parts"] = r.chance(0.3) ? r.range(1, 4) : r.range(1, std::max<int64_t>(1, n));
    if (n > 100 && r.chance(0.7)) { c.p["pkind"] = 2; if (r.chance(0.6)) c.p["kind"] = (int64_t)r.below(2); }
}
void tune(const Case&, Rng&, Config& g) { g.soft_steps = 3000000; g.hard_steps = 30000000; }
Reg reg({ "contract", 1, gen_contract, tune, run_contract, true });
#endif

#if PROP == 7
enum Red { PR12, PR34, PR12ALL, PR34ALL, CAP, CAPNB, CAPSEQ, AC12, AC34, HEAVY, TRIANGLE, NRED };
const char* const red_name[] = { "PR tests 1/2", "PR tests 3/4", "PR tests 1/2 keeping all cuts", "PR tests 3/4 keeping all cuts", "parallel capforest", "parallel capforest without blacklist", "sequential capforest", "all-cuts PR 1/2", "all-cuts PR 3/4", "heavy edges", "heavy triangles" };

template <class GP> union_find reduce(const Case& c, GP G, int kind, uint64_t limit) {
    switch (kind) {
    case PR12: return tests::prTests12(G, limit, false);
    case PR34: return tests::prTests34(G, limit, false);
    case PR12ALL: return tests::prTests12(G, limit, true);
    case PR34ALL: return tests::prTests34(G, limit, true);
#ifdef PARALLEL
    case CAP: case CAPNB: { exact_parallel_minimum_cut<GP> x; return x.parallel_modified_capforest(G, limit, kind == CAPNB); }
#endif
    default: break;
    }
    if constexpr (std::is_same<GP, mutableGraphPtr>::value) {
        if (kind == AC12) return all_cut_local_red::allCutsPrTests12(G, limit);
        if (kind == AC34) return all_cut_local_red::allCutsPrTests34(G, limit);
    } else {
        union_find uf(G->number_of_nodes());
        if (kind == HEAVY) { tests::findHeavyEdges(G, &uf, limit); return uf; }
        if (kind == TRIANGLE) { tests::findHeavyTriangles(G, &uf, limit); return uf; }
    }
    noi_minimum_cut<GP> noi;
    return noi.modified_capforest(G, limit);
}
void run_red(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    configure(c);
    int kind = (int)c.get("kind");
    uint64_t lam = ora::mincut(g), deg = ora::min_degree(g);
    if (ora::components(g) > 1) skip("disconnected");
    if (deg > (1u << 20)) skip("minimum degree above 2^20");
    bool pairwise = kind == CAP || kind == CAPNB || kind == CAPSEQ || kind == HEAVY || kind == TRIANGLE;
    bool all = kind == PR12ALL || kind == PR34ALL || kind == AC12 || kind == AC34;
    // the bound an algorithm would hand in: a known cut value
    uint64_t bound = lam + (deg - lam) * (uint64_t)c.get("bound") / 4;
    // all-cuts variants are told the bound plus one, or the bound itself (AC*)
    uint64_t limit = bound;
    if (kind == PR12ALL || kind == PR34ALL) limit = bound + 1;
    if (pairwise && c.get("plus")) limit = bound + 1;
    bool mut = c.get("rep") || kind == AC12 || kind == AC34;
    if (kind == HEAVY || kind == TRIANGLE) mut = false;
    std::vector<uint32_t> b(g.n);
    uint32_t cnt = 0;
    if (g.n > 2) nontrivial();
    if (c.get("contested")) probe("contested triangles");
    auto take = [&](union_find&& uf) {
        Quiet q;
        cnt = uf.n();
        for (uint32_t v = 0; v < g.n; ++v) b[v] = uf.Find(v);
    };
    if (mut) take(reduce(c, wl::Make<mutableGraphPtr>::make(g), kind, limit));
    else take(reduce(c, wl::Make<graphAccessPtr>::make(g), kind, limit));
    Quiet q;
    const char* who = red_name[kind];
    uint32_t k = 0;
    b = dense_blocks(b, &k);
    note(k);
    if (k != cnt) fail("count", "%s: %u blocks reported, the partition has %u", who, cnt, k);
    if (k < g.n) probe("reduction merged vertices");
    if (pairwise) {
        std::vector<uint32_t> rep(k, ~0u);
        uint64_t lim = (kind == HEAVY || kind == TRIANGLE) ? limit + 1 : limit;
        for (uint32_t v = 0; v < g.n; ++v) {
            if (rep[b[v]] == ~0u) { rep[b[v]] = v; continue; }
            uint64_t f = ora::st_mincut(g, { rep[b[v]] }, { v });
            if (f < lim) fail("merged-too-much", "%s merged vertices %u and %u, which a cut of weight %llu separates; the bound is %llu", who, rep[b[v]], v, (unsigned long long)f, (unsigned long long)lim);
        }
        return;
    }
    uint64_t after = k > 1 ? ora::mincut(quotient(g, b, k)) : ~0ull;
    if (!all) {
        uint64_t best = std::min(bound, after);
        if (best != lam) fail("cut-removed", "%s with known cut %llu left minimum cut %llu in %u of %u vertices; the input has minimum cut %llu", who, (unsigned long long)bound, (unsigned long long)after, k, g.n, (unsigned long long)lam);
        return;
    }
    if (after != lam && after != ~0ull && after > lam) fail("all-cuts-removed", "%s with bound %llu left minimum cut %llu; the input has %llu", who, (unsigned long long)limit, (unsigned long long)after, (unsigned long long)lam);
    std::set<uint64_t> cuts;
    if (g.n > 64 || !ora::all_mincuts(g, lam, &cuts, 3000)) return;
    for (uint64_t m : cuts) {
        std::vector<int> side(k, -1);
        for (uint32_t v = 0; v < g.n; ++v) {
            int s = (int)((m >> v) & 1);
            if (side[b[v]] < 0) side[b[v]] = s;
            else if (side[b[v]] != s) fail("all-cuts-removed", "%s with bound %llu merged vertex %u with another although a minimum cut (weight %llu) separates them", who, (unsigned long long)limit, v, (unsigned long long)lam);
        }
    }
    if (cuts.size() > 1) probe("several minimum cuts kept");
}
void gen_red(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
#ifdef PARALLEL
    static const int K[] = { PR12, PR12, PR34, PR34, PR12ALL, PR12ALL, PR34ALL, PR34ALL, CAP, CAP, CAP, CAP, CAPNB, CAPNB, AC12, AC34, HEAVY, TRIANGLE };
#else
    static const int K[] = { PR12, PR12, PR34, PR34, PR12ALL, PR12ALL, PR34ALL, PR34ALL, CAPSEQ, CAPSEQ, CAPSEQ, AC12, AC34, HEAVY, TRIANGLE };
#endif
    c.p["kind"] = K[r.below(sizeof K / sizeof K[0])];
    c.p["rep"] = r.chance(0.5);
    c.p["plus"] = r.chance(0.5);
    c.p["bound"] = r.chance(0.5) ? 0 : (int64_t)r.below(5);
    int64_t kind = c.get("kind");
    if (kind <= PR34 && r.chance(0.8)) c.p["bound"] = r.range(1, 4);
    if (kind == PR34 && r.chance(0.6)) {
        c.p["bound"] = r.chance(0.8) ? 4 : r.range(1, 4);
        c.p["contested"] = 1;
        wl::emit(wl::contested(r), c, r, false);
        return;
    }
    wl::gen_case(c, r, r.chance(0.8) ? 16 : r.chance(0.6) ? 36 : 110, true, true);
}
void tune(const Case&, Rng&, Config& g) { g.soft_steps = 3000000; g.hard_steps = 30000000; }
Reg reg({ "reduce", 1, gen_red, tune, run_red, true });
#endif

#if PROP == 8
template <class GP> void cluster_on(const Case& c, const ora::Graph& g) {
    GP G = wl::Make<GP>::make(g);
    label_propagation<GP> lp;
    std::vector<NodeID> cl = lp.propagate_labels(G);
    if (cl.size() != g.n) fail("label-count", "%zu labels for %u vertices", cl.size(), g.n);
    for (uint32_t v = 0; v < g.n; ++v) if (cl[v] >= g.n) fail("label-range", "vertex %u has label %u, there are %u vertices", v, cl[v], g.n);
    auto [mapping, rev] = minimum_cut_helpers<GP>::remap_cluster(G, cl);
    uint64_t deg = ora::min_degree(g);
    auto check = [&](const char* who) {
        Quiet q;
        std::vector<int> seen(g.n);
        for (uint32_t p = 0; p < rev.size(); ++p) {
            if (rev[p].empty()) fail("cluster-empty", "%s: cluster %u of %zu is empty", who, p, rev.size());
            for (NodeID v : rev[p]) {
                if (v >= g.n || seen[v]++) fail("cluster-twice", "%s: vertex %u is in two clusters", who, v);
                if (mapping[v] != p) fail("cluster-map", "%s: vertex %u is listed in cluster %u and mapped to %u", who, v, p, mapping[v]);
            }
        }
        for (uint32_t v = 0; v < g.n; ++v) if (!seen[v]) fail("cluster-lost", "%s: vertex %u is in no cluster", who, v);
    };
    check("label propagation");
    {
        Quiet q;
        std::map<uint32_t, uint32_t> a;
        for (uint32_t v = 0; v < g.n; ++v) { auto it = a.insert({ cl[v], mapping[v] }).first; if (it->second != mapping[v]) fail("remap", "label %u is mapped to clusters %u and %u", cl[v], it->second, mapping[v]); }
        if (a.size() != rev.size()) fail("remap", "%zu labels, %zu clusters", a.size(), rev.size());
    }
    if (c.get("save")) {
        Quiet q;
        for (uint32_t v = 0; v < g.n; ++v) if (G->getPartitionIndex(v) != mapping[v]) fail("partition", "vertex %u of cluster %u is recorded in block %u", v, mapping[v], (unsigned)G->getPartitionIndex(v));
    }
    contraction::findTrivialCuts(G, &mapping, &rev, deg);
    check("small-cut search");
    auto H = contraction::contractGraph(G, mapping, rev);
    Quiet q;
    uint32_t k = (uint32_t)rev.size();
    if (k > 1 && k < g.n) nontrivial();
    ora::Graph got = extract(H, "clustered graph");
    std::vector<uint32_t> b(mapping.begin(), mapping.end());
    if (got.n != k) fail("vertex-count", "%u vertices for %u clusters", got.n, k);
    if (std::is_same<GP, graphAccessPtr>::value) expect_quotient(g, b, k, got, "clustered graph");
    uint64_t lam = ora::mincut(g);
    if (k > 1 && ora::mincut(got) < lam) fail("cut-created", "the clustered graph has minimum cut %llu, the input %llu", (unsigned long long)ora::mincut(got), (unsigned long long)lam);
}
void run_cluster(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    configure(c);
    if (c.get("rep")) cluster_on<mutableGraphPtr>(c, g); else cluster_on<graphAccessPtr>(c, g);
}
void run_sample(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 3 || g.e.empty()) skip("too small");
    configure(c);
    graphAccessPtr G = wl::Make<graphAccessPtr>::make(g);
    sparsify sp;
#ifdef PARALLEL
    if (g.e.size() * 2 < (size_t)sim::cfg.threads) skip("fewer edges than threads");
    union_find uf(g.n);
    NodeID rep = 0;
    switch (c.get("stype") & 3) {
    case 0: rep = sp.sample_geometric(G, &uf); break;
    case 1: rep = sp.sample_contractible(G, &uf); break;
    case 2: rep = sp.sample_contractible_separate(G, &uf); break;
    default: rep = sp.sample_contractible_weighted(G, &uf);
    }
    {
        Quiet q;
        std::vector<uint32_t> b(g.n);
        uint32_t k = 0;
        for (uint32_t v = 0; v < g.n; ++v) b[v] = uf.Find(v);
        b = dense_blocks(b, &k);
        if (k > 1 && k < g.n) nontrivial();
        if (rep != k) fail("sample-count", "sampling reports %u vertices, the partition has %u (type %lld)", rep, k, (long long)c.get("stype"));
        uint64_t lam = ora::mincut(g);
        if (k > 1 && ora::mincut(quotient(g, b, k)) < lam) fail("cut-created", "internal error");
    }
#endif
    graphAccessPtr H = sp.one_ks(G);
    Quiet q;
    ora::Graph got = extract(H, "sampled graph");
    if (got.n < g.n && got.n > 1) nontrivial();
    if (got.n > g.n || got.n == 0) fail("vertex-count", "%u vertices sampled from %u", got.n, g.n);
    if (ora::components(got) != ora::components(g)) fail("components", "%u components after sampling, %u before", ora::components(got), ora::components(g));
    if (c.get("save")) {
        std::vector<uint32_t> b(g.n);
        for (uint32_t v = 0; v < g.n; ++v) {
            b[v] = G->getPartitionIndex(v);
            if (b[v] >= got.n) fail("partition", "vertex %u is recorded in block %u of %u", v, b[v], got.n);
        }
        expect_quotient(g, b, got.n, got, "sampled graph");
    }
    if (got.n > 1 && ora::mincut(got) < ora::mincut(g)) fail("cut-created", "the sampled graph has minimum cut %llu, the input %llu", (unsigned long long)ora::mincut(got), (unsigned long long)ora::mincut(g));
}
// pairs of neighbours are merged: checked without knowing the pairs
void run_match(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2 || g.e.empty()) skip("too small");
    configure(c);
    graphAccessPtr G = wl::Make<graphAccessPtr>::make(g);
    sparsify sp;
    graphAccessPtr H = sp.random_matching(G);
    Quiet q;
    ora::Graph got = extract(H, "matched graph");
    if (got.n < g.n) nontrivial();
    if (got.n > g.n || got.n * 2 < g.n) fail("vertex-count", "%u vertices after a matching in %u", got.n, g.n);
    if (ora::components(got) != ora::components(g)) fail("components", "%u components after a matching, %u before", ora::components(got), ora::components(g));
    uint64_t before = 0, after = 0;
    for (auto& e : g.e) before += e.w;
    for (auto& e : got.e) after += e.w;
    std::vector<uint64_t> w;
    for (auto& e : g.e) w.push_back(e.w);
    std::sort(w.rbegin(), w.rend());
    uint64_t most = 0;
    for (uint32_t i = 0; i < g.n - got.n; ++i) most += i < w.size() ? w[i] : 0;
    if (after > before || after + most < before) fail("edge-weights", "edges of total weight %llu before and %llu after merging %u pairs", (unsigned long long)before, (unsigned long long)after, g.n - got.n);
    if (got.n == g.n && after != before) fail("edge-weights", "nothing was merged, and the total weight changed");
    if (got.n > 1 && ora::mincut(got) < ora::mincut(g)) fail("cut-created", "the matched graph has minimum cut %llu, the input %llu", (unsigned long long)ora::mincut(got), (unsigned long long)ora::mincut(g));
}
void gen_match(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
    if (r.chance(0.2)) {            // a hub whose neighbours find other partners
        wl::B b;
        int64_t n = r.range(20, 90);
        for (int64_t i = 1; i < n; ++i) { b.add(0, i, r.range(1, 3)); if (r.chance(0.9) && i + 1 < n) b.add(i, i + 1, r.range(1, 3)); }
        wl::emit(b, c, r, r.chance(0.5));
    } else wl::gen_case(c, r, r.chance(0.6) ? 12 : 60, true, false);
}
void gen_cluster(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["rep"] = r.chance(0.4);
    c.p["save"] = r.chance(0.4);
    wl::gen_case(c, r, r.chance(0.6) ? 24 : r.chance(0.6) ? 60 : 200, true, false);
}
void gen_sample(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["stype"] = (int64_t)r.below(4);
    c.p["cthreads"] = r.chance(0.3);        // the applications leave configuration.threads at 1
    static const int F[] = { 1, 10, 30, 50, 70, 90, 95, 100 };
    c.p["factor"] = F[r.below(8)];
    c.p["save"] = r.chance(0.5);
    wl::gen_case(c, r, r.chance(0.6) ? 24 : r.chance(0.6) ? 60 : 200, false, r.chance(0.7));
}
void tune(const Case&, Rng&, Config& g) { g.soft_steps = 3000000; g.hard_steps = 30000000; }
Reg reg1({ "cluster", 4, gen_cluster, tune, run_cluster, true });
Reg reg3({ "match", 1, gen_match, tune, run_match, true });
Reg reg2({ "sample", 4, gen_sample, tune, run_sample, true });
#endif
}  // namespace

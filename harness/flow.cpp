// C16: maximum flow, also concurrently.
#include "sim/rt.h"
#include "sim/oracle.h"
#include "graphs.h"
#include <future>
#include <thread>
#include "data_structure/union_find.h"
#include "algorithms/flow/push_relabel.h"
#include "algorithms/multicut/maximum_flow.h"
#include "common/configuration.h"
#include "tools/random_functions.h"
#include "build_graph.h"

using namespace sim;

namespace {
typedef unsigned long long ull;
ora::Graph snapshot(const mutableGraphPtr& G) {
    Quiet q;
    ora::Graph g;
    g.n = G->n();
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (uint32_t v = 0; v < g.n; ++v) for (EdgeID e : G->edges_of(v)) {
        uint32_t t = G->getEdgeTarget(v, e);
        if (v < t) m[{ v, t }] += G->getEdgeWeight(v, e);
    }
    for (auto& x : m) g.e.push_back({ x.first.first, x.first.second, x.second });
    return g;
}
// ops {thread, mode, seed, terminals, edit}; edges have three numbers
enum Mode { SHARED, SHARED_ASYNC, COPY, COPY_REUSED, LIMITED, NMODES };
const char* const mode_name[] = { "flow on a shared graph", "asynchronous flow on a shared graph", "flow", "flow with a reused solver", "limited flow" };

void check_cut(const ora::Graph& g, const std::vector<NodeID>& terms, uint32_t src, int64_t flow, const std::vector<NodeID>& side, const char* who, uint64_t want) {
    Quiet q;
    if (flow >= 0 && (uint64_t)flow != want) fail("flow-value", "%s from %u among %zu terminals: %lld, the minimum cut is %llu", who, terms[src], terms.size(), (long long)flow, (ull)want);
    std::vector<uint8_t> in(g.n);
    for (NodeID v : side) {
        if (v >= g.n) fail("side-range", "%s: source side contains %u of %u vertices", who, v, g.n);
        if (in[v]) fail("side-twice", "%s: source side lists vertex %u twice", who, v);
        in[v] = 1;
    }
    for (size_t i = 0; i < terms.size(); ++i) {
        if (i == src && !in[terms[i]]) fail("side-source", "%s: the source side misses the source %u", who, terms[i]);
        if (i != src && in[terms[i]]) fail("side-sink", "%s: the source side of %u contains the sink %u", who, terms[src], terms[i]);
    }
    uint64_t w = ora::cut_weight(g, in);
    if (w != want) fail("side-weight", "%s: the source side of %u weighs %llu, the minimum cut %llu", who, terms[src], (ull)w, (ull)want);
}
uint64_t reference(const ora::Graph& g, const std::vector<NodeID>& terms, uint32_t src) {
    Quiet q;
    std::vector<uint32_t> t;
    for (size_t i = 0; i < terms.size(); ++i) if (i != src) t.push_back(terms[i]);
    return ora::st_mincut(g, { terms[src] }, t);
}
// the flow left on the graph is a maximum flow: others take its residual graph
void check_flow(const mutableGraphPtr& G, const std::vector<NodeID>& terms, uint32_t src, int64_t flow, size_t id, const char* who) {
    Quiet q;
    for (uint32_t v = 0; v < G->n(); ++v) {
        int64_t net = 0;
        for (EdgeID e : G->edges_of(v)) {
            uint32_t t = G->getEdgeTarget(v, e);
            int64_t f = G->getEdgeFlow(v, e, id), b = G->getEdgeFlow(t, G->getReverseEdge(v, e), id);
            if (f != -b) fail("flow-skew", "%s: flow %u-%u is %lld, in the other direction %lld", who, v, t, (long long)f, (long long)b);
            if (f > (int64_t)G->getEdgeWeight(v, e)) fail("flow-capacity", "%s: flow %u-%u is %lld, the edge weighs %llu", who, v, t, (long long)f, (ull)G->getEdgeWeight(v, e));
            net += f;
        }
        bool term = false;
        for (auto t : terms) term |= t == v;
        if (v == terms[src] ? net != flow : !term && net != 0) fail("flow-conservation", "%s: vertex %u sends %lld more than it gets, flow %lld", who, v, (long long)net, (long long)flow);
    }
}
struct Task { std::vector<std::vector<int64_t> > flows; };
std::vector<NodeID> terminals(const ora::Graph& g, Rng& r, int64_t k) {
    std::vector<NodeID> v(g.n);
    for (uint32_t i = 0; i < g.n; ++i) v[i] = i;
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    v.resize((size_t)std::min<int64_t>(std::max<int64_t>(2, k), g.n));
    return v;
}
void edit(const mutableGraphPtr& G, Rng& r, int64_t kind) {
    if (G->n() < 4) return;
    uint32_t v = (uint32_t)r.below(G->n());
    if (G->get_first_invalid_edge(v) == 0) return;
    EdgeID e = r.below(G->get_first_invalid_edge(v));
    if (kind == 1) G->contractEdge(v, e);
    else if (kind == 2) G->deleteEdge(v, e);
    else if (kind == 3) {
        std::unordered_set<NodeID> s { v, G->getEdgeTarget(v, e), (NodeID)r.below(G->n()) };
        G->contractVertexSet(s);
    }
}
void work(const mutableGraphPtr& shared, const ora::Graph& base, const std::vector<std::vector<int64_t> >& flows) {
    mutableGraphPtr own = std::make_shared<mutable_graph>(*shared);
    push_relabel<false, true> ps;
    push_relabel<> pr;
    push_relabel<true, false> pl;
    size_t id = 77;
    for (auto& o : flows) {
        Rng r((uint64_t)o[2]);
        int mode = (int)(o[1] % NMODES);
        const char* who = mode_name[mode];
        if (mode <= SHARED_ASYNC) {
            auto t = terminals(base, r, o[3]);
            uint32_t src = (uint32_t)r.below(t.size());
            uint64_t want = reference(base, t, src);
            if (mode == SHARED) {
                auto [f, s] = ps.solve_max_flow_min_cut(shared, t, src, true);
                check_cut(base, t, src, f, s, who, want);
            } else {
                // one solver per terminal, all at once
                std::vector<push_relabel<false, true> > prs(t.size());
                std::vector<std::future<std::vector<NodeID> > > fu;
                for (NodeID i = 0; i < t.size(); ++i)
                    fu.emplace_back(std::async(&push_relabel<false, true>::callable_max_flow, &prs[i], shared, t, i, true));
                for (NodeID i = 0; i < t.size(); ++i) {
                    auto s = fu[i].get();
                    check_cut(base, t, i, -1, s, who, reference(base, t, i));
                }
            }
            continue;
        }
        if (o[4]) { edit(own, r, o[4]); if (own->n() < 2) break; }
        ora::Graph g = snapshot(own);
        auto t = terminals(g, r, mode == LIMITED ? 2 : o[3]);
        uint32_t src = (uint32_t)r.below(t.size());
        uint64_t want = reference(g, t, src);
        note(want);
        if (mode == LIMITED) {
            int64_t limit = r.chance(0.3) ? (int64_t)want : r.chance(0.3) ? (int64_t)want + 1 : r.chance(0.5) ? r.range(1, (int64_t)want + 1) : (int64_t)want * 2 + 5;
            if (limit < 1) limit = 1;
            size_t fid = ++id;
            auto [f, s] = pl.solve_max_flow_min_cut(own, t, src, true, limit, fid);
            Quiet q;
            if (f > (int64_t)want) fail("flow-value", "limited flow %lld, the minimum cut is %llu", (long long)f, (ull)want);
            if (f < limit) {
                probe("limited flow below its limit");
                check_cut(g, t, src, f, s, who, want);
                check_flow(own, t, src, f, fid, who);
            } else probe("limited flow reached its limit");
        } else if (mode == COPY) {
            push_relabel<> p;
            auto [f, s] = p.solve_max_flow_min_cut(own, t, src, true);
            check_cut(g, t, src, f, s, who, want);
        } else {
            size_t fid = ++id;
            auto [f, s] = pr.solve_max_flow_min_cut(own, t, src, true, 0, fid);
            check_cut(g, t, src, f, s, who, want);
            check_flow(own, t, src, f, fid, who);
        }
    }
}
void configure(const Case& c) {
    auto cf = configuration::getConfig();
    cf->verbose = 0;
    cf->threads = (size_t)c.get("threads", 1);
    cf->seed = (size_t)c.get("seed");
    cf->disable_cpu_affinity = c.get("aff");
    cf->depthOfPartialRelabeling = (size_t)c.get("depth", 1);
    random_functions::setSeed((int)c.get("seed"));
}
void run_flows(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 2) skip("too small");
    configure(c);
    if (g.n < 4) configuration::getConfig()->depthOfPartialRelabeling = 1;
    int t = (int)c.get("t");
    std::vector<std::vector<std::vector<int64_t> > > prog((size_t)t);
    for (auto& o : c.ops) if (o.size() == 5 && o[0] < t) prog[(size_t)o[0]].push_back(o);
    int busy = 0;
    for (auto& p : prog) busy += !p.empty();
    if (!busy) skip("no flow");
    if (busy > 1) nontrivial();
    mutableGraphPtr G = wl::Make<mutableGraphPtr>::make(g);
    std::vector<std::thread> th;
    for (int i = 0; i < t; ++i) if (!prog[(size_t)i].empty()) th.emplace_back([&, i]() { work(G, g, prog[(size_t)i]); });
    for (auto& x : th) x.join();
    Quiet q;
    ora::Graph h = snapshot(G);
    if (h.n != g.n || h.e.size() != g.e.size()) fail("graph-changed", "the shared graph changed");
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
    for (auto& e : g.e) m[{ std::min(e.u, e.v), std::max(e.u, e.v) }] = e.w;
    for (auto& e : h.e) if (m[{ e.u, e.v }] != e.w) fail("graph-changed", "edge %u-%u of the shared graph changed", e.u, e.v);
}
void gen_flows(Case& c, Rng& r, int tier) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["threads"] = r.range(1, 4);
    c.p["aff"] = 1;
    c.p["depth"] = r.chance(0.5) ? 1 : r.range(0, 3);
    c.p["t"] = r.range(1, 4);
    wl::gen_case(c, r, r.chance(0.6) ? 12 : tier && r.chance(0.3) ? 120 : 40, true, false);
    int64_t m = r.range(1, r.chance(0.7) ? 5 : 12);
    bool many = r.chance(0.4);
    for (int64_t i = 0; i < m; ++i) {
        int64_t mode = r.chance(0.35) ? 0 : r.range(1, NMODES - 1);
        c.ops.push_back({ r.range(0, c.p["t"] - 1), mode, (int64_t)r.below(1u << 30), many ? r.range(2, 8) : 2, r.chance(0.4) ? r.range(1, 3) : 0 });
    }
}
void tune(const Case&, Rng& r, Config& g) {
    g.soft_steps = 3000000; g.hard_steps = 30000000;
    g.pct_len = (uint64_t)r.range(500, 100000);
}

// ---- the flows inside the multiterminal solver --------------------------------------------
std::vector<uint32_t> term_pos(const problemPointer& p, const std::vector<NodeID>& orig) {
    std::vector<uint32_t> t;
    for (auto o : orig) t.push_back(p->graph->getCurrentPosition(p->mapped(o)));
    return t;
}
void run_problem(const Case& c) {
    ora::Graph g = wl::graph_of(c.ops);
    if (g.n < 3) skip("too small");
    if (ora::components(g) > 1) skip("disconnected");
    configure(c);
    auto cf = configuration::getConfig();
    cf->random_flows = (size_t)c.get("rflows");
    cf->high_distance_flows = (size_t)c.get("hflows");
    cf->high_distance_factor = (double)c.get("hfactor") / 100.0;
    Rng r((uint64_t)c.get("tseed"));
    std::vector<NodeID> orig = terminals(g, r, c.get("k"));
    std::vector<uint32_t> T(orig.begin(), orig.end());
    if (orig.size() < 2) skip("too small");
    mutableGraphPtr G = wl::Make<mutableGraphPtr>::make(g);
    std::vector<terminal> terms;
    for (size_t i = 0; i < orig.size(); ++i) terms.emplace_back(orig[i], (NodeID)i);
    auto p = std::make_shared<multicut_problem>(G, terms);
    std::vector<uint64_t> iso(orig.size());
    uint64_t opt;
    { Quiet q; opt = ora::multiterminal(g, T, 3000); for (size_t i = 0; i < orig.size(); ++i) iso[i] = reference(g, orig, (uint32_t)i); }
    nontrivial();
    bool par = c.get("par");
    maximum_flow mf(orig);
    mf.maximumIsolatingFlow(p, 0, par);
    auto check_assignment = [&](const char* who) {
        Quiet q;
        ora::Graph h = snapshot(p->graph);
        std::vector<uint32_t> b(h.n);
        for (uint32_t v = 0; v < h.n; ++v) { b[v] = p->graph->getPartitionIndex(v); if (b[v] >= orig.size()) fail("assignment-range", "%s: vertex %u is in block %u", who, v, b[v]); }
        auto t = term_pos(p, orig);
        for (size_t i = 0; i < t.size(); ++i) if (b[t[i]] != i) fail("assignment-terminal", "%s: terminal %zu is assigned to block %u", who, i, b[t[i]]);
        uint64_t w = ora::partition_cut(h, b) + p->deleted_weight;
        // edges between terminals count twice in the bound
        if (w > (uint64_t)p->upper_bound) fail("upper-bound", "%s: upper bound %lld, the assignment weighs %llu", who, (long long)p->upper_bound, (ull)w);
    };
    auto check_opt = [&](const ora::Graph& h, const std::vector<uint32_t>& t, const char* who) {
        Quiet q;
        if (opt == ~0ull) return;
        for (size_t i = 0; i < t.size(); ++i) for (size_t j = 0; j < i; ++j) if (t[i] == t[j]) fail("terminals-merged", "%s merged terminals %zu and %zu", who, j, i);
        uint64_t o = ora::multiterminal(h, t, 6000);
        if (o != ~0ull && o != opt) fail("optimum-lost", "%s: minimum multiterminal cut %llu became %llu", who, (ull)opt, (ull)o);
    };
    {
        Quiet q;
        ora::Graph h = snapshot(p->graph);
        auto t = term_pos(p, orig);
        for (size_t i = 0; i < t.size(); ++i) {
            uint64_t d = 0;
            for (auto& e : h.e) if (e.u == t[i] || e.v == t[i]) d += e.w;
            if (d != iso[i]) fail("isolating-cut", "terminal %zu has degree %llu after contracting isolating cuts, its minimum isolating cut is %llu", i, (ull)d, (ull)iso[i]);
        }
        if (opt != ~0ull && ((uint64_t)p->lower_bound > opt || (uint64_t)p->upper_bound < opt)) fail("bounds", "bounds %lld and %lld, optimum %llu", (long long)p->lower_bound, (long long)p->upper_bound, (ull)opt);
        check_opt(h, t, "isolating cuts");
    }
    check_assignment("isolating cuts");
    if (orig.size() == 2) {
        maximum_flow m2(orig);
        m2.maximumSTFlow(p);
        if ((uint64_t)p->upper_bound != iso[0]) fail("flow-value", "cut between two terminals %lld, minimum %llu", (long long)p->upper_bound, (ull)iso[0]);
        check_assignment("two terminals");
    } else if (p->graph->n() > orig.size() + 1 && c.get("rflows") + c.get("hflows") > 0) {
        std::vector<bool> active(p->graph->n(), true);
        union_find uf = mf.nonTerminalFlow(p, par, active);
        Quiet q;
        ora::Graph h = snapshot(p->graph);
        std::vector<uint32_t> b(h.n);
        std::map<uint32_t, uint32_t> id;
        for (uint32_t v = 0; v < h.n; ++v) b[v] = id.insert({ (uint32_t)uf.Find(v), (uint32_t)id.size() }).first->second;
        auto t = term_pos(p, orig);
        for (auto& x : t) x = b[x];
        ora::Graph k;
        k.n = (uint32_t)id.size();
        std::map<std::pair<uint32_t, uint32_t>, uint64_t> m;
        for (auto& e : h.e) if (b[e.u] != b[e.v]) m[{ std::min(b[e.u], b[e.v]), std::max(b[e.u], b[e.v]) }] += e.w;
        for (auto& x : m) k.e.push_back({ x.first.first, x.first.second, x.second });
        if (k.n < h.n) probe("flows between non-terminals merged vertices");
        check_opt(k, t, "flows from non-terminals");
    }
}
void gen_problem(Case& c, Rng& r, int) {
    c.p["seed"] = (int64_t)r.below(100000);
    c.p["threads"] = r.range(1, 4);
    c.p["aff"] = r.chance(0.5);
    c.p["par"] = r.chance(0.8);
    c.p["k"] = r.chance(0.2) ? 2 : r.range(3, 6);
    c.p["rflows"] = r.range(0, 5);
    c.p["hflows"] = r.range(0, 5);
    c.p["hfactor"] = r.range(0, 95);
    c.p["tseed"] = (int64_t)r.below(1u << 30);
    wl::B b;
    if (r.chance(0.4)) wl::gen_graph(b, r, 16, false, true);
    else {
        int64_t n = r.range(5, 18);
        static const int K[] = { 0, 0, 1, 2, 4 };
        wl::W w { K[r.below(5)], 1 };
        wl::cycle(b, 0, n, r, w);
        wl::gnp(b, 0, n, r, w, 0.1 + 0.5 * r.unit());
    }
    wl::emit(b, c, r, false);
}
Reg reg({ "flows", 3, gen_flows, tune, run_flows, true });
Reg reg2({ "problem", 2, gen_problem, tune, run_problem, true });
}

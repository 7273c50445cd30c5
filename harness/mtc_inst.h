// Multiterminal cut instances with their optimum, and the check of a written assignment.
#pragma once
#include <map>
#include <set>
#include <sstream>
#include "build_graph.h"

using namespace sim;
namespace {
// ops {u, v, w}: edges; {v, k}: vertex v belongs to terminal k
struct Inst {
    ora::Graph g;
    std::vector<NodeID> map;        // terminal of each vertex or UNDEFINED_NODE
    uint32_t k = 0;
    uint64_t opt = 0;
    bool ok = false, known = false;
};
void solve(Inst& I) {
    uint32_t n = I.g.n;
    // reference: terminals contracted to one vertex each
    ora::Graph h;
    std::vector<uint32_t> to(n);
    h.n = I.k;
    for (uint32_t v = 0; v < n; ++v) to[v] = I.map[v] != UNDEFINED_NODE ? I.map[v] : h.n++;
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> e;
    for (auto& x : I.g.e) { uint32_t a = to[x.u], b = to[x.v]; if (a == b) continue; if (a > b) std::swap(a, b); e[{ a, b }] += x.w; }
    for (auto& x : e) h.e.push_back({ x.first.first, x.first.second, x.second });
    std::vector<uint32_t> term;
    for (uint32_t i = 0; i < I.k; ++i) term.push_back(i);
    I.opt = ora::multiterminal(h, term, 3000);     // harder instances are skipped
    I.known = I.ok = I.opt != ~0ull;
}
Inst instance(const Case& c) {
    Quiet q;
    Inst I;
    I.g = wl::graph_of(c.ops);
    std::map<int64_t, uint32_t> id;
    for (auto& o : c.ops) if (o.size() == 3) { id[o[0]] = 0; id[o[1]] = 0; }
    uint32_t n = 0;
    for (auto& x : id) x.second = n++;
    I.map.assign(n, UNDEFINED_NODE);
    std::map<int64_t, uint32_t> tid;
    for (auto& o : c.ops) if (o.size() == 2 && id.count(o[0]) && I.map[id[o[0]]] == UNDEFINED_NODE) I.map[id[o[0]]] = (NodeID)o[1];
    for (auto t : I.map) if (t != UNDEFINED_NODE) tid[t] = 0;
    for (auto& x : tid) x.second = I.k++;
    for (auto& t : I.map) if (t != UNDEFINED_NODE) t = tid[t];
    if (I.k < 2) return I;
    solve(I);
#if PROP == 12 || PROP == 23
    if (!I.ok) { I.opt = 0; I.ok = true; }         // feasibility and stopping are still checked
#endif
    return I;
}
void gen_graph(Case& c, Rng& r, int64_t maxn, int64_t maxk) {
    wl::B b;
    const bool large = PROP == 23 && maxn > 30;
    const bool grow = (PROP == 9 || PROP == 11) && r.chance(PROP == 9 ? 0.1 : 0.2);
    int style = (PROP == 12 && r.chance(0.6)) || ((grow || large) && r.chance(0.8)) ? 8 : (int)r.below(12);
    int64_t n = r.range(4, maxn);
    if (style >= 8) {               // hard for the reductions: near-regular, equal weights, many terminals
        n = grow ? r.range(14, 19) : large ? r.range(24, maxn) : r.range(std::min<int64_t>(9, maxn), maxn);
        static const int K[] = { 0, 0, 1, 2 };
        wl::W w { K[r.below(4)], 1 };
        int64_t d = grow ? r.range(3, 4) : r.range(3, 6);
        std::map<int64_t, int64_t> deg;
        for (int64_t i = 0; i < n * d / 2; ++i) {
            int64_t a = r.below((uint64_t)n), x = r.below((uint64_t)n);
            for (int t = 0; t < 6 && (a == x || deg[x] >= d); ++t) x = r.below((uint64_t)n);
            for (int t = 0; t < 6 && (a == x || deg[a] >= d); ++t) a = r.below((uint64_t)n);
            if (a == x) continue;
            ++deg[a]; ++deg[x];
            b.add(a, x, w(r));
        }
    } else if (style < 3) wl::gen_graph(b, r, maxn, false, false);
    else if (style < 6) {
        static const int K[] = { 0, 1, 2, 2, 4 };
        wl::W w { K[r.below(5)], 1 };
        wl::gnp(b, 0, n, r, w, 0.25 + 0.6 * r.unit());
    } else if (style == 6) {        // grid with weights
        int64_t a = r.range(3, 5), d = std::max<int64_t>(2, n / a);
        wl::W w { (int)r.range(0, 2), 1 };
        for (int64_t i = 0; i < a; ++i) for (int64_t j = 0; j < d; ++j) {
            if (i + 1 < a) b.add(i * d + j, (i + 1) * d + j, w(r));
            if (j + 1 < d) b.add(i * d + j, i * d + j + 1, w(r));
        }
    } else {                        // terminals around a core
        wl::W w { (int)r.range(1, 2), 1 };
        int64_t k = r.range(3, std::max<int64_t>(3, maxk));
        for (int64_t i = k; i < n; ++i) for (int64_t j = i + 1; j < n; ++j) if (r.chance(0.5)) b.add(i, j, w(r));
        for (int64_t t = 0; t < k && k < n; ++t) for (int x = 0; x < 3; ++x) b.add(t, r.range(k, n - 1), r.range(2, 8));
    }
    if (b.n < 3) { b.add(0, 1, 1); b.add(1, 2, 2); }
    if (r.chance(0.15)) {           // several components
        wl::B d;
        wl::gen_graph(d, r, std::max<int64_t>(3, maxn / 2), false, false);
        int64_t o = b.n;
        for (auto& x : d.e) b.add(x.first.first + o, x.first.second + o, x.second);
    }
    const size_t most = large ? 150 : 56;
    if (b.e.size() > most) {        // dense instances of this size take the solver very long
        std::vector<std::pair<int64_t, int64_t> > es;
        for (auto& x : b.e) es.push_back(x.first);
        for (size_t i = es.size(); i > most; --i) { std::swap(es[i - 1], es[r.below(i)]); b.e.erase(es[i - 1]); }
    }
    if (grow) {                     // the reductions first remove two thirds of the graph or more
        int64_t core = b.n, more = core * r.range(1, 4);
        for (int64_t i = 0; i < more; ++i) {
            int64_t v = b.n, t = r.below((uint64_t)core);
            b.add(v, t, r.range(1, 3));
            if (r.chance(0.3)) b.add(v, r.below((uint64_t)core), r.range(1, 3));
        }
    }
    if (r.chance(0.06)) {           // sums that do not fit 16 or 32 bits
        const int64_t f = r.chance(0.5) ? 65536 : (int64_t)1 << r.range(15, 36);
        for (auto& x : b.e) x.second *= f;
    }
    // terminals by id before the permutation: choose among permuted ids instead
    wl::emit(b, c, r, r.chance(0.2));
    std::set<int64_t> ids;
    for (auto& o : c.ops) { ids.insert(o[0]); ids.insert(o[1]); }
    std::vector<int64_t> v(ids.begin(), ids.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    if (grow) {                     // terminals that the reductions do not cut off
        std::map<int64_t, int> deg;
        for (auto& o : c.ops) { ++deg[o[0]]; ++deg[o[1]]; }
        std::stable_sort(v.begin(), v.end(), [&](int64_t a, int64_t b) { return std::min(deg[a], 4) > std::min(deg[b], 4); });
    }
    int64_t k = r.range(style >= 8 ? std::min<int64_t>({ grow ? 4 : 3, maxk, (int64_t)v.size() }) : 2, std::min<int64_t>(maxk, (int64_t)v.size()));
    for (int64_t i = 0; i < k; ++i) c.ops.push_back({ v[(size_t)i], i });
    if (r.chance(0.15)) for (size_t i = (size_t)k; i < v.size() && r.chance(0.6); ++i) c.ops.push_back({ v[i], r.range(0, k - 1) });
}
void check_solution(const Inst& I, uint64_t value, const std::string& path) {
    Quiet q;
    std::string s;
    if (!fs::get(path, &s)) fail("no-solution", "the requested assignment was not written");
    std::istringstream in(s);
    std::vector<uint32_t> b;
    long long x;
    while (in >> x) b.push_back((uint32_t)x);
    if (b.size() != I.g.n) fail("solution-size", "the assignment has %zu entries for %u vertices", b.size(), I.g.n);
    for (uint32_t v = 0; v < I.g.n; ++v) {
        if (b[v] >= I.k) fail("solution-range", "vertex %u is assigned to block %u of %u", v, b[v], I.k);
        if (I.map[v] != UNDEFINED_NODE && b[v] != I.map[v]) fail("solution-terminal", "vertex %u of terminal %u is assigned to block %u", v, I.map[v], b[v]);
    }
    uint64_t w = ora::partition_cut(I.g, b);
    if (w != value) fail("solution-weight", "edges between the blocks weigh %llu, returned value is %llu", (unsigned long long)w, (unsigned long long)value);
}
}

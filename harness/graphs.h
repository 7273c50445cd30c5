// Workload graphs: generated as a list of {u, v, w} tuples so that the shrinker
// can delete edges.  {u, u, 0} keeps a vertex alive.  Vertices are renumbered
// densely in order of their ids.
#pragma once
#include <algorithm>
#include <map>
#include <vector>

#include "sim/oracle.h"
#include "sim/rt.h"

namespace wl {
using sim::Case;
using sim::Rng;
typedef std::vector<std::vector<int64_t> > Ops;

struct B {              // builder
    std::map<std::pair<int64_t, int64_t>, int64_t> e;
    int64_t n = 0;
    void add(int64_t u, int64_t v, int64_t w) {
        n = std::max(n, std::max(u, v) + 1);
        if (u == v || w <= 0) return;
        if (u > v) std::swap(u, v);
        e[{ u, v }] += w;
    }
    void set(int64_t u, int64_t v, int64_t w) {
        if (u > v) std::swap(u, v);
        if (u != v) { n = std::max(n, v + 1); e[{ u, v }] = w; }
    }
};
struct W {              // weight distribution
    int kind; int64_t big;
    int64_t operator () (Rng& r) const {
        switch (kind) {
        case 0: return 1;
        case 1: return r.range(1, 3);
        case 2: return r.range(1, 10);
        case 3: return r.chance(0.2) ? r.range(5, 20) : 1;
        case 4: return r.range(1, 200);
        case 5: return r.chance(0.1) ? big : r.range(1, 4);
        case 6: return r.range(big / 2 + 1, big);
        case 7: return r.chance(0.15) ? (r.range(1, 3) << 32) : r.range(1, 4);
        default: return 2;
        }
    }
};
inline W rnd_weight(Rng& r, bool huge) {
    W w;
    static const int K[] = { 0, 0, 0, 1, 1, 2, 3, 4, 5, 6 };
    w.kind = K[r.below(10)];
    w.big = r.range(20, 400);
    // a few very heavy edges; the minimum cut usually stays small
    if (huge && w.kind == 5) {
        if (r.chance(0.25)) w.big = (1ll << r.range(28, 36)) + r.range(-3, 3);
        else if (r.chance(0.35)) w.kind = 7;
    }
    return w;
}
inline void clique(B& b, int64_t o, int64_t k, Rng& r, const W& w) {
    for (int64_t i = 0; i < k; ++i) for (int64_t j = i + 1; j < k; ++j) b.add(o + i, o + j, w(r));
}
inline void cycle(B& b, int64_t o, int64_t k, Rng& r, const W& w) {
    for (int64_t i = 0; i < k; ++i) b.add(o + i, o + (i + 1) % k, w(r));
}
inline void tree(B& b, int64_t o, int64_t k, Rng& r, const W& w, int shape) {
    for (int64_t i = 1; i < k; ++i) b.add(o + i, o + (shape == 0 ? r.range(0, i - 1) : shape == 1 ? i - 1 : 0), w(r));
}
inline void gnp(B& b, int64_t o, int64_t k, Rng& r, const W& w, double p) {
    for (int64_t i = 0; i < k; ++i) for (int64_t j = i + 1; j < k; ++j) if (r.chance(p)) b.add(o + i, o + j, w(r));
}
// 0, or the chance of the last family
inline double bias_heuristic = 0;
// sprinkle of structures; at most maxn vertices
inline void gen_graph(B& b, Rng& r, int64_t maxn, bool huge, bool connected) {
    W w = rnd_weight(r, huge);
    W w1 = r.chance(0.6) ? W{ 0, 1 } : rnd_weight(r, huge);
    int64_t n = r.chance(0.3) ? r.range(2, std::min<int64_t>(8, maxn)) : r.range(3, std::max<int64_t>(3, maxn));
    if (n > maxn) n = maxn;
    // queues are sized by the cut value: keep it moderate on dense graphs
    if (n > 60) for (W* x : { &w, &w1 }) { if (x->kind == 4 || x->kind == 6) x->kind = 2; if (x->kind == 5 && x->big < 1000) x->big = 30; }
    switch (bias_heuristic > 0 && r.chance(bias_heuristic) ? 12 : r.below(14)) {
    case 0: gnp(b, 0, n, r, w, 0.1 + 0.8 * r.unit()); break;
    case 1: cycle(b, 0, n, r, w1); break;
    case 2: tree(b, 0, n, r, w, (int)r.below(3)); break;
    case 3: {           // ring / chain / tree of cliques
        int64_t k = r.range(2, 6), c = std::max<int64_t>(2, n / k), sh = r.range(0, 2);
        for (int64_t i = 0; i < c; ++i) {
            clique(b, i * k, k, r, w);
            if (i) b.add(i * k + r.range(0, k - 1), (sh == 2 ? r.range(0, i - 1) : i - 1) * k + r.range(0, k - 1), w1(r));
            if (i && r.chance(0.2)) b.add(i * k + r.range(0, k - 1), (i - 1) * k + r.range(0, k - 1), w1(r));
        }
        if (sh == 1 && c > 2) b.add(r.range(0, k - 1), (c - 1) * k + r.range(0, k - 1), w1(r));
        break;
    }
    case 4: {           // cactus: random cycles glued at vertices, plus tree edges of double weight
        int64_t v = 1, base = r.range(1, 4);
        b.n = 1;
        while (v < n) {
            int64_t k = r.range(2, 6), at = r.range(0, v - 1);
            if (k == 2) { b.add(at, v, 2 * base); v++; continue; }
            int64_t prev = at;
            for (int64_t i = 1; i < k && v < n; ++i) { b.add(prev, v, base); prev = v++; }
            if (prev != at) b.add(prev, at, base);
        }
        for (int i = 0; i < 3 && r.chance(0.5); ++i) b.add(r.range(0, v - 1), r.range(0, v - 1), r.range(1, 2 * base));
        break;
    }
    case 5: {           // grid
        int64_t a = std::max<int64_t>(2, (int64_t)r.range(2, 5)), c = std::max<int64_t>(2, n / a);
        bool torus = r.chance(0.3);
        for (int64_t i = 0; i < a; ++i) for (int64_t j = 0; j < c; ++j) {
            if (i + 1 < a || (torus && a > 2)) b.add(i * c + j, ((i + 1) % a) * c + j, w1(r));
            if (j + 1 < c || (torus && c > 2)) b.add(i * c + j, i * c + (j + 1) % c, w1(r));
        }
        break;
    }
    case 6: {           // star / wheel / double star
        for (int64_t i = 1; i < n; ++i) b.add(0, i, w(r));
        if (r.chance(0.5)) for (int64_t i = 1; i + 1 < n; ++i) b.add(i, i + 1, w1(r));
        break;
    }
    case 7: {           // two blobs joined by a small planted cut
        int64_t h = std::max<int64_t>(1, n / 2);
        gnp(b, 0, h, r, w, 0.4 + 0.6 * r.unit());
        gnp(b, h, n - h, r, w, 0.4 + 0.6 * r.unit());
        int64_t k = r.range(1, 4);
        for (int64_t i = 0; i < k; ++i) b.add(r.range(0, h - 1), r.range(h, std::max(h, n - 1)), w1(r));
        break;
    }
    case 8: clique(b, 0, std::min<int64_t>(n, 16), r, w1); break;
    case 9: {           // complete bipartite-ish
        int64_t h = std::max<int64_t>(1, n / 3);
        for (int64_t i = 0; i < h; ++i) for (int64_t j = h; j < n; ++j) if (r.chance(0.7)) b.add(i, j, w1(r));
        break;
    }
    case 10: {          // heavy hub edges: degree-based reductions compete
        tree(b, 0, n, r, w, 0);
        for (int64_t i = 0; i < n; ++i) b.add(r.range(0, n - 1), r.range(0, n - 1), w(r));
        for (int64_t i = 0; i < n / 2; ++i) { int64_t u = r.range(0, n - 1), v = r.range(0, n - 1); b.add(u, v, r.range(1, 30)); }
        break;
    }
    case 12: case 13: { // blobs of light edges joined by few heavy ones: clustering merges across the minimum cut
        int64_t k = n < 12 ? 2 : r.range(2, 4), h = std::max<int64_t>(3, n / k), a = r.range(2, 12);
        for (int64_t i = 0; i < k; ++i) {
            if (h <= 6) clique(b, i * h, h, r, W{ 0, 1 });
            else {
                cycle(b, i * h, h, r, W{ 0, 1 });
                for (int64_t j = 0; j < h * r.range(1, 3); ++j) b.add(i * h + r.range(0, h - 1), i * h + r.range(0, h - 1), 1);
            }
        }
        std::map<int64_t, int64_t> deg;
        for (auto& x : b.e) { if (r.chance(0.3)) x.second = a + r.range(-1, 2); else x.second *= a; }
        for (auto& x : b.e) { deg[x.first.first] += x.second; deg[x.first.second] += x.second; }
        int64_t md = 1 << 30;
        for (auto& x : deg) md = std::min(md, x.second);
        for (int64_t i = 1; i < k; ++i) {
            int64_t bridges = r.range(1, 3), left = std::max<int64_t>(bridges, md - r.range(-1, 4));
            for (int64_t j = 0; j < bridges; ++j) {
                int64_t x = j + 1 == bridges ? left : std::max<int64_t>(1, left / bridges + r.range(-1, 1));
                left -= x;
                b.add((i - 1) * h + r.range(0, h - 1), i * h + r.range(0, h - 1), std::max<int64_t>(1, x));
            }
        }
        break;
    }
    default: {          // sparse random plus a cycle
        cycle(b, 0, n, r, w1);
        for (int64_t i = 0; i < n / 2; ++i) b.add(r.range(0, n - 1), r.range(0, n - 1), w(r));
    }
    }
    if (b.n < 2) b.add(0, 1, w(r));
    if (connected) {
        std::vector<int64_t> p((size_t)b.n);
        for (size_t i = 0; i < p.size(); ++i) p[i] = (int64_t)i;
        auto f = [&](int64_t x) { while (p[(size_t)x] != x) x = p[(size_t)x]; return x; };
        for (auto& x : b.e) p[(size_t)f(x.first.first)] = f(x.first.second);
        for (int64_t v = 1; v < b.n; ++v) if (f(v) != f(v - 1)) { b.add(v, v - 1, w1(r)); p[(size_t)f(v)] = f(v - 1); }
    }
}
inline void emit(const B& b, Case& c, Rng& r, bool isolated) {
    std::vector<int64_t> perm((size_t)b.n);
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = (int64_t)i;
    bool sh = r.chance(0.5);
    if (sh) for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
    Ops o;
    std::vector<uint8_t> touched((size_t)b.n, 0);
    for (auto& x : b.e) {
        o.push_back({ perm[(size_t)x.first.first], perm[(size_t)x.first.second], x.second });
        touched[(size_t)x.first.first] = touched[(size_t)x.first.second] = 1;
    }
    if (isolated) for (size_t v = 0; v < touched.size(); ++v) if (!touched[v]) o.push_back({ perm[v], perm[v], 0 });
    if (r.chance(0.6)) for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[r.below(i)]);
    for (auto& x : o) c.ops.push_back(x);
}
inline void gen_case(Case& c, Rng& r, int64_t maxn, bool huge = true, bool connected = false) {
    B b;
    gen_graph(b, r, maxn, huge, connected);
    if (!connected && r.chance(0.08)) {          // second component
        B d;
        gen_graph(d, r, std::max<int64_t>(3, maxn / 3), huge, false);
        int64_t o = b.n;
        for (auto& x : d.e) b.add(x.first.first + o, x.first.second + o, x.second);
    }
    emit(b, c, r, !connected && r.chance(0.3));
}
// the graph of a case: tuples of exactly three numbers
inline ora::Graph graph_of(const Ops& ops) {
    ora::Graph g;
    std::map<int64_t, uint32_t> id;
    for (auto& o : ops) if (o.size() == 3) { id[o[0]] = 0; id[o[1]] = 0; }
    for (auto& x : id) x.second = g.n++;
    std::map<std::pair<uint32_t, uint32_t>, size_t> at;
    for (auto& o : ops) {
        if (o.size() != 3) continue;
        uint32_t u = id[o[0]], v = id[o[1]];
        if (u == v || o[2] <= 0) continue;
        if (u > v) std::swap(u, v);
        auto it = at.find({ u, v });
        if (it == at.end()) { at[{ u, v }] = g.e.size(); g.e.push_back({ u, v, (uint64_t)o[2] }); }
        else g.e[it->second].w += (uint64_t)o[2];
    }
    return g;
}
// A graph above the 10000 vertex threshold of the heuristics with a known minimum cut:
// the core is given by the ops; every further vertex is joined with total weight above the
// minimum cut to earlier vertices on the same side of one minimum cut of the core.
struct Big { ora::Graph g; uint64_t lambda = 0; bool ok = false; };
inline Big big_graph(const ora::Graph& core, uint64_t seed, uint32_t n, int style) {
    Big b;
    if (core.n < 2 || core.n > 64 || ora::components(core) > 1) return b;
    b.lambda = ora::mincut(core);
    std::set<uint64_t> cuts;
    if (b.lambda == 0 || b.lambda > 100000 || !ora::all_mincuts(core, b.lambda, &cuts, 3000) || cuts.empty()) return b;
    Rng r(seed);
    auto it = cuts.begin();
    std::advance(it, (long)r.below(cuts.size()));
    uint64_t side = *it;
    b.g = core;
    b.g.n = n;
    std::vector<uint32_t> s[2];
    for (uint32_t v = 0; v < core.n; ++v) s[(side >> v) & 1].push_back(v);
    double bias = style == 0 ? 0.5 : style == 1 ? 0.05 : 0.9;
    // some core vertices stay free of additional edges
    uint64_t closed = r.chance(0.5) ? r.next() : 0;
    for (int k = 0; k < 2; ++k) { bool any = false; for (auto v : s[k]) any |= !((closed >> v) & 1); if (!any) closed = 0; }
    int spread = (int)r.range(1, 3);
    bool chain = r.chance(0.3);
    for (uint32_t v = core.n; v < n; ++v) {
        auto& S = s[r.chance(bias) ? 1 : 0];
        uint64_t fw = b.lambda + 1 + r.below(b.lambda + 2);
        std::map<uint32_t, uint64_t> e;
        uint64_t left = fw;
        for (int i = 0; i < spread; ++i) {
            uint64_t w = i + 1 == spread ? left : std::min(left, fw / (uint64_t)spread);
            if (!w) continue;
            uint32_t t;
            do {
                size_t k = S.size();
                t = chain && r.chance(0.9) ? S[k - 1 - r.below(std::min<size_t>(k, 4))] : S[r.below(k)];
            } while (t < core.n && ((closed >> t) & 1));
            e[t] += w; left -= w;
        }
        for (auto& x : e) b.g.e.push_back({ x.first, v, x.second });
        S.push_back(v);
    }
    b.ok = true;
    return b;
}
}  // namespace wl

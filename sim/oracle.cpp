#include "oracle.h"
#include <algorithm>
#include <functional>
#include <queue>

namespace ora {

uint64_t mincut(const Graph& g) {
    uint32_t n = g.n;
    if (n < 2) return 0;
    if (components(g) > 1) return 0;
    std::vector<std::vector<uint64_t> > w(n, std::vector<uint64_t>(n, 0));
    for (auto& e : g.e) { w[e.u][e.v] += e.w; w[e.v][e.u] += e.w; }
    std::vector<uint32_t> act(n);
    for (uint32_t i = 0; i < n; ++i) act[i] = i;
    uint64_t best = ~0ull;
    std::vector<uint64_t> d(n);
    std::vector<uint8_t> in(n);
    while (act.size() > 1) {
        for (auto v : act) { d[v] = 0; in[v] = 0; }
        uint32_t s = 0, t = 0;
        for (size_t k = 0; k < act.size(); ++k) {
            uint32_t b = UINT32_MAX;
            for (auto v : act) if (!in[v] && (b == UINT32_MAX || d[v] > d[b])) b = v;
            in[b] = 1;
            s = t; t = b;
            for (auto v : act) if (!in[v]) d[v] += w[b][v];
        }
        best = std::min(best, d[t]);
        for (auto v : act) if (v != s && v != t) { w[s][v] += w[t][v]; w[v][s] = w[s][v]; }
        act.erase(std::find(act.begin(), act.end(), t));
    }
    return best;
}

uint32_t components(const Graph& g, std::vector<uint32_t>* id) {
    std::vector<uint32_t> p(g.n);
    for (uint32_t i = 0; i < g.n; ++i) p[i] = i;
    std::function<uint32_t(uint32_t)> f = [&](uint32_t x) { while (p[x] != x) { p[x] = p[p[x]]; x = p[x]; } return x; };
    uint32_t c = g.n;
    for (auto& e : g.e) { uint32_t a = f(e.u), b = f(e.v); if (a != b) { p[a] = b; --c; } }
    if (id) { id->resize(g.n); for (uint32_t i = 0; i < g.n; ++i) (*id)[i] = f(i); }
    return c;
}

uint64_t cut_weight(const Graph& g, const std::vector<uint8_t>& side) {
    uint64_t s = 0;
    for (auto& e : g.e) if (side[e.u] != side[e.v]) s += e.w;
    return s;
}
uint64_t partition_cut(const Graph& g, const std::vector<uint32_t>& b) {
    uint64_t s = 0;
    for (auto& e : g.e) if (b[e.u] != b[e.v]) s += e.w;
    return s;
}
bool some_cut_weighs(const Graph& g, uint64_t w) {
    std::vector<std::vector<std::pair<uint32_t, uint64_t> > > nb(g.n);
    for (auto& e : g.e) { nb[e.u].push_back({ e.v, e.w }); nb[e.v].push_back({ e.u, e.w }); }
    uint64_t in = 0, cur = 0;           // vertex n-1 stays outside
    for (uint64_t i = 1; i < 1ull << (g.n - 1); ++i) {
        uint32_t v = (uint32_t)__builtin_ctzll(i);      // Gray code
        in ^= 1ull << v;
        bool vin = in >> v & 1;
        for (auto& x : nb[v]) if ((bool)(in >> x.first & 1) == vin) cur -= x.second; else cur += x.second;
        if (cur == w) return true;
    }
    return false;
}
uint64_t min_degree(const Graph& g) {
    std::vector<uint64_t> d(g.n, 0);
    for (auto& e : g.e) { d[e.u] += e.w; d[e.v] += e.w; }
    return g.n ? *std::min_element(d.begin(), d.end()) : 0;
}

namespace {
// Dinic on an undirected graph
struct Flow {
    struct A { uint32_t to; uint64_t c; };
    std::vector<A> a;
    std::vector<std::vector<uint32_t> > adj;
    std::vector<int> lv;
    std::vector<size_t> it;
    explicit Flow(uint32_t n) : adj(n) {}
    void edge(uint32_t u, uint32_t v, uint64_t w, uint64_t back) {
        adj[u].push_back((uint32_t)a.size()); a.push_back({ v, w });
        adj[v].push_back((uint32_t)a.size()); a.push_back({ u, back });
    }
    bool bfs(uint32_t s, uint32_t t) {
        lv.assign(adj.size(), -1); lv[s] = 0;
        std::queue<uint32_t> q; q.push(s);
        while (!q.empty()) {
            uint32_t u = q.front(); q.pop();
            for (auto i : adj[u]) if (a[i].c && lv[a[i].to] < 0) { lv[a[i].to] = lv[u] + 1; q.push(a[i].to); }
        }
        return lv[t] >= 0;
    }
    uint64_t dfs(uint32_t u, uint32_t t, uint64_t f) {
        if (u == t) return f;
        for (size_t& k = it[u]; k < adj[u].size(); ++k) {
            uint32_t i = adj[u][k];
            if (a[i].c && lv[a[i].to] == lv[u] + 1) {
                uint64_t d = dfs(a[i].to, t, std::min(f, a[i].c));
                if (d) { a[i].c -= d; a[i ^ 1].c += d; return d; }
            }
        }
        return 0;
    }
    // stops early above limit
    uint64_t run(uint32_t s, uint32_t t, uint64_t limit) {
        uint64_t tot = 0;
        while (tot <= limit && bfs(s, t)) {
            it.assign(adj.size(), 0);
            while (uint64_t f = dfs(s, t, ~0ull >> 1)) { tot += f; if (tot > limit) break; }
        }
        return tot;
    }
};
}

uint64_t st_mincut(const Graph& g, const std::vector<uint32_t>& s, const std::vector<uint32_t>& t) {
    Flow f(g.n + 2);
    for (auto& e : g.e) f.edge(e.u, e.v, e.w, e.w);
    uint64_t big = 1ull << 60;
    for (auto x : s) f.edge(g.n, x, big, 0);
    for (auto x : t) f.edge(x, g.n + 1, big, 0);
    return f.run(g.n, g.n + 1, big);
}

bool all_mincuts(const Graph& g, uint64_t lambda, std::set<uint64_t>* out, size_t limit) {
    // order the vertices; cut number i separates {o_0..o_{i-1}} from o_i.
    // A connected order keeps the closures small.
    uint32_t n = g.n;
    std::vector<std::vector<uint32_t> > nb(n);
    for (auto& e : g.e) { nb[e.u].push_back(e.v); nb[e.v].push_back(e.u); }
    std::vector<uint32_t> ord; std::vector<uint8_t> seen(n, 0);
    ord.push_back(0); seen[0] = 1;
    for (size_t h = 0; h < ord.size(); ++h)
        for (auto v : nb[ord[h]]) if (!seen[v]) { seen[v] = 1; ord.push_back(v); }
    for (uint32_t v = 0; v < n; ++v) if (!seen[v]) ord.push_back(v);
    for (uint32_t i = 1; i < n; ++i) {
        Flow f(n + 1);
        for (auto& e : g.e) f.edge(e.u, e.v, e.w, e.w);
        for (uint32_t k = 0; k < i; ++k) f.edge(n, ord[k], 1ull << 60, 0);
        uint64_t fl = f.run(n, ord[i], lambda);
        if (fl > lambda) continue;
        // closed sets of the residual graph containing the source, not the sink
        // reach[v]: everything that must be on the source side if v is
        std::vector<uint64_t> reach(n, 0);
        for (uint32_t v = 0; v < n; ++v) {
            std::vector<uint32_t> st{ v }; uint64_t m = 1ull << v;
            while (!st.empty()) {
                uint32_t u = st.back(); st.pop_back();
                for (auto k : f.adj[u]) {
                    uint32_t t = f.a[k].to;
                    if (t < n && f.a[k].c && !(m >> t & 1)) { m |= 1ull << t; st.push_back(t); }
                }
            }
            reach[v] = m;
        }
        uint64_t base = 0;
        for (uint32_t k = 0; k < i; ++k) base |= reach[ord[k]];
        uint64_t forbidden = 0;       // vertices that reach the sink
        for (uint32_t v = 0; v < n; ++v) if (reach[v] >> ord[i] & 1) forbidden |= 1ull << v;
        if (base & forbidden) continue;
        // enumerate closed supersets of base avoiding forbidden
        bool ok = true;
        std::function<void(uint64_t, uint64_t)> rec = [&](uint64_t in, uint64_t no) {
            if (!ok) return;
            uint64_t all = n == 64 ? ~0ull : (1ull << n) - 1;
            uint64_t fr = all & ~in & ~no;
            if (!fr) {
                out->insert(in & 1 ? all & ~in : in);
                if (out->size() > limit) ok = false;
                return;
            }
            uint32_t v = (uint32_t)__builtin_ctzll(fr);
            if (!(reach[v] & no)) rec(in | reach[v], no);
            // v out: everything that reaches v is out
            uint64_t no2 = no;
            for (uint32_t x = 0; x < n; ++x) if (reach[x] >> v & 1) no2 |= 1ull << x;
            if (!(no2 & in)) rec(in, no2);
        };
        rec(base, forbidden);
        if (!ok) return false;
    }
    return true;
}

uint64_t multiterminal(const Graph& g, const std::vector<uint32_t>& term, uint64_t node_limit) {
    uint32_t n = g.n; size_t k = term.size();
    std::vector<std::vector<std::pair<uint32_t, uint64_t> > > nb(n);
    for (auto& e : g.e) { nb[e.u].push_back({ e.v, e.w }); nb[e.v].push_back({ e.u, e.w }); }
    std::vector<int> col(n, -1);
    for (size_t i = 0; i < k; ++i) col[term[i]] = (int)i;
    uint64_t base = 0;
    for (auto& e : g.e) if (col[e.u] >= 0 && col[e.v] >= 0 && col[e.u] != col[e.v]) base += e.w;
    // order: by attachment to already ordered vertices
    std::vector<uint32_t> ord; std::vector<uint64_t> att(n, 0); std::vector<uint8_t> done(n, 0);
    for (auto t : term) { done[t] = 1; for (auto& x : nb[t]) att[x.first] += x.second; }
    while (true) {
        int b = -1;
        for (uint32_t v = 0; v < n; ++v) if (!done[v] && att[v] && (b < 0 || att[v] > att[(uint32_t)b])) b = (int)v;
        if (b < 0) break;
        done[(uint32_t)b] = 1; ord.push_back((uint32_t)b);
        for (auto& x : nb[(uint32_t)b]) att[x.first] += x.second;
    }
    uint64_t best = ~0ull, nodes = 0;
    // initial: everything to one terminal
    for (size_t i = 0; i < k; ++i) {
        std::vector<uint32_t> b(n, (uint32_t)i);
        for (size_t j = 0; j < k; ++j) b[term[j]] = (uint32_t)j;
        best = std::min(best, partition_cut(g, b));
    }
    // lower bound per unassigned vertex: assigned neighbours not in its best colour
    std::vector<std::vector<uint64_t> > to(n, std::vector<uint64_t>(k, 0));
    for (auto t : term) for (auto& x : nb[t]) to[x.first][(size_t)col[t]] += x.second;
    bool over = false;
    std::function<void(size_t, uint64_t)> rec = [&](size_t p, uint64_t cost) {
        if (over) return;
        if (++nodes > node_limit) { over = true; return; }
        uint64_t lb = cost;
        for (size_t q = p; q < ord.size(); ++q) {
            uint64_t s = 0, m = 0;
            for (auto x : to[ord[q]]) { s += x; m = std::max(m, x); }
            lb += s - m;
        }
        if (lb >= best) return;
        if (p == ord.size()) { best = cost; return; }
        uint32_t v = ord[p];
        uint64_t s = 0;
        for (auto x : to[v]) s += x;
        std::vector<size_t> cs(k);
        for (size_t c = 0; c < k; ++c) cs[c] = c;
        std::sort(cs.begin(), cs.end(), [&](size_t a, size_t b) { return to[v][a] > to[v][b]; });
        for (size_t c : cs) {
            col[v] = (int)c;
            for (auto& x : nb[v]) to[x.first][c] += x.second;
            uint64_t add = s - to[v][c];
            rec(p + 1, cost + add);
            for (auto& x : nb[v]) to[x.first][c] -= x.second;
            col[v] = -1;
        }
    };
    rec(0, base);
    return over ? ~0ull : best;
}
}  // namespace ora

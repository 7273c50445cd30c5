// C13 (reading) and C14 (writing) graph, vector and edge-list files under I/O faults.
#include "sim/rt.h"
#ifndef PROP
#define PROP 13
#endif
#include <errno.h>
#include <string.h>
#include <sstream>
#include <functional>
#include <mutex>
#include <set>
#if PROP == 14
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#else
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#endif
#endif
#include "common/configuration.h"
#include "common/definitions.h"
#include "io/graph_io.h"
#include "build_graph.h"
#include "report.h"
#include "tools/random_functions.h"

using namespace sim;

namespace {
const char* const FILE_NAME = "input";
const char* const PATH = "/simfs/input";

// ---- text -------------------------------------------------------------------------
typedef std::vector<std::string> Lines;
void to_ops(Case& c, const Lines& l) {
    for (auto& s : l) {
        std::vector<int64_t> o { 0 };
        for (char ch : s) o.push_back((unsigned char)ch);
        c.ops.push_back(o);
    }
}
std::string text_of(const Case& c) {
    std::string t;
    for (auto& o : c.ops) {
        for (size_t i = 1; i < o.size(); ++i) t += (char)o[i];
        t += '\n';
    }
    if (!t.empty() && c.get("nonl")) t.pop_back();
    int64_t cut = c.get("cut", -1);
    if (cut >= 0 && (size_t)cut < t.size()) t.resize((size_t)cut);
    return t;
}
Lines split(const std::string& t) {
    Lines l;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i);
        if (e == std::string::npos) e = t.size();
        l.push_back(t.substr(i, e - i));
        i = e + 1;
    }
    return l;
}
bool blank(char c) { return c == ' ' || c == '\t'; }
// carriage returns other than at line ends: what they mean is anyone's guess
bool odd_cr(const std::string& t) {
    for (size_t i = 0; i < t.size(); ++i) if (t[i] == '\r' && i + 1 < t.size() && t[i + 1] != '\n') return true;
    return false;
}
std::vector<std::string> tokens(std::string s) {
    if (!s.empty() && s.back() == '\r') s.pop_back();
    std::vector<std::string> v;
    size_t i = 0;
    while (i < s.size()) {
        if (blank(s[i])) { ++i; continue; }
        size_t e = i;
        while (e < s.size() && !blank(s[e])) ++e;
        v.push_back(s.substr(i, e - i));
        i = e;
    }
    return v;
}
enum Num { NUM, JUNK, MIXED };
bool dig(char c) { return c >= '0' && c <= '9'; }
// a number, something that does not even start like one, or something in between
Num number(const std::string& t, uint64_t* v) {
    if (!dig(t[0])) return JUNK;
    if (t.size() > 18) return MIXED;
    *v = 0;
    for (char c : t) { if (!dig(c)) return MIXED; *v = *v * 10 + (uint64_t)(c - '0'); }
    return NUM;
}
// VALID: has one meaning.  INVALID: must be reported.  DUBIOUS: no claim beyond memory safety
enum Class { VALID, INVALID, DUBIOUS };

// ---- what a METIS file says, written from the format's definition ------------------
struct Parsed {
    Class cls = VALID;
    std::string why;
    uint64_t n = 0, m = 0;
    std::vector<std::vector<std::pair<uint64_t, uint64_t> > > adj;
    bool loops = false;
};
Parsed metis(const std::string& t) {
    Quiet q;
    Parsed P;
    bool dub = false;
    if (odd_cr(t)) { P.cls = DUBIOUS; return P; }
    auto bad = [&](const char* w) { if (P.cls != INVALID) P.why = w; P.cls = INVALID; };
    Lines L = split(t);
    size_t i = 0;
    while (i < L.size() && L[i][0] == '%') ++i;
    if (i == L.size()) { bad("no header"); return P; }
    auto h = tokens(L[i++]);
    if (h.empty()) { P.cls = DUBIOUS; P.why = "blank header"; return P; }
    if (h.size() < 2) { bad("short header"); return P; }
    for (auto& x : h) if (x.find_first_of("+-") != std::string::npos) { P.cls = DUBIOUS; return P; }
    Num a = number(h[0], &P.n), b = number(h[1], &P.m);
    if (a == JUNK || b == JUNK) { bad("header is not numeric"); return P; }
    if (a == MIXED || b == MIXED) { P.cls = DUBIOUS; return P; }
    bool ew = false, vw = false, vs = false;
    uint64_t ncon = 1, fmt = 0;
    if (h.size() > 2) {
        Num f = number(h[2], &fmt);
        if (f == JUNK) { bad("format is not numeric"); return P; }
        if (f == MIXED) { P.cls = DUBIOUS; return P; }
        if (fmt > 111 || fmt % 10 > 1 || fmt / 10 % 10 > 1) { bad("unknown format"); return P; }
        ew = fmt % 10; vw = fmt / 10 % 10; vs = fmt / 100;
    }
    if (h.size() > 3) {
        if (number(h[3], &ncon) != NUM || !vw || ncon < 1 || h.size() > 4) { P.cls = DUBIOUS; return P; }
    }
    uint64_t directed = 0;
    size_t body = 0;
    bool extra_text = false, extra_blank = false;
    for (; i < L.size(); ++i) {
        if (!L[i].empty() && L[i][0] == '%') continue;
        auto tk = tokens(L[i]);
        if (body >= P.n) { (tk.empty() ? extra_blank : extra_text) = true; continue; }
        ++body;
        P.adj.emplace_back();
        std::vector<uint64_t> v;
        for (auto& x : tk) {
            uint64_t k = 0;
            Num r = number(x, &k);
            if (r == JUNK) { bad("not a number"); break; }
            if (r == MIXED) { dub = true; break; }
            v.push_back(k);
        }
        if (dub || P.cls == INVALID) continue;
        size_t p = (vs ? 1 : 0) + (vw ? ncon : 0);
        if (v.size() < p) { bad("vertex weight missing"); continue; }
        while (p < v.size()) {
            uint64_t to = v[p++], w = 1;
            if (ew) { if (p == v.size()) { bad("edge weight missing"); break; } w = v[p++]; }
            if (to == 0 || to > P.n) { bad("neighbour out of range"); break; }
            if (to == body) { P.loops = true; continue; }
            P.adj.back().push_back({ to - 1, w });
            ++directed;
        }
    }
    if (dub) { P.cls = DUBIOUS; return P; }
    if (P.cls == INVALID) return P;
    if (P.loops && P.m > 1000000) { P.cls = DUBIOUS; return P; }
    if (body < P.n) { bad("vertex lines missing"); return P; }
    if (extra_text) { bad("too many lines"); return P; }
    if (!P.loops && directed != 2 * P.m) { bad("number of edges"); return P; }
    if (extra_blank) { P.cls = DUBIOUS; return P; }
    std::map<std::tuple<uint64_t, uint64_t, uint64_t>, int64_t> sym;
    for (uint64_t u = 0; u < P.n; ++u) for (auto& x : P.adj[u]) {
        if (u < x.first) ++sym[{ u, x.first, x.second }]; else --sym[{ x.first, u, x.second }];
    }
    for (auto& s : sym) if (s.second) { P.cls = DUBIOUS; P.why = "not symmetric"; return P; }
    return P;
}
int64_t neighbour(const graphAccessPtr& G, NodeID, EdgeID e, uint64_t* w) { *w = G->getEdgeWeight(e); return (int64_t)G->getEdgeTarget(e); }
int64_t neighbour(const mutableGraphPtr& G, NodeID v, EdgeID e, uint64_t* w) { *w = G->getEdgeWeight(v, e); return (int64_t)G->getEdgeTarget(v, e); }
template <class GP> void check_edges(const GP& G, bool loose, std::vector<std::vector<std::pair<uint64_t, uint64_t> > >* got) {
    got->assign(G->number_of_nodes(), {});
    for (NodeID v = 0; v < G->number_of_nodes(); ++v)
        for (EdgeID e = G->get_first_edge(v); e < G->get_first_invalid_edge(v); ++e) {
            uint64_t w;
            uint64_t t = (uint64_t)neighbour(G, v, e, &w);
            if (t >= G->number_of_nodes()) fail("wild-edge", "vertex %u has an edge to vertex %llu of %u", v, (unsigned long long)t, G->number_of_nodes());
            (*got)[v].push_back({ t, w });
        }
    (void)loose;
}
void extra(const graphAccessPtr& G, const Parsed& P) {
    for (NodeID v = 0; v < P.n; ++v) {
        uint64_t d = 0;
        for (auto& x : P.adj[v]) d += x.second;
        if (G->getWeightedNodeDegree(v) != d) fail("wrong-degree", "weighted degree of vertex %u is %llu, the file says %llu", v, (unsigned long long)G->getWeightedNodeDegree(v), (unsigned long long)d);
    }
}
void extra(const mutableGraphPtr& G, const Parsed& P) {
    for (NodeID v = 0; v < P.n; ++v) {
        uint64_t d = 0;
        for (auto& x : P.adj[v]) d += x.second;
        if (G->getWeightedNodeDegree(v) != d) fail("wrong-degree", "weighted degree of vertex %u is %llu, the file says %llu", v, (unsigned long long)G->getWeightedNodeDegree(v), (unsigned long long)d);
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            EdgeID r = G->getReverseEdge(v, e);
            if (r >= G->getUnweightedNodeDegree(t) || G->getEdgeTarget(t, r) != v || G->getEdgeWeight(t, r) != G->getEdgeWeight(v, e) || G->getReverseEdge(t, r) != e)
                fail("wrong-graph", "edge %u-%u and its reverse edge do not belong together", v, t);
        }
        if (G->getCurrentPosition(v) != v) fail("wrong-graph", "vertex %u starts at position %u", v, G->getCurrentPosition(v));
    }
}
template <class GP> void compare(const GP& G, Parsed P) {
    if (G->number_of_nodes() != P.n) fail("wrong-graph", "%u vertices instead of %llu", G->number_of_nodes(), (unsigned long long)P.n);
    std::vector<std::vector<std::pair<uint64_t, uint64_t> > > got;
    check_edges(G, false, &got);
    uint64_t m = 0;
    for (uint64_t v = 0; v < P.n; ++v) {
        std::sort(got[v].begin(), got[v].end());
        std::sort(P.adj[v].begin(), P.adj[v].end());
        m += P.adj[v].size();
        if (got[v] != P.adj[v]) {
            std::string a, b;
            for (size_t i = 0; i < got[v].size() && i < 12; ++i) a += " " + std::to_string(got[v][i].first + 1) + ":" + std::to_string(got[v][i].second);
            for (size_t i = 0; i < P.adj[v].size() && i < 12; ++i) b += " " + std::to_string(P.adj[v][i].first + 1) + ":" + std::to_string(P.adj[v][i].second);
            fail("wrong-graph", "vertex %llu has the neighbours%s instead of%s", (unsigned long long)v + 1, a.c_str(), b.c_str());
        }
    }
    if (G->number_of_edges() != m) fail("wrong-graph", "%llu edges instead of %llu", (unsigned long long)G->number_of_edges(), (unsigned long long)m);
    extra(G, P);
}

#if PROP == 13
// ---- outcome of a read ------------------------------------------------------------
Class want = VALID;
std::string why;
bool missing = false;
const char* shown() { return why.c_str(); }
void after_exit() {
    if (rep.code == 0) fail("quiet-exit", "the reader ended the program with exit code 0 (%s)", shown());
    if (fs::read_failed(PATH)) { probe("read_failure"); nontrivial(); }
    else if (want == VALID && !missing) fail("rejected", "a valid file was rejected with exit code %d", rep.code);
    probe("rejected");
}
// true if the result has to be compared with the file
bool result_counts(bool returned) {
    bool failed = fs::read_failed(PATH);
    if (failed) { probe("read_failure"); nontrivial(); }
    if (!returned) {
        if (want == VALID && !missing && !failed) fail("rejected", "a valid file was rejected");
        probe("rejected");
        return false;
    }
    if (missing) { if (!rep.any()) fail("silent", "a missing file was read without an error"); return false; }
    if (want == INVALID) {
        if (!rep.any()) fail("silent", "a malformed file was read without an error: %s", shown());
        probe("rejected");
        return false;
    }
    if (want == DUBIOUS) { probe("dubious"); return false; }
    if (failed && rep.any()) return false;
    return true;
}
void place(const Case& c, const std::string& t) {
    missing = c.get("missing") != 0;
    if (!missing) fs::put(PATH, t);
    if (c.get("cut", -1) >= 0) count_fault(F_IO_TORN);
    judge = after_exit;
    fs::enable(true, false, c.get("errors") ? 5 : 0);
}
template <class GT> void read_graph(const Case& c, const std::string& t) {
    Parsed P = metis(t);
    want = P.cls; why = P.why;
    // counts for which memory is really reserved
    for (auto& l : split(t)) if (l.empty() || l[0] != '%') {
        uint64_t x = 0;
        for (char ch : l + " ") if (dig(ch) && x < (1ull << 50)) x = x * 10 + (uint64_t)(ch - '0'); else if (!dig(ch)) { if (x > 1000000 && x < 0xffffffffull) skip("huge"); x = 0; }
        break;
    }
    std::shared_ptr<GT> G;
    bool ok = attempt([&] { G = graph_io::readGraphWeighted<GT>(FILE_NAME); });
    if (result_counts(ok)) {
        Quiet q;
        compare(G, P);
        probe(P.loops ? "valid_with_loops" : "valid");
        nontrivial();
        note(G->number_of_edges() * 1000003 + P.n);
    } else if (ok && want == DUBIOUS) {
        std::vector<std::vector<std::pair<uint64_t, uint64_t> > > got;
        check_edges(G, true, &got);
    }
    (void)c;
}
void run_graph(const Case& c) {
    std::string t = text_of(c);
    place(c, t);
    if (c.get("rep")) read_graph<mutable_graph>(c, t); else read_graph<graph_access>(c, t);
}
// ---- vectors ------------------------------------------------------------------------
template <class T> void read_vec(const std::string& t) {
    std::vector<uint64_t> v;
    bool dub = odd_cr(t), inv = false;
    for (auto& l : split(t)) {
        if (!l.empty() && l[0] == '%') continue;
        auto tk = tokens(l);
        if (tk.empty()) { dub = true; continue; }
        uint64_t x = 0;
        if (tk.size() > 1) dub = true;
        Num k = number(tk[0], &x);
        // things strtod() knows
        if (k == JUNK && (strchr("+-.", tk[0][0]) || strchr("iInN", tk[0][0]))) dub = true;
        else if (k == JUNK) inv = true;
        else if (k == MIXED || x > (sizeof(T) == 4 ? 0xffffffffull : 1ull << 53)) dub = true;
        v.push_back(x);
    }
    want = dub ? DUBIOUS : inv ? INVALID : VALID;
    why = "a line that is not a number";
    std::vector<T> r;
    bool ok = attempt([&] { r = graph_io::readVector<T>(FILE_NAME); });
    if (!result_counts(ok)) return;
    nontrivial();
    if (r.size() != v.size()) fail("wrong-vector", "%zu entries instead of %zu", r.size(), v.size());
    for (size_t i = 0; i < v.size(); ++i) if ((uint64_t)r[i] != v[i]) fail("wrong-vector", "entry %zu is %llu instead of %llu", i, (unsigned long long)r[i], (unsigned long long)v[i]);
}
void run_vector(const Case& c) {
    std::string t = text_of(c);
    place(c, t);
    if (c.get("rep")) read_vec<size_t>(t); else read_vec<NodeID>(t);
}
// ---- temporal edge lists and DIMACS ---------------------------------------------------
typedef std::vector<std::tuple<NodeID, NodeID, int64_t, uint64_t> > TE;
void same_edges(const std::pair<NodeID, TE>& r, const TE& e, uint64_t n) {
    nontrivial();
    if (r.first != n) fail("wrong-list", "%u vertices instead of %llu", r.first, (unsigned long long)n);
    if (r.second.size() != e.size()) fail("wrong-list", "%zu edges instead of %zu", r.second.size(), e.size());
    for (size_t i = 0; i < e.size(); ++i) if (r.second[i] != e[i]) {
        auto [a, b, w, s] = r.second[i];
        auto [a2, b2, w2, s2] = e[i];
        fail("wrong-list", "edge %zu is %u-%u weight %lld time %llu instead of %u-%u weight %lld time %llu", i, a + 1, b + 1, (long long)w, (unsigned long long)s,
             a2 + 1, b2 + 1, (long long)w2, (unsigned long long)s2);
    }
}
void run_temporal(const Case& c) {
    std::string t = text_of(c);
    TE e;
    uint64_t n = 0;
    bool dub = odd_cr(t), inv = false;
    for (auto& l : split(t)) {
        if (!l.empty() && l[0] == '%') continue;
        if (!l.empty() && (l[0] == 'p' || l[0] == 'c')) { dub = true; break; }       // DIMACS
        auto tk = tokens(l);
        if (tk.empty() || tk.size() > 4) { dub = true; continue; }
        uint64_t x[4] = { 0, 0, 0, 0 };
        bool sign = tk.size() > 2 && (tk[2][0] == '+' || tk[2][0] == '-'), neg = sign && tk[2][0] == '-';
        if (sign) tk[2] = tk[2].substr(1);
        if (sign && (tk[2].empty() || tk.size() == 3)) { dub = true; continue; }
        bool stop = false;
        for (size_t i = 0; i < tk.size() && !stop; ++i) {
            Num k = number(tk[i], &x[i]);
            if (k == JUNK) { if (i < 2) inv = true; else dub = true; stop = true; }
            if (k == MIXED) { dub = true; stop = true; }
        }
        if (stop) continue;
        if (tk.size() < 2 || x[0] == 0 || x[1] == 0) { inv = true; continue; }
        if (x[0] > 0x7fffffff || x[1] > 0x7fffffff) { dub = true; continue; }
        int64_t w = tk.size() == 4 ? (neg ? -(int64_t)x[2] : (int64_t)x[2]) : 1;
        uint64_t s = tk.size() == 4 ? x[3] : tk.size() == 3 ? x[2] : 0;
        e.emplace_back((NodeID)x[0] - 1, (NodeID)x[1] - 1, w, s);
        n = std::max(n, std::max(x[0], x[1]));
    }
    std::stable_sort(e.begin(), e.end(), [](const auto& a, const auto& b) { return std::get<3>(a) < std::get<3>(b); });
    want = dub ? DUBIOUS : inv ? INVALID : VALID;
    why = "a line without two vertices";
    place(c, t);
    std::pair<NodeID, TE> r;
    bool ok = attempt([&] { r = graph_io::readTemporalGraph(FILE_NAME); });
    if (result_counts(ok)) same_edges(r, e, n);
}
void run_dimacs(const Case& c) {
    std::string t = text_of(c);
    TE e;
    uint64_t n = 0, m = 0, counter = 1;
    bool dub = odd_cr(t), inv = false, header = false;
    for (auto& l : split(t)) {
        if (!l.empty() && l[0] == 'c') continue;
        auto tk = tokens(l);
        if (tk.empty() || blank(l[0])) { dub = true; continue; }
        uint64_t x[3] = { 0, 0, 1 };
        if (!header) {
            if (tk[0] != "p") { dub = true; break; }
            size_t i = tk.size() == 4 ? 2 : 1;
            if (tk.size() < 3 || tk.size() > 4 || (i == 2 && dig(tk[1][0])) || number(tk[i], &n) != NUM || number(tk[i + 1], &m) != NUM || n > 0x7fffffff) { dub = true; break; }
            header = true;
            continue;
        }
        if ((tk[0] != "e" && tk[0] != "a") || tk.size() < 3 || tk.size() > 4) { dub = true; continue; }
        bool stop = false;
        for (size_t i = 1; i < tk.size() && !stop; ++i) if (number(tk[i], &x[i - 1]) != NUM) stop = dub = true;
        if (stop) continue;
        if (x[0] == 0 || x[1] == 0 || x[0] > n || x[1] > n) { inv = true; continue; }
        if (x[0] >= x[1]) { dub = true; continue; }         // only one direction is kept
        e.emplace_back((NodeID)x[0] - 1, (NodeID)x[1] - 1, (int64_t)x[2], counter++);
    }
    if (!header) dub = true;
    want = dub ? DUBIOUS : inv ? INVALID : VALID;
    why = "a vertex out of range";
    place(c, t);
    std::pair<NodeID, TE> r;
    bool ok = attempt([&] { r = graph_io::readTemporalGraph(FILE_NAME); });
    if (result_counts(ok)) same_edges(r, e, n);
}

// ---- generation ------------------------------------------------------------------------
struct Fmt { bool crlf, tabs; double lead, trail, multi, comment; };
Fmt rnd_fmt(Rng& r) {
    Fmt f { r.chance(0.1), r.chance(0.15), 0, 0, 0, 0 };
    if (r.chance(0.3)) f.lead = 0.3;
    if (r.chance(0.6)) f.trail = r.chance(0.5) ? 1 : 0.4;
    if (r.chance(0.25)) f.multi = 0.3;
    if (r.chance(0.4)) f.comment = 0.3;
    return f;
}
std::string sep(Rng& r, const Fmt& f) {
    std::string s;
    do s += f.tabs && r.chance(0.5) ? '\t' : ' '; while (r.chance(f.multi));
    return s;
}
std::string join(Rng& r, const Fmt& f, const std::vector<std::string>& t) {
    std::string s;
    if (r.chance(f.lead)) s += sep(r, f);
    for (size_t i = 0; i < t.size(); ++i) { if (i) s += sep(r, f); s += t[i]; }
    if (r.chance(f.trail)) s += sep(r, f);
    if (f.crlf) s += '\r';
    return s;
}
void comment(Rng& r, const Fmt& f, Lines& l, char ch) {
    while (r.chance(f.comment)) {
        std::string s(1, ch);
        int64_t k = r.range(0, 12);
        static const char A[] = " 0123456789abc%\t ";
        for (int64_t i = 0; i < k; ++i) s += A[r.below(sizeof A - 1)];
        l.push_back(s);
    }
}
std::string str(uint64_t x) { return std::to_string(x); }
uint64_t weight(Rng& r) {
    switch (r.below(6)) {
    case 0: return 1;
    case 1: return (uint64_t)r.range(1, 9);
    case 2: return (uint64_t)r.range(1, 99999);
    case 3: return (uint64_t)r.range(1, 1ll << 40);
    case 4: return 0x7fffffffull + (uint64_t)r.range(0, 3) * 0x80000000ull + (uint64_t)r.range(0, 2);
    default: return (uint64_t)r.range(1, 3);
    }
}
void damage(Case& c, Rng& r, Lines& l) {
    int k = (int)r.range(1, r.chance(0.7) ? 1 : 3);
    for (int i = 0; i < k && !l.empty(); ++i) {
        size_t x = (size_t)r.below(l.size());
        if (r.chance(0.3)) x = 0;
        switch (r.below(11)) {
        case 0: l.erase(l.begin() + (long)x); break;
        case 1: l.insert(l.begin() + (long)x, l[x]); break;
        case 2: l.insert(l.begin() + (long)r.below(l.size() + 1), std::string()); break;
        case 3: { static const char A[] = "0123456789 %-+.x\tp\r"; l[x].insert((size_t)r.below(l[x].size() + 1), 1, A[r.below(sizeof A - 1)]); break; }
        case 4: if (!l[x].empty()) l[x].erase((size_t)r.below(l[x].size()), 1); break;
        case 5: l.push_back(r.chance(0.5) ? std::string() : "1"); break;
        case 6: l[x] += " " + str((uint64_t)r.range(0, 30)); break;
        case 7: { auto t = tokens(l[x]); if (!t.empty()) { t[r.below(t.size())] = str(r.chance(0.3) ? 0 : (uint64_t)r.range(0, 40)); std::string s; for (auto& y : t) s += y + " "; l[x] = s; } break; }
        case 8: { auto t = tokens(l[x]); if (!t.empty()) { t.erase(t.begin() + (long)r.below(t.size())); std::string s; for (auto& y : t) s += y + " "; l[x] = s; } break; }
        case 9: { auto t = tokens(l[x]); if (!t.empty()) { static const char* J[] = { "x", "-1", "%", "4294967297", "4294967296", "1e3", "18446744073709551617" }; t[r.below(t.size())] = J[r.below(7)]; std::string s; for (auto& y : t) s += y + " "; l[x] = s; } break; }
        default: c.p["missing"] = r.chance(0.5); break;
        }
    }
}
void finish(Case& c, Rng& r, Lines& l) {
    double what = r.unit();
    if (what < 0.35) damage(c, r, l);
    to_ops(c, l);
    c.p["nonl"] = r.chance(0.2);
    if (what > 0.85) { std::string t = text_of(c); c.p["cut"] = r.range(0, (int64_t)t.size()); }
    c.p["errors"] = r.chance(0.25);
    c.p["rep"] = (int64_t)r.below(2);
}
void gen_graph(Case& c, Rng& r, int) {
    Fmt f = rnd_fmt(r);
    int64_t n = r.chance(0.1) ? r.range(0, 2) : r.chance(0.9) ? r.range(2, 14) : r.range(100, 700);
    std::map<std::pair<int64_t, int64_t>, uint64_t> e;
    int64_t tries = r.range(0, n < 20 ? n * 3 : n * 4);
    static const int FMT[] = { -1, 0, 1, 1, 1, 10, 11, 11, 100, 101, 111 };
    int fmt = FMT[r.below(11)];
    bool ew = fmt > 0 && fmt % 10, vw = fmt > 0 && fmt / 10 % 10, vs = fmt >= 100;
    for (int64_t i = 0; i < tries; ++i) {
        int64_t a = (int64_t)r.below((uint64_t)n), b = (int64_t)r.below((uint64_t)n);
        if (a != b) e[{ std::min(a, b), std::max(a, b) }] = ew ? weight(r) : 1;
    }
    std::vector<std::vector<std::pair<int64_t, uint64_t> > > adj((size_t)n);
    for (auto& x : e) { adj[(size_t)x.first.first].push_back({ x.first.second, x.second }); adj[(size_t)x.first.second].push_back({ x.first.first, x.second }); }
    bool loops = r.chance(0.05);
    Lines l;
    comment(r, f, l, '%');
    std::vector<std::string> h { str((uint64_t)n), str(e.size()) };
    int64_t ncon = 1;
    if (fmt >= 0) {
        std::string s = str((uint64_t)fmt);
        if (r.chance(0.2)) while (s.size() < 3) s = "0" + s;
        h.push_back(s);
        if (vw && r.chance(0.4)) { ncon = r.range(1, 3); h.push_back(str((uint64_t)ncon)); }
    }
    l.push_back(join(r, f, h));
    for (int64_t v = 0; v < n; ++v) {
        comment(r, f, l, '%');
        std::vector<std::string> t;
        if (vs) t.push_back(str((uint64_t)r.range(0, 5)));
        if (vw) for (int64_t i = 0; i < ncon; ++i) t.push_back(str((uint64_t)r.range(0, 20)));
        auto& a = adj[(size_t)v];
        for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[r.below(i)]);
        for (auto& x : a) {
            if (loops && r.chance(0.1)) { t.push_back(str((uint64_t)v + 1)); if (ew) t.push_back(str((uint64_t)r.range(1, std::max<int64_t>(1, n)))); }
            t.push_back(str((uint64_t)x.first + 1));
            if (ew) t.push_back(str(x.second));
        }
        l.push_back(join(r, f, t));
    }
    comment(r, f, l, '%');
    finish(c, r, l);
}
void gen_vector(Case& c, Rng& r, int) {
    Fmt f = rnd_fmt(r);
    Lines l;
    int64_t n = r.chance(0.1) ? r.range(1500, 4000) : r.range(0, 20);
    int64_t hi = r.chance(0.5) ? 8 : r.chance(0.5) ? 0xffffffffll : 1ll << 53;
    for (int64_t i = 0; i < n; ++i) { comment(r, f, l, '%'); l.push_back(str((uint64_t)r.range(0, hi))); if (f.crlf) l.back() += '\r'; }
    comment(r, f, l, '%');
    finish(c, r, l);
}
void gen_temporal(Case& c, Rng& r, int) {
    Fmt f = rnd_fmt(r);
    Lines l;
    int64_t n = r.chance(0.15) ? r.range(300, 900) : r.range(0, 30);
    int64_t ids = r.range(1, 20), times = r.chance(0.5) ? r.range(1, 4) : 2000000000;
    int cols = (int)r.range(2, 4);
    bool sign = cols == 4 && r.chance(0.7);
    comment(r, f, l, '%');
    for (int64_t i = 0; i < n; ++i) {
        if (r.chance(0.1)) comment(r, f, l, '%');
        std::vector<std::string> t { str((uint64_t)r.range(1, ids)), str((uint64_t)r.range(1, ids)) };
        if (cols == 4) t.push_back((sign ? (r.chance(0.5) ? "+" : "-") : "") + str((uint64_t)r.range(1, 5)));
        if (cols > 2) t.push_back(str((uint64_t)r.range(0, times)));
        l.push_back(join(r, f, t));
    }
    finish(c, r, l);
}
void gen_dimacs(Case& c, Rng& r, int) {
    Fmt f = rnd_fmt(r);
    f.lead = 0; f.tabs = false;
    Lines l;
    int64_t n = r.range(2, 30), m = r.range(0, 40);
    comment(r, f, l, 'c');
    f.lead = 0;
    std::vector<std::string> h { "p" };
    if (r.chance(0.6)) h.push_back(r.chance(0.5) ? "col" : "FORMAT");
    h.push_back(str((uint64_t)n));
    h.push_back(str((uint64_t)m));
    l.push_back(join(r, f, h));
    bool w = r.chance(0.5);
    for (int64_t i = 0; i < m; ++i) {
        int64_t a = r.range(1, n - 1), b = r.range(a + 1, n);
        if (r.chance(0.1)) comment(r, f, l, 'c');
        std::vector<std::string> t { w ? "a" : "e", str((uint64_t)a), str((uint64_t)b) };
        if (w) t.push_back(str((uint64_t)r.range(1, 9)));
        l.push_back(join(r, f, t));
    }
    finish(c, r, l);
}
void tune(const Case&, Rng& r, Config& cf) {
    static const double F[] = { 0, 0.02, 0.1, 0.3, 0.6, 0.9 };
    cf.f_io = F[r.below(6)];
    cf.threads = 1;
    cf.soft_steps = 20000000; cf.hard_steps = 40000000;
}
Reg g1({ "graph", 60, gen_graph, tune, run_graph, true });
Reg g2({ "vector", 12, gen_vector, tune, run_vector, true });
Reg g3({ "temporal", 18, gen_temporal, tune, run_temporal, true });
Reg g4({ "dimacs", 10, gen_dimacs, tune, run_dimacs, true });
#endif
}  // namespace
#if PROP == 14
#include "io_write.h"
#endif

// C21: the programs that derive one file from another.  APP=1 kcore, 2 largest_cc,
// 3 temporal_largest_cc, 4 make_graph_weighted, 5 gnp_torus, 6 create_augment_edges.
#define PROP 21
#include "sim/rt.h"
#include "sim/oracle.h"
#include <omp.h>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include "graphs.h"
inline uint32_t g_coarse_limit = 10000;
#define VIECUT_COARSE_LIMIT g_coarse_limit
#if APP == 1
#include "../app/kcore.cpp"
#elif APP == 2
#include "../app/largest_cc.cpp"
#elif APP == 3
#include "../app/temporal_largest_cc.cpp"
#elif APP == 4
#include "../app/make_graph_weighted.cpp"
#elif APP == 5
#include "../app/gnp_torus.cpp"
#else
#include "../app/create_augment_edges.cpp"
#endif
#include "app_run.h"

namespace {
// ---- files the programs write ------------------------------------------------------------
// a graph file read back: every edge from both sides with one weight, no self-loop, the right counts
ora::Graph written(const std::string& name, bool weights) {
    const char* cmd = command().c_str();
    std::string s;
    if (!fs::get("/simfs/" + name, &s)) fail("no-file", "'%s': %s was not written", command().c_str(), name.c_str());
    std::istringstream in(s);
    std::string l;
    ora::Graph h;
    uint64_t m = 0;
    int fmt = 0;
    (void)cmd;
    if (!std::getline(in, l)) fail("file", "'%s': %s is empty", command().c_str(), name.c_str());
    {
        std::istringstream w(l);
        if (!(w >> h.n >> m)) fail("file", "'%s': %s has the header '%s'", command().c_str(), name.c_str(), l.c_str());
        w >> fmt;
    }
    if (weights != (fmt == 1)) fail("file", "'%s': %s has format %d", command().c_str(), name.c_str(), fmt);
    std::map<std::pair<uint32_t, uint32_t>, uint64_t> a;
    for (uint32_t v = 0; v < h.n; ++v) {
        if (!std::getline(in, l)) fail("file", "'%s': %s ends after %u of %u vertices%s", command().c_str(), name.c_str(), v, h.n, fs::write_failed("/simfs/" + name) ? " (a write failed)" : "");
        std::istringstream w(l);
        uint64_t t, x = 1;
        while (w >> t) {
            if (weights && !(w >> x)) fail("file", "'%s': %s has an edge without weight at vertex %u", command().c_str(), name.c_str(), v);
            if (t == 0 || t > h.n || t == v + 1ull) fail("file", "'%s': %s has an edge from %u to %llu of %u", command().c_str(), name.c_str(), v + 1, (ull)t, h.n);
            if (!a.insert({ { v, (uint32_t)t - 1 }, x }).second) fail("file", "'%s': %s has the edge from %u to %llu twice", command().c_str(), name.c_str(), v + 1, (ull)t);
        }
        if (!w.eof()) fail("file", "'%s': %s has the line '%s'", command().c_str(), name.c_str(), l.c_str());
    }
    while (std::getline(in, l)) if (!l.empty()) fail("file", "'%s': %s goes on after %u vertices", command().c_str(), name.c_str(), h.n);
    for (auto& x : a) {
        auto r = a.find({ x.first.second, x.first.first });
        if (r == a.end() || r->second != x.second) fail("file", "'%s': %s has the edge from %u to %u with weight %llu in one direction only", command().c_str(), name.c_str(), x.first.first + 1, x.first.second + 1, (ull)x.second);
        if (x.first.first < x.first.second) h.e.push_back({ x.first.first, x.first.second, x.second });
    }
    if (h.e.size() != m) fail("file", "'%s': %s announces %llu edges and has %zu", command().c_str(), name.c_str(), (ull)m, h.e.size());
    return h;
}
// the same for graphs that differ only in the numbering
uint64_t shape(const ora::Graph& h) {
    std::vector<uint64_t> c(h.n, 1), d;
    auto mix = [](uint64_t x) { x ^= x >> 31; x *= 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; return x ^ (x >> 32); };
    for (int i = 0; i < 8; ++i) {
        d.assign(h.n, 0);
        for (auto& e : h.e) { d[e.u] += mix(c[e.v] * 3 + mix(e.w)); d[e.v] += mix(c[e.u] * 3 + mix(e.w)); }
        for (uint32_t v = 0; v < h.n; ++v) c[v] = mix(c[v] * 7 + d[v]);
    }
    uint64_t s = mix(h.n);
    for (auto x : c) s += mix(x);
    return mix(s + h.e.size());
}
ora::Graph induced(const ora::Graph& h, const std::vector<uint8_t>& in) {
    ora::Graph r;
    std::vector<uint32_t> id(h.n);
    for (uint32_t v = 0; v < h.n; ++v) if (in[v]) id[v] = r.n++;
    for (auto& e : h.e) if (in[e.u] && in[e.v]) r.e.push_back({ id[e.u], id[e.v], e.w });
    return r;
}
// the component of every vertex, numbered from 0; the number of components
uint32_t parts(const ora::Graph& h, std::vector<uint32_t>* id) {
    ora::components(h, id);
    std::map<uint32_t, uint32_t> no;
    for (auto& x : *id) x = no.insert({ x, (uint32_t)no.size() }).first->second;
    return (uint32_t)no.size();
}
// every component of the largest size
std::vector<ora::Graph> largest(const ora::Graph& h) {
    std::vector<uint32_t> id;
    uint32_t k = parts(h, &id);
    std::vector<uint32_t> size(k, 0);
    for (auto x : id) ++size[x];
    uint32_t most = 0;
    for (auto x : size) most = std::max(most, x);
    std::vector<ora::Graph> r;
    for (uint32_t i = 0; i < k; ++i) if (size[i] == most) {
        std::vector<uint8_t> in(h.n);
        for (uint32_t v = 0; v < h.n; ++v) in[v] = id[v] == i;
        r.push_back(induced(h, in));
    }
    return r;
}
bool same(const ora::Graph& a, const ora::Graph& b) { return a.n == b.n && a.e.size() == b.e.size() && shape(a) == shape(b); }
void two_components(Case& c, Rng& r, int64_t maxn) {
    // several components, some of equal size
    wl::B b;
    int64_t k = r.range(1, 4), o = 0;
    for (int64_t i = 0; i < k; ++i) {
        wl::B d;
        wl::gen_graph(d, r, std::max<int64_t>(3, maxn / k), false, false);
        int copies = r.chance(0.2) ? 2 : 1;
        for (int j = 0; j < copies; ++j) {
            for (auto& e : d.e) b.add(e.first.first + o, e.first.second + o, e.second);
            o += d.n;
        }
    }
    wl::emit(b, c, r, r.chance(0.7));
}
bool excused() { return rep.said && io_fault; }
void tune(const Case&, Rng& r, Config& f) {
    f.soft_steps = 20000000; f.hard_steps = 200000000;
    static const double F[] = { 0, 0.02, 0.1, 0.3 };
    f.f_io = F[r.below(4)];
}
void io_params(Case& c, Rng& r) {
    c.p["fmt"] = r.chance(0.5);
    c.p["bad"] = r.chance(0.02);
    c.p["rdfault"] = r.chance(0.3);
    c.p["wrfault"] = r.chance(0.4);
    c.p["errors"] = r.chance(0.2);
}

#if APP == 1
// ---- kcore ----------------------------------------------------------------------------------
std::vector<uint32_t> coreness(const ora::Graph& h) {
    std::vector<uint32_t> r(h.n, 0);
    std::vector<uint8_t> in(h.n, 1);
    for (uint32_t k = 1; ; ++k) {
        for (;;) {
            std::vector<uint32_t> d(h.n, 0);
            for (auto& e : h.e) if (in[e.u] && in[e.v]) { ++d[e.u]; ++d[e.v]; }
            bool any = false;
            for (uint32_t v = 0; v < h.n; ++v) if (in[v] && d[v] < k) { in[v] = 0; any = true; }
            if (!any) break;
        }
        bool left = false;
        for (uint32_t v = 0; v < h.n; ++v) if (in[v]) { r[v] = k; left = true; }
        if (!left) return r;
    }
}
std::vector<int64_t> asked() {
    std::vector<int64_t> k;
    for (int64_t i = 0; i < cur->get("nk"); ++i) k.push_back(cur->get(("k" + num((uint64_t)i)).c_str()));
    return k;
}
void check_kcore() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/graph.metis") || c.get("bad");
    for (int k = 0; k < 64; ++k) if (fs::write_failed("/simfs/graph.metis_core_" + num((uint64_t)k))) io_fault = true;
    if (c.get("bad") && !refused) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    if (io_fault && refused) { probe("reported"); return; }
    auto core = coreness(g);
    uint32_t top = 0;
    for (auto x : core) top = std::max(top, x);
    std::vector<int64_t> targets;
    if (c.get("low")) {
        for (uint32_t k = 2; k <= top; ++k) {
            bool differs = k == 2;
            for (auto x : core) if (x == k - 1) differs = true;
            if (differs) targets.push_back(k);
        }
    } else targets = asked();
    if (g.n == 0 || targets.empty()) {
        if (!refused) fail("no-target", "'%s': nothing to do, and the program says nothing", command().c_str());
        probe("nothing_to_do");
        return;
    }
    if (refused) fail("refused", "'%s' gave up (status %d) although nothing failed; innermost core %u", command().c_str(), code, top);
    nontrivial();
    std::set<std::string> known;
    for (auto k : targets) {
        if (k > top) continue;
        std::string name = "graph.metis_core_" + num((uint64_t)k), s;
        std::vector<uint8_t> in(g.n);
        for (uint32_t v = 0; v < g.n; ++v) in[v] = core[v] >= k;
        auto cand = largest(induced(g, in));
        std::string line = "core " + num((uint64_t)k) + " nodes: " + num(cand[0].n);
        if (out.find(line + " ") == std::string::npos) fail("core-size", "'%s': the largest component of the %lld-core has %u vertices, the program does not say so", command().c_str(), (long long)k, cand[0].n);
        bool have = fs::get("/simfs/" + name, &s), ok = false;
        if (!have && fs::write_failed("/simfs/" + name)) { if (!rep.said) fail("unreported", "'%s': %s could not be written, and the program says nothing", command().c_str(), name.c_str()); return; }
        known.insert(name);
        for (auto& h : cand) {
            bool want = h.n > 0 && (c.get("nocut") ? 0 : h.n < 2 ? 0 : ora::mincut(h)) < ora::min_degree(h);
            if (want != have) continue;
            if (have && !excused() && !same(h, written(name, false))) continue;
            ok = true;
        }
        if (!ok) {
            ora::Graph w;
            if (have) w = written(name, false);
            fail("core-graph", "'%s': %s %s (n=%u m=%zu), the largest of %zu components of the %lld-core has n=%u m=%zu, minimum cut %llu, minimum degree %llu", command().c_str(), name.c_str(), have ? "was written" : "was not written", w.n, w.e.size(), cand.size(), (long long)k, cand[0].n, cand[0].e.size(), (ull)(cand[0].n > 1 ? ora::mincut(cand[0]) : 0), (ull)ora::min_degree(cand[0]));
        }
        if (have) probe("core_written"); else probe("core_not_written");
        note(have);
        if (have && c.get("low")) break;
    }
    for (uint32_t k = 0; k <= top + 2; ++k) {
        std::string name = "graph.metis_core_" + num(k), s;
        if (!known.count(name) && fs::get("/simfs/" + name, &s)) fail("core-graph", "'%s': %s was written", command().c_str(), name.c_str());
    }
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        for (auto& e : g.e) e.w = 1;
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "kcore" };
        if (c.get("low")) add("-l");
        if (c.get("nocut")) add("-c");
        for (auto k : asked()) add("-k", num((uint64_t)k));
        add("graph.metis");
    }
    faults(c);
    start(check_kcore);
}
void gen(Case& c, Rng& r, int) {
    c.p["low"] = r.chance(0.4);
    c.p["nk"] = c.p["low"] ? (r.chance(0.1) ? 1 : 0) : r.chance(0.03) ? 0 : r.range(1, 4);
    for (int64_t i = 0; i < c.p["nk"]; ++i) c.p["k" + num((uint64_t)i)] = r.chance(0.1) ? 0 : r.range(1, 7);
    c.p["nocut"] = r.chance(0.2);
    c.p["iso"] = r.chance(0.2) ? r.range(1, 3) : 0;
    if (r.chance(0.5)) {                // dense parts joined by a few edges
        wl::B b;
        int64_t k = r.range(2, 4), o = 0;
        for (int64_t i = 0; i < k; ++i) {
            int64_t n = r.range(3, 8);
            double p = 0.4 + 0.6 * r.unit();
            for (int64_t x = 0; x < n; ++x) for (int64_t y = 0; y < x; ++y) if (r.chance(p)) b.add(o + x, o + y, 1);
            if (o) for (int64_t x = r.range(0, 3); x > 0; --x) b.add((int64_t)r.below((uint64_t)o), o + (int64_t)r.below((uint64_t)n), 1);
            o += n;
        }
        for (int64_t x = r.range(0, 6); x > 0; --x) { b.add((int64_t)r.below((uint64_t)o), o, 1); ++o; }
        wl::emit(b, c, r, r.chance(0.7));
    } else if (r.chance(0.5)) two_components(c, r, 24);
    else wl::gen_case(c, r, r.chance(0.6) ? 12 : 30, false, false);
    io_params(c, r);
}
Reg reg({ "kcore", 1, gen, tune, run, true });
#endif

#if APP == 2
// ---- largest_cc ------------------------------------------------------------------------------
void check_largest() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::write_failed("/simfs/graph.cc") || c.get("bad");
    not_refused();
    if (refused) { probe("reported"); return; }
    if (c.get("bad")) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    if (excused()) { probe("reported_on_stderr"); return; }
    auto cand = largest(g);
    ora::Graph w = written("graph.cc", c.get("weighted"));
    if (cand.size() && cand[0].n < g.n) nontrivial();
    if (!c.get("weighted")) for (auto& h : cand) for (auto& e : h.e) e.w = 1;
    bool ok = cand.empty() && w.n == 0;
    for (auto& h : cand) ok |= same(h, w);
    if (cand.size() > 1) probe("equally_large");
    if (!ok) fail("largest-component", "'%s': n=%u m=%zu was written, the largest component (of %zu) has n=%u m=%zu", command().c_str(), w.n, w.e.size(), cand.size(), cand.empty() ? 0 : cand[0].n, cand.empty() ? 0 : cand[0].e.size());
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        place_graph(c);
        args = { "largest_cc" };
        if (c.get("weighted")) add("-w");
        add("graph.metis");
    }
    faults(c);
    start(check_largest);
}
void gen(Case& c, Rng& r, int) {
    c.p["weighted"] = r.chance(0.5);
    c.p["iso"] = r.chance(0.2) ? r.range(1, 3) : 0;
    if (r.chance(0.8)) two_components(c, r, r.chance(0.6) ? 20 : 80);
    else wl::gen_case(c, r, 30, true, false);
    io_params(c, r);
}
Reg reg({ "largest_cc", 1, gen, tune, run, true });
#endif

#if APP == 3
// ---- temporal_largest_cc: ops {a, b, w, time} ---------------------------------------------------
struct Line { uint64_t a, b; int64_t w; uint64_t t; };
std::vector<Line> lines;
uint32_t vertices;
void check_temporal() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/updates") || fs::write_failed("/simfs/updates.cc") || c.get("bad");
    not_refused();
    if (refused || excused()) { probe("reported"); return; }
    if (c.get("bad")) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    std::string s;
    if (!fs::get("/simfs/updates.cc", &s)) fail("no-file", "'%s': updates.cc was not written", command().c_str());
    std::vector<Line> got;
    std::istringstream in(s);
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream w(l);
        Line x;
        if (!(w >> x.a >> x.b >> x.w >> x.t)) fail("file", "'%s': updates.cc has the line '%s'%s", command().c_str(), l.c_str(), fs::write_failed("/simfs/updates.cc") ? " (a write failed)" : "");
        got.push_back(x);
    }
    g.n = vertices;
    g.e.clear();
    std::vector<Line> sorted = lines;
    std::stable_sort(sorted.begin(), sorted.end(), [](const Line& x, const Line& y) { return x.t < y.t; });
    for (auto& x : lines) if (x.a != x.b) g.e.push_back({ (uint32_t)x.a, (uint32_t)x.b, 1 });
    std::vector<uint32_t> id;
    uint32_t k = parts(g, &id);
    std::vector<uint32_t> size(k, 0);
    for (auto x : id) ++size[x];
    uint32_t most = 0, ties = 0;
    for (auto x : size) most = std::max(most, x);
    if (most < vertices && most > 1) nontrivial();
    bool ok = k == 0 && got.empty();
    for (uint32_t i = 0; i < k; ++i) if (size[i] == most) {
        ++ties;
        std::vector<Line> want;
        for (auto& x : sorted) if (id[x.a] == i) want.push_back(x);
        if (want.size() != got.size()) continue;
        std::map<uint64_t, uint64_t> to, from;
        bool fits = true;
        auto match = [&](uint64_t x, uint64_t y) { if (y < 1 || y > most || to.insert({ x, y }).first->second != y || from.insert({ y, x }).first->second != x) fits = false; };
        for (size_t j = 0; j < want.size() && fits; ++j) {
            match(want[j].a, got[j].a);
            match(want[j].b, got[j].b);
            if (want[j].w != got[j].w || want[j].t != got[j].t) fits = false;
        }
        ok |= fits;
    }
    if (ties > 1) probe("equally_large");
    if (!ok) fail("largest-component", "'%s': the %zu updates written are not those within the largest component (%u vertices, %u such components) of %zu updates on %u vertices", command().c_str(), got.size(), most, ties, lines.size(), vertices);
    note(got.size());
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        lines.clear();
        std::map<int64_t, uint32_t> id;
        std::string t;
        for (auto& o : c.ops) for (int d = 0; d < 2; ++d) id.insert({ o[d], 0 });
        vertices = 0;
        for (auto& x : id) x.second = vertices++;
        for (auto& o : c.ops) {
            Line x = { id[o[0]], id[o[1]], o[2], (uint64_t)o[3] };
            lines.push_back(x);
            t += num(x.a + 1) + " " + num(x.b + 1) + " ";
            if (x.w < 0 || c.get("sign")) t += x.w < 0 ? "-" + num((uint64_t)-x.w) : "+" + num((uint64_t)x.w);
            else t += num((uint64_t)x.w);
            t += " " + num(x.t) + "\n";
        }
        if (!c.get("bad")) fs::put("/simfs/updates", t);
        args = { "temporal_largest_cc", "updates" };
    }
    faults(c);
    start(check_temporal);
}
void gen(Case& c, Rng& r, int) {
    Case d;
    two_components(d, r, r.chance(0.6) ? 16 : 60);
    bool neg = r.chance(0.3), order = r.chance(0.5);
    int64_t t = 0, most = r.range(1, 40);
    for (auto& o : d.ops) if (o[0] != o[1]) {
        t = order ? t + r.range(0, 2) : (int64_t)r.below((uint64_t)most);
        int64_t w = r.range(1, 5);
        c.ops.push_back({ o[0], o[1], neg && r.chance(0.3) ? -w : w, t });
        if (r.chance(0.1)) c.ops.push_back({ o[1], o[0], r.range(1, 5), t });
        if (r.chance(0.03)) c.ops.push_back({ o[0], o[0], 1, t });
    }
    c.p["sign"] = r.chance(0.5);
    io_params(c, r);
}
Reg reg({ "temporal_largest_cc", 1, gen, tune, run, true });
#endif

#if APP == 4
// ---- make_graph_weighted -------------------------------------------------------------------------
std::string first_text;
void check_again() {
    std::string s;
    if (refused || (rep.said && (fs::write_failed("/simfs/weighted") || fs::read_failed("/simfs/graph.metis")))) return;
    if (!fs::get("/simfs/weighted", &s)) fail("no-file", "'%s': weighted was not written the second time", command().c_str());
    if (s != first_text) fail("not-reproducible", "'%s': other weights the second time", command().c_str());
    probe("reproduced");
}
void check_weighted() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::write_failed("/simfs/weighted") || c.get("bad");
    not_refused();
    if (refused || excused()) { probe("reported"); return; }
    if (c.get("bad")) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    ora::Graph w = written("weighted", true);
    if (w.n != g.n || w.e.size() != g.e.size()) fail("structure", "'%s': n=%u m=%zu became n=%u m=%zu", command().c_str(), g.n, g.e.size(), w.n, w.e.size());
    std::set<std::pair<uint32_t, uint32_t> > have;
    for (auto& e : g.e) have.insert({ std::min(e.u, e.v), std::max(e.u, e.v) });
    uint64_t lo = (uint64_t)c.get("min"), hi = (uint64_t)c.get("max"), f = (uint64_t)c.get("multi"), heavy = 0;
    std::vector<uint8_t> covered(g.n, 0), isolated(g.n, 1);
    std::set<uint64_t> seen;
    for (auto& e : w.e) {
        if (!have.count({ std::min(e.u, e.v), std::max(e.u, e.v) })) fail("structure", "'%s': the edge from %u to %u is new", command().c_str(), e.u, e.v);
        bool light = e.w >= lo && e.w <= hi, big = e.w >= lo * f && e.w <= hi * f && e.w % f == 0;
        if (!light && !big) fail("weight", "'%s': the edge from %u to %u has weight %llu", command().c_str(), e.u, e.v, (ull)e.w);
        isolated[e.u] = isolated[e.v] = 0;
        if (big) covered[e.u] = covered[e.v] = 1;
        if (big && !light) ++heavy;
        seen.insert(e.w);
    }
    if (w.e.size() > 1) nontrivial();
    for (uint32_t v = 0; v < g.n; ++v) if (!isolated[v] && !covered[v]) fail("weight", "'%s': no edge of vertex %u is multiplied by %llu", command().c_str(), v, (ull)f);
    if (heavy > g.n) fail("weight", "'%s': %llu of %zu edges are multiplied, there are %u vertices", command().c_str(), (ull)heavy, w.e.size(), g.n);
    if (w.e.size() >= 60 && hi - lo >= 9 && seen.size() < 2) fail("weight", "'%s': all of %zu weights are equal", command().c_str(), w.e.size());
    note(heavy);
    if (c.get("again")) {
        fs::get("/simfs/weighted", &first_text);
        start(check_again);
    }
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        place_graph(c);
        args = { "make_graph_weighted" };
        if (c.get("seed")) add("-s", num((uint64_t)c.get("seed")));
        add("graph.metis", "weighted");
        add(num((uint64_t)c.get("min")));
        add(num((uint64_t)c.get("max")), num((uint64_t)c.get("multi")));
    }
    faults(c);
    start(check_weighted);
}
void gen(Case& c, Rng& r, int) {
    c.p["min"] = r.range(1, 20);
    c.p["max"] = c.p["min"] + (r.chance(0.2) ? 0 : r.range(0, 50));
    c.p["multi"] = r.chance(0.2) ? 1 : r.range(2, 100);
    c.p["again"] = r.chance(0.3);
    c.p["seed"] = c.p["again"] || r.chance(0.6) ? r.range(1, 100000) : 0;
    c.p["iso"] = r.chance(0.2) ? r.range(1, 3) : 0;
    wl::gen_case(c, r, r.chance(0.6) ? 12 : 50, false, false);
    io_params(c, r);
}
Reg reg({ "make_graph_weighted", 1, gen, tune, run, true });
#endif

#if APP == 5
// ---- gnp_torus --------------------------------------------------------------------------------------
std::string first_text, name;
void check_again() {
    std::string s;
    if (refused || (rep.said && fs::write_failed("/simfs/" + name))) return;
    if (!fs::get("/simfs/" + name, &s)) fail("no-file", "'%s': %s was not written the second time", command().c_str(), name.c_str());
    if (s != first_text) fail("not-reproducible", "'%s': another graph the second time", command().c_str());
    probe("reproduced");
}
void check_torus() {
    const Case& c = *cur;
    uint64_t v = (uint64_t)c.get("v"), b = (uint64_t)c.get("b"), cut = (uint64_t)c.get("cut");
    io_fault = fs::write_failed("/simfs/" + name);
    not_refused();
    if (refused || excused()) { probe("reported"); return; }
    ora::Graph w = written(name, true);
    if (w.n != b * b * v) fail("structure", "'%s': %u vertices", command().c_str(), w.n);
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> between;
    std::vector<uint64_t> inside(b * b, 0);
    for (auto& e : w.e) {
        uint64_t x = e.u / v, y = e.v / v;
        if (x == y) inside[x] += e.w; else between[{ std::min(x, y), std::max(x, y) }] += e.w;
    }
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> want;
    for (uint64_t i = 0; i < b * b; ++i) {
        uint64_t x = i % b, y = i / b, n[2] = { y * b + (x + 1) % b, (y + 1) % b * b + x };
        for (auto j : n) if (cut) want[{ std::min(i, j), std::max(i, j) }] += cut;
    }
    if (between != want) fail("structure", "'%s': the edges between blocks do not weigh %llu for each pair of neighbours in the torus", command().c_str(), (ull)cut);
    uint64_t draws = v * (4 * cut + 1);
    for (auto x : inside) {
        if (x > draws || (draws >= 64 && v >= 4 && x < draws / 4)) fail("structure", "'%s': the edges in a block of %llu vertices weigh %llu, %llu were to be drawn", command().c_str(), (ull)v, (ull)x, (ull)draws);
    }
    nontrivial();
    note(shape(w));
    if (c.get("again")) {
        fs::get("/simfs/" + name, &first_text);
        start(check_again);
    }
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        uint64_t v = (uint64_t)c.get("v"), b = (uint64_t)c.get("b"), cut = (uint64_t)c.get("cut"), seed = (uint64_t)c.get("seed");
        args = { "gnp_torus" };
        add("-n", num(v));
        add("-c", num(cut));
        add("-b", num(b));
        if (seed) add("-s", num(seed));
        name = "gnp_" + num(v) + "_" + num(b) + "_" + num(cut) + "_" + num(seed);
        if (c.get("dir")) { add("-o", "/simfs"); }
    }
    faults(c);
    start(check_torus);
}
void gen(Case& c, Rng& r, int) {
    c.p["v"] = r.chance(0.1) ? r.range(1, 3) : r.range(3, 20);
    c.p["b"] = r.chance(0.7) ? r.range(2, 3) : r.range(4, 5);
    c.p["cut"] = r.chance(0.1) ? 0 : r.range(1, 5);
    c.p["seed"] = r.chance(0.1) ? 0 : (int64_t)r.below(100000);
    c.p["again"] = r.chance(0.3);
    c.p["dir"] = r.chance(0.3);
    io_params(c, r);
}
Reg reg({ "gnp_torus", 1, gen, tune, run, false });
#endif

#if APP == 6
// ---- create_augment_edges -----------------------------------------------------------------------------
std::string name;
uint64_t room;
void check_augment() {
    const Case& c = *cur;
    size_t ins = (size_t)c.get("ins"), del = (size_t)c.get("del");
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::write_failed("/simfs/" + name) || c.get("bad");
    if (del > ins) {
        if (!refused) fail("too-many-deletions", "'%s': more deletions than insertions, and the program says nothing", command().c_str());
        probe("too_many_deletions");
        return;
    }
    if (!c.get("bad") && ins > room + del && !refused) fail("too-many-insertions", "'%s': %zu insertions and %zu deletions, but only %llu pairs of vertices are not neighbours, and the program says nothing", command().c_str(), ins, del, (ull)room);
    if (g.n < 2 && !c.get("bad") && !refused) fail("no-cut", "'%s': a graph with %u vertices, and the program says nothing", command().c_str(), g.n);
    if ((ins > room || g.n < 2) && refused) { probe("too_many_insertions"); return; }
    not_refused();
    if (refused || excused()) { probe("reported"); return; }
    if (c.get("bad")) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    std::string s, l;
    if (!fs::get("/simfs/" + name, &s)) fail("no-file", "'%s': %s was not written", command().c_str(), name.c_str());
    std::istringstream in(s);
    std::set<std::pair<uint64_t, uint64_t> > have, added;
    for (auto& e : g.e) have.insert({ std::min(e.u, e.v), std::max(e.u, e.v) });
    size_t i = 0, d = 0;
    while (std::getline(in, l)) {
        std::istringstream w(l);
        uint64_t a, b, t;
        std::string sign, rest;
        if (!(w >> a >> b >> sign >> t) || (w >> rest) || (sign != "+1" && sign != "-1")) fail("file", "'%s': %s has the line '%s'%s", command().c_str(), name.c_str(), l.c_str(), fs::write_failed("/simfs/" + name) ? " (a write failed)" : "");
        if (a < 1 || b < 1 || a > g.n || b > g.n || a == b) fail("file", "'%s': update %zu is '%s' (%u vertices)", command().c_str(), i + d, l.c_str(), g.n);
        if (t != i + d) fail("file", "'%s': update %zu has the time %llu", command().c_str(), i + d, (ull)t);
        auto p = std::make_pair(std::min(a, b) - 1, std::max(a, b) - 1);
        if (sign == "+1") {
            ++i;
            if (!have.insert(p).second) fail("existing-edge", "'%s': update %llu inserts an edge that is there", command().c_str(), (ull)t);
            added.insert(p);
        } else {
            ++d;
            if (!added.erase(p)) fail("missing-edge", "'%s': update %llu deletes an edge that was not inserted", command().c_str(), (ull)t);
            have.erase(p);
        }
    }
    if (i != ins || d != del) fail("file", "'%s': %zu insertions and %zu deletions%s", command().c_str(), i, d, fs::write_failed("/simfs/" + name) ? " (a write failed)" : "");
    if (i) nontrivial();
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        for (auto& e : g.e) if (c.get("unit")) e.w = 1;
        std::set<std::pair<uint32_t, uint32_t> > pairs;
        for (auto& e : g.e) pairs.insert({ std::min(e.u, e.v), std::max(e.u, e.v) });
        room = g.n < 2 ? 0 : (uint64_t)g.n * (g.n - 1) / 2 - pairs.size();
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "create_augment_edges" };
        if (c.get("ins")) add("-i", num((uint64_t)c.get("ins")));
        if (c.get("del")) add("-d", num((uint64_t)c.get("del")));
        if (c.get("seed")) add("-r", num((uint64_t)c.get("seed")));
        add("graph.metis");
        name = "graph.metis." + num((uint64_t)c.get("ins")) + "." + num((uint64_t)c.get("del")) + "." + num((uint64_t)c.get("seed"));
    }
    faults(c);
    start(check_augment);
}
void gen(Case& c, Rng& r, int) {
    wl::B b;
    int64_t n = r.chance(0.3) ? r.range(2, 7) : r.range(6, 30), kind = (int64_t)r.below(5);
    if (kind == 0) for (int64_t i = 0; i < n; ++i) b.add(i, (i + 1) % n, 1);
    else if (kind == 1) for (int64_t i = 1; i < n; ++i) b.add(i, std::max<int64_t>(0, i - r.range(1, 3)), 1);
    else if (kind == 2) for (int64_t i = 0; i < n; ++i) { b.add(i, (i + 1) % n, r.range(1, 3)); if (r.chance(0.3)) b.add(i, (i + 2) % n, 1); }
    else if (kind == 3) for (int64_t i = 1; i < n; ++i) { b.add(0, i, 1); if (r.chance(0.2)) b.add(i, 1 + (int64_t)r.below((uint64_t)n - 1), 1); }
    else { for (int64_t i = 0; i < n; ++i) if (i % (n / 2)) b.add(i, i - 1, 1); if (r.chance(0.5)) b.add(0, n - 1, 1); }
    wl::emit(b, c, r, r.chance(0.7));
    c.p["unit"] = r.chance(0.6);
    c.p["ins"] = r.range(0, std::max<int64_t>(3, n - 8));
    c.p["del"] = r.chance(0.05) ? c.p["ins"] + 1 : r.chance(0.3) ? 0 : (int64_t)r.below((uint64_t)c.p["ins"] + 1);
    c.p["seed"] = r.chance(0.2) ? 0 : (int64_t)r.below(100000);
    if (r.chance(0.5)) c.p["limit"] = r.range(2, 12);
    io_params(c, r);
}
Reg reg({ "create_augment_edges", 1, gen, tune, run, true });
#endif
}

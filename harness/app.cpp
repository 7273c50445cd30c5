// C20: the command-line programs end to end.  APP=1 mincut, 2 multiterminal_cut, 3 dynamic_mincut;
// the first and the last with and without -DPARALLEL.
#define PROP 20
#include "sim/rt.h"
#include "sim/oracle.h"
#include "sim/mpi_sim.h"
#include <omp.h>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <future>
#include <iostream>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <variant>
#include "graphs.h"
inline uint32_t g_coarse_limit = 10000;
#define VIECUT_COARSE_LIMIT g_coarse_limit
#if APP == 1
#include "../app/mincut.cpp"
#elif APP == 2
#include "../app/multiterminal_cut.cpp"
#else
#include "../app/dynamic_mincut.cpp"
#endif
#include "mtc_inst.h"
#include "app_run.h"

namespace {

#if APP == 1
// ---- mincut ------------------------------------------------------------------------------
#ifdef PARALLEL
const char* const ALG[] = { "inexact", "exact", "cactus" };
const int NALG = 3;
#else
const char* const ALG[] = { "vc", "noi", "pr", "matula", "ks", "cactus" };
const int NALG = 6;
#endif
const char* const PQ[] = { "", "bqueue", "heap", "bstack" };
std::string alg() { return ALG[cur->get("alg") % NALG]; }
void check_mincut() {
    const Case& c = *cur;
    bool saved = c.get("save") && c.get("out"), xml = alg() == "cactus" && c.get("xml");
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::write_failed("/simfs/cut") || fs::write_failed("/simfs/cactus.graphml") || c.get("bad") == 1;
    if (g.n >= 2) not_refused();
    if (refused) { probe("reported"); return; }
    if (c.get("bad") == 1) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    if (g.n < 2) { probe("fewer_than_two_vertices"); return; }
    nontrivial();
    auto r = results();
    size_t procs = std::max<size_t>(1, (size_t)c.get("np")), want = procs * (size_t)std::max<int64_t>(1, c.get("iter", 1));
    if (r.size() != want) fail("result-count", "'%s': %zu results instead of %zu", command().c_str(), r.size(), want);
    uint64_t lam = ora::mincut(g), deg = ora::min_degree(g), last = 0;
    bool exact = alg() == "noi" || alg() == "exact" || alg() == "cactus";
    for (size_t i = 0; i < r.size(); ++i) {
        uint64_t v = last = field(r[i], "cut");
        note(v);
        if (exact ? v != lam : v < lam) fail(v < lam ? "below-minimum" : "not-minimum", "'%s': result %zu is %llu, the minimum cut is %llu (n=%u m=%zu)", command().c_str(), i, (ull)v, (ull)lam, g.n, g.e.size());
        if (alg() != "ks" && v > deg) fail("above-degree", "'%s': result %zu is %llu, above the minimum degree %llu", command().c_str(), i, (ull)v, (ull)deg);
        if (alg() == "matula" && v > 2 * lam + 1) fail("approximation", "'%s': result %zu is %llu, more than twice the minimum cut %llu plus one", command().c_str(), i, (ull)v, (ull)lam);
        if (v > lam && g.n <= 14 && !ora::some_cut_weighs(g, v)) fail("no-such-cut", "'%s': result %zu is %llu, no cut has this weight", command().c_str(), i, (ull)v);
        expect(r[i], "n", num(g.n));
        expect(r[i], "m", num(g.e.size()));
        expect(r[i], "graph", "graph.metis");
        expect(r[i], "seed", num((uint64_t)c.get("seed")));
        expect(r[i], "processes", num((uint64_t)(c.get("np") ? c.get(i % procs ? "p1" : "p0") : 1)));
        std::string a = alg();
#ifdef PARALLEL
        a += "par";
#endif
        a += c.get("pq") ? PQ[c.get("pq") & 3] : "default";
        if (c.get("nolimit")) a += "unlimited";
        expect(r[i], "algo", a);
    }
    if (saved) {
        std::string s;
        if (rep.said && io_fault) { probe("reported_on_stderr"); return; }
        if (!fs::get("/simfs/cut", &s)) fail("no-cut-file", "'%s': the cut of weight %llu was not written", command().c_str(), (ull)last);
        std::vector<uint8_t> side;
        std::istringstream in(s);
        std::string l;
        while (std::getline(in, l)) {
            if (l != "0" && l != "1") fail("cut-file", "'%s': line %zu of the written cut is '%s'%s", command().c_str(), side.size(), l.c_str(), fs::write_failed("/simfs/cut") ? " (a write failed)" : "");
            side.push_back(l == "1");
        }
        if (side.size() != g.n) fail("cut-file", "'%s': the written cut has %zu lines for %u vertices%s", command().c_str(), side.size(), g.n, fs::write_failed("/simfs/cut") ? " (a write failed)" : "");
        uint32_t in1 = 0;
        for (auto x : side) in1 += x;
        if (in1 == 0 || in1 == g.n) fail("cut-file", "'%s': the written cut of weight %llu has all vertices on one side", command().c_str(), (ull)last);
        uint64_t w = ora::cut_weight(g, side);
        if (w != last) fail("cut-file", "'%s': the written cut weighs %llu, reported is %llu", command().c_str(), (ull)w, (ull)last);
        probe("cut_written");
        if (c.get("bal")) probe("balanced_cut_written");
    }
    if (xml && !(rep.said && io_fault)) {
        std::string s;
        if (!fs::get("/simfs/cactus.graphml", &s)) fail("no-cactus-file", "'%s': the cactus was not written", command().c_str());
        if (s.find("</graphml>") == std::string::npos) fail("cactus-file", "'%s': the written cactus is incomplete (%zu bytes)", command().c_str(), s.size());
        probe("cactus_written");
    }
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        if (c.get("tiny")) { g.e.clear(); g.n = (uint32_t)c.get("tiny") - 1; }
        else if (g.n < 2) skip("too small");
        if (g.n > 1 && ora::min_degree(g) > (1u << 20)) skip("minimum degree above 2^20");
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "mincut" };
        if (c.get("pq")) add("-q", PQ[c.get("pq") & 3]);
        if (c.get("iter", 1) > 1) add("-i", num((uint64_t)c.get("iter")));
        if (c.get("nolimit")) add("-l");
        if (c.get("save")) add("-s");
        if (c.get("out")) add("-o", "cut");
        if (c.get("bal") == 1) add("-b");
        if (c.get("bal") == 2) add("-d");
        if (c.get("xml")) add("-t", "cactus.graphml");
        if (c.get("seed")) add("-r", num((uint64_t)c.get("seed")));
#ifdef PARALLEL
        for (int i = 0; i < c.get("np"); ++i) add("-p", num((uint64_t)c.get(i ? "p1" : "p0")));
#endif
        static const char* const ES[] = { "", "heavy", "heavy_weighted", "heavy_vertex", "central", "random" };
        if (c.get("es")) add("-e", ES[c.get("es") % 6]);
        add("graph.metis", alg());
    }
    faults(c);
    start(check_mincut);
}
void gen(Case& c, Rng& r, int) {
    c.p["alg"] = (int64_t)r.below(NALG);
    cur = &c;
    bool ks = alg() == "ks", cactus = alg() == "cactus";
    int64_t maxn = r.chance(0.7) ? 14 : ks || cactus ? 30 : 60;
    c.p["seed"] = r.chance(0.3) ? 0 : (int64_t)r.below(100000);
    c.p["pq"] = r.chance(0.5) ? 0 : r.range(1, 3);
    c.p["iter"] = r.chance(0.7) ? 1 : r.range(2, 3);
    c.p["nolimit"] = r.chance(0.15);
    c.p["save"] = r.chance(0.6);
    c.p["out"] = c.p["save"] && r.chance(0.8);
    if (cactus) {
        c.p["bal"] = c.p["save"] && r.chance(0.5) ? r.range(1, 2) : 0;
        c.p["xml"] = r.chance(0.3);
        c.p["es"] = (int64_t)r.below(6);
    }
    c.p["np"] = (int64_t)r.below(3);
    c.p["p0"] = r.range(1, 4);
    c.p["p1"] = r.range(1, 4);
#ifndef PARALLEL
    c.p["np"] = 0;
#endif
    c.p["fmt"] = r.chance(0.5);
    c.p["tiny"] = r.chance(0.02) ? r.range(1, 2) : 0;
    c.p["iso"] = r.chance(0.04) ? r.range(1, 2) : 0;
    c.p["bad"] = r.chance(0.01);
    c.p["rdfault"] = r.chance(0.4);
    c.p["wrfault"] = c.p["out"] && r.chance(0.5);
    c.p["errors"] = r.chance(0.2);
    if (r.chance(0.6)) c.p["limit"] = r.range(2, maxn);
    wl::bias_heuristic = c.p.count("limit") ? 0.3 : 0;
    wl::gen_case(c, r, maxn, !(c.p["nolimit"] || c.p["pq"]), r.chance(cactus ? 0.9 : 0.5));
}
void tune(const Case&, Rng& r, Config& f) {
    f.soft_steps = 20000000; f.hard_steps = 400000000;
    static const double F[] = { 0, 0.02, 0.1, 0.3 };
    f.f_io = F[r.below(4)];
}
Reg reg({ "mincut", 1, gen, tune, run, true });
#endif

#if APP == 2
// ---- multiterminal_cut --------------------------------------------------------------------
enum Mode { LISTED, PRESET, ORDER, TOP, RANDOM, DISTANT };
Inst I;
std::vector<uint32_t> pos;      // rank of a vertex within its block (ORDER)
size_t preset() { return (size_t)cur->get("preset"); }
size_t want_bfs() { return cur->get("preset") ? std::max<size_t>(1, I.g.n / std::max<size_t>(1, I.k) * preset() / 100) : (size_t)cur->get("bfs"); }
std::string part_name() { return cur->get("mode") == PRESET ? "part." + num(I.k) + ".pre" : "part." + num(I.k); }
// what the program takes as terminals, asked for again; checked against the request
void ask_mapping() {
    const Case& c = *cur;
    int mode = (int)c.get("mode");
    auto cf = configuration::getConfig();
    cf->bfs_size = (size_t)c.get("bfs");
    random_functions::setSeed((int)c.get("seed"));
    multiterminal_cut m;
    auto G = wl::Make<mutableGraphPtr>::make(I.g);
    I.map = m.setOriginalTerminals(G);
    if (I.map.size() != I.g.n) fail("terminals", "'%s': the terminals are given by %zu entries for %u vertices", command().c_str(), I.map.size(), I.g.n);
    std::vector<std::vector<uint32_t> > block(I.k);
    for (uint32_t v = 0; v < I.g.n; ++v) if (I.map[v] != UNDEFINED_NODE) {
        if (I.map[v] >= I.k) fail("terminals", "'%s': vertex %u belongs to terminal %u of %u", command().c_str(), v, I.map[v], I.k);
        block[I.map[v]].push_back(v);
    }
    size_t b = std::max<size_t>(1, want_bfs());
    for (uint32_t i = 0; i < I.k; ++i) {
        if (block[i].empty()) fail("terminals", "'%s': %u terminals are wanted, terminal %u has no vertex (n=%u)", command().c_str(), I.k, i, I.g.n);
        if (block[i].size() > b) fail("terminals", "'%s': the block around terminal %u has %zu vertices", command().c_str(), i, block[i].size());
        // connected
        std::set<uint32_t> in(block[i].begin(), block[i].end()), seen { block[i][0] };
        std::vector<uint32_t> st { block[i][0] };
        while (!st.empty()) {
            uint32_t v = st.back();
            st.pop_back();
            for (auto& e : I.g.e) for (int d = 0; d < 2; ++d) {
                uint32_t x = d ? e.u : e.v, y = d ? e.v : e.u;
                if (x == v && in.count(y) && seen.insert(y).second) st.push_back(y);
            }
        }
        if (seen.size() != in.size()) fail("terminals", "'%s': the block around terminal %u is not connected", command().c_str(), i);
    }
    if (mode == TOP && b == 1) {
        bool ok = false;
        for (int weighted = 0; weighted < 2 && !ok; ++weighted) {
            std::vector<uint64_t> d(I.g.n, 0);
            for (auto& e : I.g.e) { d[e.u] += weighted ? e.w : 1; d[e.v] += weighted ? e.w : 1; }
            uint64_t lo = ~0ull, hi = 0;
            for (uint32_t v = 0; v < I.g.n; ++v) if (I.map[v] != UNDEFINED_NODE) lo = std::min(lo, d[v]); else hi = std::max(hi, d[v]);
            ok = lo >= hi;
        }
        if (!ok) fail("terminals", "'%s': the terminals are not the %u vertices of highest degree", command().c_str(), I.k);
    }
}
void check_multiterminal() {
    const Case& c = *cur;
    int mode = (int)c.get("mode");
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::write_failed("/simfs/solution") || fs::read_failed("/simfs/" + part_name()) || fs::read_failed("/simfs/" + part_name() + ".pos");
    bool impossible = c.get("bad") || I.k > I.g.n;
    if (impossible) {
        if (!refused) fail("nonsense-accepted", "'%s': the request makes no sense (kind %d, %u vertices, %u terminals), and the program ends with status 0", command().c_str(), (int)c.get("bad"), I.g.n, I.k);
        for (auto& r : results()) if (r.count("cut")) fail("nonsense-accepted", "'%s': a result for a request that makes no sense", command().c_str());
        probe("nonsense_reported");
        return;
    }
    not_refused();
    if (refused) {
        if (!results().empty()) fail("result-after-error", "'%s': a result although the program failed", command().c_str());
        probe("reported");
        return;
    }
    nontrivial();
    auto r = results();
    if (r.size() != 1) fail("result-count", "'%s': %zu results", command().c_str(), r.size());
    uint64_t v = field(r[0], "cut");
    note(v);
    expect(r[0], "n", num(I.g.n));
    expect(r[0], "m", num(I.g.e.size()));
    expect(r[0], "terminals", num(I.k));
    expect(r[0], "processes", num((uint64_t)c.get("threads", 1)));
    if (mode >= TOP || c.get("bfs") > 1 || c.get("preset")) {
        if (mode != ORDER) ask_mapping();
        solve(I);
        probe(mode == TOP ? "heaviest_vertices" : mode == RANDOM ? "random_vertices" : mode == DISTANT ? "distant_vertices" : "grown_blocks");
    }
    if (mode == PRESET) probe("preset_file");
    if (mode == ORDER) probe("order_file");
    if (I.opt != ~0ull && v != I.opt) fail(v < I.opt ? "below-optimum" : "not-optimal", "'%s': the cut is %llu, optimum is %llu (n=%u, %u terminals)", command().c_str(), (ull)v, (ull)I.opt, I.g.n, I.k);
    if (c.get("sol") && !(rep.said && io_fault)) check_solution(I, v, "/simfs/solution");
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        int mode = (int)c.get("mode");
        I = instance(c);
        if (I.g.n < 3 || (mode < TOP && I.k < 2)) skip("too small");
        if (mode < TOP && c.get("bfs") <= 1 && !c.get("preset") && !I.ok) skip("reference");
        g = I.g;
        args = { "multiterminal_cut" };
        place_graph(c);
        int bad = (int)c.get("bad");
        if (mode >= TOP) {
            I.k = (uint32_t)std::max<int64_t>(2, c.get("k"));
            I.map.assign(I.g.n, UNDEFINED_NODE);
            add(mode == TOP ? "-k" : mode == RANDOM ? "-r" : "-D", num(I.k));
        } else if (mode == LISTED) {
            std::vector<uint32_t> t(I.k, ~0u);
            for (uint32_t v = 0; v < I.g.n; ++v) if (I.map[v] != UNDEFINED_NODE) { if (t[I.map[v]] == ~0u) t[I.map[v]] = v; else I.map[v] = UNDEFINED_NODE; }
            if (bad == 2) t.resize(1);
            for (auto v : t) add("-t", num(v));
            if (c.get("junk")) add("-t", c.get("junk") == 1 ? "x" : num(I.g.n + (uint64_t)c.get("junk")));
            solve(I);
        } else {
            // preset: block or k per vertex; order: block per vertex, and its rank in the block
            std::string a, b;
            std::vector<uint32_t> cnt(I.k, 0);
            std::vector<NodeID> map = I.map;
            size_t take = 1;
            if (mode == ORDER && c.get("preset")) take = std::max<size_t>(1, I.g.n / I.k * preset() / 100);
            Rng r((uint64_t)c.get("seed") + 77);
            for (uint32_t v = 0; v < I.g.n; ++v) {
                if (mode == ORDER) {
                    uint32_t blk = I.map[v] != UNDEFINED_NODE ? I.map[v] : (uint32_t)r.below(I.k);
                    uint32_t rank = ++cnt[blk];
                    map[v] = rank <= take ? blk : UNDEFINED_NODE;
                    a += num(blk) + "\n";
                    b += num(rank) + "\n";
                } else a += num(map[v] == UNDEFINED_NODE ? I.k : map[v]) + "\n";
            }
            I.map = map;
            solve(I);
            if (bad == 2) a = a.substr(0, a.size() - 2);
            if (bad == 3) a += num(I.k) + "\n";
            if (bad == 4) a = num(mode == PRESET ? I.k + 1 + (uint64_t)c.get("junk") : I.k) + a.substr(a.find('\n'));
            if (bad == 5) b = b.substr(0, b.size() / 2);
            fs::put("/simfs/" + part_name(), a);
            if (mode == ORDER && bad != 6) fs::put("/simfs/" + part_name() + ".pos", b);
            add("-f", bad == 7 ? "part.x" : bad == 8 ? "part" : bad == 9 ? "missing." + num(I.k) + ".pre" : part_name());
        }
        if (c.get("bfs") > 1) add("-b", num((uint64_t)c.get("bfs")));
        if (c.get("preset")) add("-n", num(preset()));
        static const char* Q[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted" };
        static const char* S[] = { "heavy_vertex", "heavy", "heavy_global", "connection", "distance", "random" };
        if (c.get("queue")) add("-q", Q[c.get("queue") % 8]);
        if (c.get("sel")) add("-e", S[c.get("sel") % 6]);
        if (c.get("threads", 1) > 1) add("-p", num((uint64_t)c.get("threads")));
        if (c.get("seed")) add("-s", num((uint64_t)c.get("seed")));
        if (c.get("sol")) add("-w");
        if (c.get("aff")) add("-d");
        add("-T", "1000000000");
        add("graph.metis");
    }
    mpi::init(1, 1 << 16);
    faults(c);
    start(check_multiterminal);
}
void gen(Case& c, Rng& r, int) {
    gen_graph(c, r, r.chance(0.7) ? 10 : 16, r.chance(0.6) ? 4 : 5);
    int64_t n = wl::graph_of(c.ops).n;
    static const int M[] = { LISTED, LISTED, LISTED, PRESET, PRESET, ORDER, TOP, TOP, RANDOM, RANDOM, DISTANT, DISTANT };
    int mode = M[r.below(12)];
    c.p["mode"] = mode;
    c.p["k"] = r.chance(0.9) ? r.range(2, std::min<int64_t>(5, std::max<int64_t>(2, n))) : r.range(2, n + 2);
    if (mode != PRESET && mode != ORDER && r.chance(0.25)) c.p["bfs"] = r.range(1, 4);
    if (mode != PRESET && r.chance(0.15)) { c.p["bfs"] = 0; c.p["preset"] = r.range(1, 99); }
    if (mode == LISTED && r.chance(0.1)) c.p["junk"] = r.range(1, 3);
    if (r.chance(0.05)) {
        if (mode == LISTED) c.p["bad"] = r.range(1, 2);
        else if (mode == PRESET) { static const int K[] = { 1, 2, 3, 4, 7, 8, 9 }; c.p["bad"] = K[r.below(7)]; }
        else if (mode == ORDER) { static const int K[] = { 1, 2, 3, 5, 6, 7, 8 }; c.p["bad"] = K[r.below(7)]; }
        else c.p["bad"] = 1;
    }
    c.p["queue"] = r.chance(0.4) ? 0 : r.range(0, 7);
    c.p["sel"] = r.chance(0.4) ? 0 : r.range(0, 5);
    c.p["threads"] = r.range(1, 3);
    c.p["seed"] = r.chance(0.1) ? 0 : (int64_t)r.below(100000);
    c.p["sol"] = r.chance(0.5);
    c.p["aff"] = r.chance(0.5);
    c.p["fmt"] = r.chance(0.5);
    c.p["rdfault"] = r.chance(0.3);
    c.p["wrfault"] = c.p["sol"] && r.chance(0.4);
    c.p["errors"] = r.chance(0.2);
}
void tune(const Case&, Rng& r, Config& f) {
    f.soft_steps = 6000000; f.hard_steps = 800000000;
    if (f.strategy == 4) f.strategy = 0;
    f.f_team = 0;
    if (r.chance(0.5)) f.f_timer = 0;
    f.pct_len = (uint64_t)r.range(1000, 400000);
    static const double F[] = { 0, 0.02, 0.1, 0.3 };
    f.f_io = F[r.below(4)];
}
Reg reg({ "multiterminal_cut", 1, gen, tune, run, true });
#endif

#if APP == 3
// ---- dynamic_mincut: ops {u, v, w} initial edges, {a, b, w, time} updates (w < 0 deletes) ---------
uint64_t first_cut, last_cut, changes, batch_changes, inserts, deletes;
bool ambiguous, loops;
void model(const Case& c, uint32_t n) {
    std::vector<std::vector<int64_t> > up;
    for (auto& o : c.ops) if (o.size() == 4) up.push_back(o);
    std::stable_sort(up.begin(), up.end(), [](const std::vector<int64_t>& a, const std::vector<int64_t>& b) { return a[3] < b[3]; });
    std::map<std::pair<uint32_t, uint32_t>, std::multiset<uint64_t> > e;
    for (auto& x : g.e) e[{ std::min(x.u, x.v), std::max(x.u, x.v) }].insert(x.w);
    auto lambda = [&] {
        ora::Graph h;
        h.n = n;
        for (auto& x : e) { uint64_t s = 0; for (auto w : x.second) s += w; if (s) h.e.push_back({ x.first.first, x.first.second, s }); }
        return ora::mincut(h);
    };
    uint64_t prev = first_cut = lambda(), bprev = prev, now = prev;
    bool open = false;
    changes = batch_changes = inserts = deletes = 0;
    ambiguous = loops = false;
    for (size_t i = 0; i < up.size(); ++i) {
        uint32_t a = (uint32_t)(up[i][0] % n), b = (uint32_t)(up[i][1] % n);
        if (open && up[i][3] != up[i - 1][3]) { if (now != bprev) ++batch_changes; bprev = now; open = false; }
        if (a == b) { loops = true; continue; }
        open = true;
        auto& s = e[{ std::min(a, b), std::max(a, b) }];
        if (up[i][2] > 0) { ++inserts; s.insert((uint64_t)up[i][2]); }
        else {
            ++deletes;
            if (!s.empty()) { if (*s.begin() != *s.rbegin()) ambiguous = true; s.erase(s.begin()); }
        }
        now = lambda();
        if (now != prev) ++changes;
        prev = now;
    }
    if (open && now != bprev) ++batch_changes;
    last_cut = now;
}
uint32_t vertices;
void check_dynamic() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/graph.metis") || fs::read_failed("/simfs/updates") || c.get("bad") == 1 || c.get("bad") == 2;
    bool stat = c.get("static");
    if (vertices < 2) { probe("fewer_than_two_vertices"); return; }
    if (c.get("bad") == 3 && refused) { probe("nonsense_reported"); return; }      // more vertices than the initial graph has
    not_refused();
    if (refused) {
        if (!results().empty()) fail("result-after-error", "'%s': a result although the program failed", command().c_str());
        probe("reported");
        return;
    }
    if (c.get("bad") == 1 || c.get("bad") == 2) fail("missing-file", "'%s': no such file, and the program ends with status 0", command().c_str());
    nontrivial();
    auto r = results();
    if (r.size() != 1) fail("result-count", "'%s': %zu results", command().c_str(), r.size());
    model(c, vertices);
    if (ambiguous) skip("deletion of one of several different edges");
    expect(r[0], "insert", num(inserts));
    expect(r[0], "delete", num(deletes));
    expect(r[0], "timedOut", "0");
    expect(r[0], "static", stat ? "1" : "0");
    expect(r[0], "n", num(vertices));
    expect(r[0], "initialm", num(g.e.size()));
    uint64_t ch = stat && !c.get("nobatch") ? batch_changes : changes;
    if (!(stat && !c.get("nobatch") && loops)) {
        uint64_t v = field(r[0], "cutchange");
        note(v);
        if (v != ch) fail("cut-changes", "'%s': %llu changes of the minimum cut are reported, there are %llu (n=%u, %llu updates)", command().c_str(), (ull)v, (ull)ch, vertices, (ull)(inserts + deletes));
        if (v) probe("cut_changed");
    }
    if (!stat) {
        size_t at = out.find("\nn ");
        size_t cc = at == std::string::npos ? at : out.find(" c ", at);
        if (cc == std::string::npos) fail("result-line", "'%s': no final cut is printed", command().c_str());
        uint64_t v = strtoull(out.c_str() + cc + 3, nullptr, 10);
        if (v != last_cut) fail(v < last_cut ? "below-minimum" : "not-minimum", "'%s': the final cut is %llu, the minimum cut is %llu (n=%u)", command().c_str(), (ull)v, (ull)last_cut, vertices);
    } else probe("static");
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        Case e = c;
        e.ops.clear();
        for (auto& o : c.ops) if (o.size() == 3) e.ops.push_back(o);
        g = wl::graph_of(e.ops);
        if (g.n < 2) skip("too small");
        uint32_t n = g.n;
        bool init = c.get("init");
        if (!init) g.e.clear();
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        args = { "dynamic_mincut" };
        if (init) { place_graph(c); add("-i", "graph.metis"); }
        uint32_t hi = 0;
        std::string t;
        for (auto& o : c.ops) if (o.size() == 4) {
            uint32_t a = (uint32_t)(o[0] % n), b = (uint32_t)(o[1] % n);
            t += num(a + 1) + " " + num(b + 1) + " " + (o[2] > 0 ? "+" + num((uint64_t)o[2]) : "-" + num((uint64_t)-o[2])) + " " + num((uint64_t)o[3]) + "\n";
            hi = std::max(hi, std::max(a, b) + 1);
        }
        if (c.get("bad") == 3 && init) t += num(n + 1) + " 1 +1 0\n";
        vertices = init ? n : hi;
        if (c.get("bad") != 2) fs::put("/simfs/updates", t);
        add("-d", "updates");
        if (c.get("static")) add("-s");
        if (c.get("nobatch")) add("-b");
        if (c.get("bal")) add("-m");
        if (c.get("verbose")) add("-v");
        if (c.get("seed")) add("-r", num((uint64_t)c.get("seed")));
#ifdef PARALLEL
        if (c.get("p0")) add("-p", num((uint64_t)c.get("p0")));
#endif
        add("-t", "1000000000");
    }
    faults(c);
    start(check_dynamic);
}
void gen(Case& c, Rng& r, int) {
    bool init = r.chance(0.7);
    c.p["init"] = init;
    if (r.chance(0.4)) {                // a cycle with a few chords
        wl::B b;
        int64_t n = r.range(3, 14);
        for (int64_t i = 0; i < n; ++i) b.add(i, (i + 1) % n, 1);
        for (int64_t i = 0; i < 2; ++i) if (r.chance(0.4)) b.add((int64_t)r.below((uint64_t)n), (int64_t)r.below((uint64_t)n), 1);
        wl::emit(b, c, r, true);
    } else wl::gen_case(c, r, r.chance(0.7) ? 9 : 16, false, r.chance(0.8));
    int64_t n = wl::graph_of(c.ops).n;
    if (n < 2) n = 2;
    std::vector<std::pair<int64_t, int64_t> > have;
    if (init) { ora::Graph h = wl::graph_of(c.ops); for (auto& e : h.e) have.push_back({ e.u, e.v }); }
    int64_t len = r.chance(0.5) ? r.range(0, 10) : r.range(5, 50), t = 0, maxw = r.chance(0.5) ? 1 : 4;
    double del = 0.2 + 0.6 * r.unit(), loop = r.chance(0.2) ? 0.1 : 0, same = r.unit();
    bool multi = r.chance(0.15);
    for (int64_t i = 0; i < len; ++i) {
        if (!r.chance(same)) t += r.range(1, 3);
        int64_t at = r.chance(0.1) ? r.range(0, t + 1) : t;         // not in order of time
        if (r.chance(loop)) { int64_t a = (int64_t)r.below((uint64_t)n); c.ops.push_back({ a, a, 1, at }); continue; }
        if (!have.empty() && r.chance(del)) {
            size_t k = r.below(have.size());
            auto x = have[k];
            if (!r.chance(0.05)) have.erase(have.begin() + (long)k);
            if (r.chance(0.5)) std::swap(x.first, x.second);
            c.ops.push_back({ x.first, x.second, -1, at });
        } else {
            int64_t a = 0, b = 0;
            for (int k = 0; k < 20; ++k) {
                a = (int64_t)r.below((uint64_t)n); b = (int64_t)r.below((uint64_t)n);
                bool known = false;
                for (auto& x : have) if ((x.first == a && x.second == b) || (x.first == b && x.second == a)) known = true;
                if (a != b && (multi || !known)) break;
                b = a;
            }
            if (a == b) continue;
            have.push_back({ a, b });
            c.ops.push_back({ a, b, r.range(1, maxw), at });
        }
    }
    c.p["static"] = r.chance(0.35);
    c.p["nobatch"] = r.chance(0.4);
    c.p["bal"] = r.chance(0.1);
    c.p["verbose"] = r.chance(0.1);
    c.p["seed"] = r.chance(0.3) ? 0 : (int64_t)r.below(100000);
    c.p["p0"] = r.range(0, 3);
    c.p["fmt"] = r.chance(0.5);
    c.p["bad"] = r.chance(0.03) ? r.range(init ? 1 : 2, init ? 3 : 2) : 0;
    c.p["rdfault"] = r.chance(0.3);
    c.p["errors"] = r.chance(0.2);
    if (r.chance(0.5)) c.p["limit"] = r.range(2, 12);
}
void tune(const Case&, Rng& r, Config& f) {
    f.soft_steps = 20000000; f.hard_steps = 200000000;
    static const double F[] = { 0, 0.02, 0.1, 0.3 };
    f.f_io = F[r.below(4)];
}
Reg reg({ "dynamic_mincut", 1, gen, tune, run, true });
#endif
}

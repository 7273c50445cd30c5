// C22: the experiment programs.  APP=1 dynmc_from_static, 2 decremental_gnp, 3 mincut_contract,
// 4 balanced_small_cut; the last two with and without -DPARALLEL.
#define PROP 22
#include "sim/rt.h"
#include "sim/oracle.h"
#include <omp.h>
#include <atomic>
#include <cmath>
#include <cstring>
#include <condition_variable>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <thread>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include "graphs.h"
inline uint32_t g_coarse_limit = 10000;
#define VIECUT_COARSE_LIMIT g_coarse_limit
#if APP == 1
#include "../app/dynmc_from_static.cpp"
#elif APP == 2
#include "../app/decremental_gnp.cpp"
#elif APP == 3
#include "../app/mincut_contract.cpp"
#else
#include "../app/balanced_small_cut.cpp"
#endif
#include "app_run.h"

namespace {
typedef std::vector<std::pair<uint64_t, uint64_t> > Changes;     // after how many updates, new cut
std::string text(const Changes& x) {
    std::string s;
    for (auto& c : x) s += " " + num(c.second) + "@" + num(c.first);
    return s.empty() ? " none" : s;
}
// numbers in the lines of the output that look like the pattern (# stands for a number)
std::vector<std::vector<uint64_t> > lines_like(const std::string& pattern) {
    std::vector<std::vector<uint64_t> > r;
    std::istringstream in(out);
    std::string l;
    while (std::getline(in, l)) {
        std::vector<uint64_t> v;
        size_t i = 0, j = 0;
        bool ok = true;
        while (ok && j < pattern.size()) {
            if (pattern[j] == '#') {
                size_t k = i;
                while (k < l.size() && (isdigit((unsigned char)l[k]) || strchr(".e-+", l[k]))) ++k;
                ok = k > i;
                v.push_back(strtoull(l.c_str() + i, nullptr, 10));
                i = k;
                ++j;
            } else ok = i < l.size() && l[i++] == pattern[j++];
        }
        if (ok && i == l.size()) r.push_back(v);
    }
    return r;
}
void tune(const Case&, Rng& r, Config& f) {
    f.soft_steps = 40000000; f.hard_steps = 400000000;
    static const double F[] = { 0, 0.02, 0.1, 0.3 };
    f.f_io = F[r.below(4)];
}
void io_params(Case& c, Rng& r) {
    c.p["fmt"] = r.chance(0.5);
    c.p["bad"] = r.chance(0.02);
    c.p["rdfault"] = r.chance(0.3);
    c.p["wrfault"] = r.chance(0.4);
    c.p["errors"] = r.chance(0.2);
    if (r.chance(0.5)) c.p["limit"] = r.range(2, 12);
}
// more updates than the graph has room for: they have to be refused, or may be
bool too_many, maybe_too_many;
// false: nothing to judge
bool ended_well() {
    const Case& c = *cur;
    io_fault = fs::read_failed("/simfs/graph.metis") || c.get("bad");
    if (too_many && !c.get("bad") && !refused) fail("too-many-updates", "'%s': the graph does not have that many edges to insert or to remove, and the program says nothing", command().c_str());
    if ((too_many || maybe_too_many) && refused) probe("too_many_updates");
    else not_refused();
    if (refused) {
        if (!results().empty()) fail("result-after-error", "'%s': a result although the program failed", command().c_str());
        probe("reported");
        return false;
    }
    if (c.get("bad")) fail("missing-file", "'%s': no such file, and the program says nothing", command().c_str());
    return true;
}

#if APP == 1
// ---- dynmc_from_static: the same updates, followed incrementally and from scratch ---------------
Changes incremental;
uint64_t ins, del, total;
void check_result(const Changes& have, bool stat) {
    auto r = results();
    if (r.size() != 1) fail("result-count", "'%s': %zu results", command().c_str(), r.size());
    expect(r[0], "cutchange", num(have.size()));
    expect(r[0], "insert", num(ins));
    expect(r[0], "delete", num(del));
    expect(r[0], "static", stat ? "1" : "0");
    expect(r[0], "timed_out", "0");
    expect(r[0], "seed", num((uint64_t)cur->get("seed")));
    auto done = lines_like("# #");
    if (done.size() != 1 || done[0][0] != ins || done[0][1] != del) fail("updates", "'%s': not all of %llu insertions and %llu deletions were done", command().c_str(), (ull)ins, (ull)del);
}
void check_static() {
    if (!ended_well()) return;
    Changes have;
    for (auto& x : lines_like("after # #")) have.push_back({ x[0], x[1] });
    for (auto& x : lines_like("at end, cut #")) have.push_back({ total, x[0] });
    check_result(have, true);
    // what is seen when looking after every b-th update only; the first cut is one of
    // the later ones or another one
    uint64_t b = std::max<uint64_t>(1, (uint64_t)cur->get("batch"));
    std::set<uint64_t> firsts { ~0ull };
    for (size_t i = 1; i < incremental.size(); ++i) if (incremental[i].second != incremental[0].second) firsts.insert(incremental[i].second);
    bool ok = false;
    for (auto u : firsts) {
        Changes want;
        uint64_t seen = u;
        auto at = [&](uint64_t t) { uint64_t x = u; for (auto& y : incremental) if (y.first <= t) x = y.second; return x; };
        auto look = [&](uint64_t t) { uint64_t x = at(t); if (x != seen) { want.push_back({ t, x }); seen = x; } };
        for (uint64_t t = b; t < total; t += b) look(t);
        look(total);
        if (want == have) ok = true;
    }
    if (!ok) fail("static-differs", "'%s' reports the cuts%s, without -s%s (%u vertices, %llu updates)", command().c_str(), text(have).c_str(), text(incremental).c_str(), g.n, (ull)total);
    probe(b > 1 ? "compared_batches" : "compared");
}
void check_incremental() {
    if (!ended_well()) return;
    incremental.clear();
    uint64_t last = 0;
    for (auto& x : lines_like("after # #")) {
        if (x[0] <= last || x[0] > total) fail("updates", "'%s': a change after %llu of %llu updates", command().c_str(), (ull)x[0], (ull)total);
        incremental.push_back({ last = x[0], x[1] });
    }
    if (!incremental.empty()) { nontrivial(); probe("cut_changed"); }
    check_result(incremental, false);
    uint64_t lam = ora::mincut(g);
    for (auto& x : incremental) {
        note(x.second);
        if (x.second > lam) fail("not-minimum", "'%s': the cut is %llu after %llu updates, that of the whole graph %llu", command().c_str(), (ull)x.second, (ull)x.first, (ull)lam);
    }
    if (del == 0 && ins && !incremental.empty() && incremental.back().second != lam) fail("not-minimum", "'%s': the last cut is %llu, the minimum cut of the whole graph %llu", command().c_str(), (ull)incremental.back().second, (ull)lam);
    if (ins == 0 && del && !incremental.empty() && incremental[0].second >= lam) fail("not-minimum", "'%s': the first cut is %llu after a deletion, the minimum cut of the whole graph %llu", command().c_str(), (ull)incremental[0].second, (ull)lam);
    args.insert(args.begin() + 1, "-s");
    if (cur->get("batch")) { args.insert(args.begin() + 1, num((uint64_t)cur->get("batch"))); args.insert(args.begin() + 1, "-b"); }
    start(check_static);
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        if (g.n < 2 || g.e.empty()) skip("too small");
        std::vector<uint32_t> d(g.n, 0);
        for (auto& e : g.e) { ++d[e.u]; ++d[e.v]; }
        uint64_t may = 0;
        for (auto& e : g.e) if (d[e.u] > 1 && d[e.v] > 1) ++may;
        auto amount = [&](const char* key, std::string* arg) {
            int64_t x = c.get(key);
            if (x >= 0) { *arg = num((uint64_t)x); return (uint64_t)x; }
            *arg = "0." + std::string(-x < 10 ? "0" : "") + num((uint64_t)-x);
            return (uint64_t)std::floor(std::stod(*arg) * (double)g.e.size());
        };
        std::string a, b;
        ins = amount("ins", &a);
        del = amount("del", &b);
        if (c.get("ins") < 0 && c.get("iso")) skip("too few edges");
        too_many = ins + del > may;
        total = ins + del;
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "dynmc_from_static" };
        add("-g", "graph.metis");
        if (c.get("ins")) add("-i", a);
        if (c.get("del")) add("-r", b);
        if (c.get("depth")) add("-d", num((uint64_t)c.get("depth")));
        if (c.get("seed")) add("-x", num((uint64_t)c.get("seed")));
        if (c.get("mb")) add("-m");
        add("-t", "1000000000");
    }
    faults(c);
    start(check_incremental);
}
void gen(Case& c, Rng& r, int) {
    if (r.chance(0.3)) {
        wl::B b;
        int64_t n = r.range(4, 14);
        for (int64_t i = 0; i < n; ++i) b.add(i, (i + 1) % n, 1);
        for (int64_t i = r.range(0, 4); i > 0; --i) b.add((int64_t)r.below((uint64_t)n), (int64_t)r.below((uint64_t)n), 1);
        wl::emit(b, c, r, true);
    } else wl::gen_case(c, r, r.chance(0.7) ? 10 : 20, false, r.chance(0.8));
    int64_t m = (int64_t)wl::graph_of(c.ops).e.size();
    auto amount = [&]() -> int64_t { return r.chance(0.15) ? 0 : r.chance(0.3) ? -r.range(1, 60) : r.range(1, std::max<int64_t>(1, m / 2)); };
    c.p["ins"] = amount();
    c.p["del"] = amount();
    c.p["iso"] = r.chance(0.03);
    c.p["batch"] = r.chance(0.6) ? 0 : r.range(1, 5);
    c.p["depth"] = r.chance(0.3) ? r.range(0, 20) : 0;
    c.p["seed"] = r.chance(0.1) ? 0 : (int64_t)r.below(100000);
    c.p["mb"] = r.chance(0.1);
    io_params(c, r);
}
Reg reg({ "dynmc_from_static", 1, gen, tune, run, true });
#endif

#if APP == 2
// ---- decremental_gnp: random edges are added and deleted again -----------------------------------
Changes incremental;
uint64_t total;
Changes changes() {
    Changes r;
    for (auto& x : lines_like("cut changed to # after # and #")) r.push_back({ x[2], x[0] });
    return r;
}
void check_static() {
    if (!ended_well()) return;
    Changes have = changes();
    if (have != incremental) fail("static-differs", "'%s' reports the cuts%s, without -s%s (%u vertices, %llu deletions)", command().c_str(), text(have).c_str(), text(incremental).c_str(), g.n, (ull)total);
    probe("compared");
}
void check_incremental() {
    if (!ended_well()) return;
    incremental = changes();
    uint64_t last = 0, prev = ~0ull, lam = ora::mincut(g);
    for (auto& x : incremental) {
        note(x.second);
        if (x.first <= last || x.first > total) fail("updates", "'%s': a change after %llu of %llu deletions", command().c_str(), (ull)x.first, (ull)total);
        if (x.second >= prev) fail("not-minimum", "'%s': the cut rises from %llu to %llu although edges are only deleted", command().c_str(), (ull)prev, (ull)x.second);
        last = x.first;
        prev = x.second;
    }
    if (!incremental.empty()) {
        nontrivial();
        probe("cut_changed");
        if (prev != lam) fail("not-minimum", "'%s': the last cut is %llu, the minimum cut of the initial graph %llu", command().c_str(), (ull)prev, (ull)lam);
    }
    args.insert(args.begin() + 1, "-s");
    start(check_static);
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        uint64_t per = (uint64_t)c.get("per");
        std::vector<uint32_t> d(g.n, 0);
        for (auto& e : g.e) { ++d[e.u]; ++d[e.v]; }
        too_many = g.n < 2;
        maybe_too_many = false;
        for (uint32_t v = 0; v < g.n; ++v) {
            too_many |= d[v] + 1 + per > g.n;
            maybe_too_many |= d[v] + 1 + per + v > g.n;
        }
        total = g.n * per;
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "decremental_gnp" };
        add("-i", "graph.metis");
        if (per) add("-e", num(per));
        if (c.get("seed")) add("-r", num((uint64_t)c.get("seed")));
        if (c.get("verbose")) add("-v");
    }
    faults(c);
    start(check_incremental);
}
void gen(Case& c, Rng& r, int) {
    int64_t per = r.chance(0.03) ? 0 : r.range(1, 2), n = r.chance(0.15) ? r.range(2, 8) : r.range(8 + 8 * per, 12 + 10 * per), kind = (int64_t)r.below(5);
    wl::B b;
    auto w = [&] { return r.chance(0.3) ? r.range(1, 3) : 1; };
    if (kind == 0) for (int64_t i = 0; i < n; ++i) b.add(i, (i + 1) % n, w());
    else if (kind == 1) for (int64_t i = 1; i < n; ++i) b.add(i, (i - 1) / 2, w());
    else if (kind == 2) for (int64_t i = 0; i < n; ++i) { b.add(i, (i + 1) % n, w()); b.add(i, (i + 2) % n, w()); }
    else if (kind == 3) { int64_t k = r.chance(0.2) ? n : std::max<int64_t>(2, n - 2 * per - 2); for (int64_t i = 1; i < n; ++i) b.add(i < k ? 0 : i - 1, i, w()); }
    else for (int64_t i = 1; i < n; ++i) if (i % (n / 2) || r.chance(0.5)) b.add(i, i - 1, w());
    wl::emit(b, c, r, r.chance(0.7));
    c.p["per"] = per;
    c.p["seed"] = r.chance(0.1) ? 0 : (int64_t)r.below(100000);
    c.p["verbose"] = r.chance(0.1);
    io_params(c, r);
}
Reg reg({ "decremental_gnp", 1, gen, tune, run, false });
#endif

#if APP == 3
// ---- mincut_contract -------------------------------------------------------------------------------
#ifdef PARALLEL
const char* const ALG[] = { "inexact", "exact", "cactus" };
const int NALG = 3;
#else
const char* const ALG[] = { "vc", "noi", "pr", "matula", "ks", "cactus" };
const int NALG = 6;
#endif
const char* const PQ[] = { "", "bqueue", "heap", "bstack" };
std::string alg() { return ALG[cur->get("alg") % NALG]; }
void check_contract() {
    const Case& c = *cur;
    if (ora::min_degree(g) == 0 && !c.get("bad")) {
        if (!refused) fail("isolated-vertex", "'%s': a graph with an isolated vertex, and the program says nothing", command().c_str());
        probe("isolated_vertex");
        return;
    }
    std::string file = "graph.metis.cut";
    bool rd = fs::read_failed("/simfs/graph.metis"), wr = fs::write_failed("/simfs/" + file);
    if (!ended_well()) return;
    io_fault = rd || wr;
    nontrivial();
    auto r = results();
    size_t procs = std::max<size_t>(1, (size_t)c.get("np")), want = procs * (size_t)std::max<int64_t>(1, c.get("iter", 1));
    // every edge may be sampled and all vertices contracted: then there is no cut
    size_t none = 0;
    for (auto& x : lines_like("t # for contraction from # to #")) none += x[2] < 2;
    if (none) probe("everything_contracted");
    if (r.size() + none != want) fail("result-count", "'%s': %zu results instead of %zu", command().c_str(), r.size(), want - none);
    uint64_t lam = ora::mincut(g), last = 0;
    for (size_t i = 0; i < r.size(); ++i) {
        uint64_t v = last = field(r[i], "cut");
        note(v);
        if (v < lam) fail("below-minimum", "'%s': result %zu is %llu, the minimum cut is %llu (n=%u m=%zu)", command().c_str(), i, (ull)v, (ull)lam, g.n, g.e.size());
        if (v > lam && g.n <= 14 && !ora::some_cut_weighs(g, v)) fail("no-such-cut", "'%s': result %zu is %llu, no cut has this weight", command().c_str(), i, (ull)v);
        if (v > lam) probe("above_minimum");
        expect(r[i], "n", num(g.n));
        expect(r[i], "graph", "graph.metis");
        if (!none) expect(r[i], "processes", num((uint64_t)(c.get("np") ? c.get(i % procs ? "p1" : "p0") : 1)));
    }
    if (c.get("save") && !r.empty()) {
        std::string s;
        if (rep.said && io_fault) { probe("reported_on_stderr"); return; }
        if (!fs::get("/simfs/" + file, &s)) fail("no-cut-file", "'%s': the cut of weight %llu was not written", command().c_str(), (ull)last);
        std::vector<uint8_t> side;
        std::istringstream in(s);
        std::string l;
        while (std::getline(in, l)) {
            if (l != "0" && l != "1") fail("cut-file", "'%s': line %zu of the written cut is '%s'%s", command().c_str(), side.size(), l.c_str(), wr ? " (a write failed)" : "");
            side.push_back(l == "1");
        }
        if (side.size() != g.n) fail("cut-file", "'%s': the written cut has %zu lines for %u vertices%s", command().c_str(), side.size(), g.n, wr ? " (a write failed)" : "");
        uint64_t w = ora::cut_weight(g, side);
        uint32_t in1 = 0;
        for (auto x : side) in1 += x;
        if (in1 == 0 || in1 == g.n) fail("cut-file", "'%s': the written cut of weight %llu has all vertices on one side", command().c_str(), (ull)last);
        if (w != last) fail("cut-file", "'%s': the written cut weighs %llu, reported is %llu", command().c_str(), (ull)w, (ull)last);
        probe("cut_written");
    }
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        g.n += (uint32_t)c.get("iso");
        if (g.n < 3) skip("too small");
        if (ora::min_degree(g) > (1u << 20)) skip("minimum degree above 2^20");
        for (int i = 0; i < c.get("np"); ++i) if (g.e.size() * 2 < (size_t)c.get(i ? "p1" : "p0")) skip("fewer edges than threads");
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "mincut_contract" };
        if (c.get("pq")) add("-q", PQ[c.get("pq") & 3]);
        if (c.get("iter", 1) > 1) add("-i", num((uint64_t)c.get("iter")));
        if (c.get("factor")) add("-c", c.get("factor") >= 100 ? "1.0" : "0." + num((uint64_t)c.get("factor")));
        if (c.get("save")) add("-s");
        static const char* const K[] = { "", "geometric", "random", "separate", "weighted" };
        if (c.get("type")) add("-k", K[c.get("type") % 5]);
#ifdef PARALLEL
        for (int i = 0; i < c.get("np"); ++i) add("-p", num((uint64_t)c.get(i ? "p1" : "p0")));
#endif
        add("graph.metis", alg());
    }
    faults(c);
    start(check_contract);
}
void gen(Case& c, Rng& r, int) {
    c.p["alg"] = (int64_t)r.below(NALG);
    cur = &c;
    c.p["pq"] = r.chance(0.5) ? 0 : r.range(1, 3);
    c.p["iter"] = r.chance(0.6) ? 1 : r.range(2, 3);
    c.p["save"] = r.chance(0.6);
    c.p["factor"] = r.chance(0.2) ? 0 : r.chance(0.1) ? 100 : r.range(10, 99);
    c.p["type"] = (int64_t)r.below(5);
    c.p["np"] = (int64_t)r.below(3);
    c.p["p0"] = r.range(1, 4);
    c.p["p1"] = r.range(1, 4);
#ifndef PARALLEL
    c.p["np"] = 0;
#endif
    c.p["iso"] = r.chance(0.02);
    wl::gen_case(c, r, r.chance(0.7) ? 14 : 60, false, r.chance(0.7));
    io_params(c, r);
    c.p["wrfault"] = c.p["save"] && r.chance(0.5);
}
Reg reg({ "mincut_contract", 1, gen, tune, run, true });
#endif

#if APP == 4
// ---- balanced_small_cut: contracts all but the largest block, again and again ---------------------
std::string file(size_t i) { return "graph.metis_" + num(i); }
void check_balanced() {
    const Case& c = *cur;
    if (!ended_well()) return;
    nontrivial();
    auto cuts = lines_like("Minimum cut #"), sizes = lines_like("Next graph: G=(#,#)");
    if (cuts.size() != sizes.size() || cuts.empty()) fail("result-count", "'%s': %zu cuts and %zu graphs", command().c_str(), cuts.size(), sizes.size());
    uint64_t lam = ora::mincut(g), n = g.n;
    if (cuts[0][0] != lam) fail(cuts[0][0] < lam ? "below-minimum" : "not-minimum", "'%s': the first cut is %llu, the minimum cut %llu", command().c_str(), (ull)cuts[0][0], (ull)lam);
    for (size_t i = 0; i < cuts.size(); ++i) {
        note(cuts[i][0]);
        if (i && cuts[i][0] < cuts[i - 1][0]) fail("not-minimum", "'%s': cut %zu is %llu after %llu although edges were only contracted", command().c_str(), i, (ull)cuts[i][0], (ull)cuts[i - 1][0]);
        if (sizes[i][0] >= n || sizes[i][0] < 1) fail("no-progress", "'%s': a graph of %llu vertices became one of %llu", command().c_str(), (ull)n, (ull)sizes[i][0]);
        n = sizes[i][0];
        if (!c.get("output")) continue;
        std::string s;
        bool failed = fs::write_failed("/simfs/" + file(i));
        if (failed && rep.said) { probe("reported_on_stderr"); continue; }
        if (!fs::get("/simfs/" + file(i), &s)) fail("no-file", "'%s': %s was not written", command().c_str(), file(i).c_str());
        std::istringstream in(s);
        std::string l;
        ora::Graph h;
        uint64_t m = 0;
        if (!std::getline(in, l) || !(std::istringstream(l) >> h.n >> m)) fail("file", "'%s': %s has no header%s", command().c_str(), file(i).c_str(), failed ? " (a write failed)" : "");
        std::map<std::pair<uint32_t, uint32_t>, uint64_t> a;
        for (uint32_t v = 0; v < h.n; ++v) {
            if (!std::getline(in, l)) fail("file", "'%s': %s ends after %u of %u vertices%s", command().c_str(), file(i).c_str(), v, h.n, failed ? " (a write failed)" : "");
            std::istringstream w(l);
            uint64_t t, x;
            while (w >> t >> x) {
                if (t == 0 || t > h.n || t == v + 1ull || !a.insert({ { v, (uint32_t)t - 1 }, x }).second) fail("file", "'%s': %s has an edge from %u to %llu of %u", command().c_str(), file(i).c_str(), v + 1, (ull)t, h.n);
            }
        }
        for (auto& x : a) {
            auto o = a.find({ x.first.second, x.first.first });
            if (o == a.end() || o->second != x.second) fail("file", "'%s': %s has the edge from %u to %u in one direction only", command().c_str(), file(i).c_str(), x.first.first + 1, x.first.second + 1);
            if (x.first.first < x.first.second) h.e.push_back({ x.first.first, x.first.second, x.second });
        }
        if (h.n != sizes[i][0] || h.e.size() != m) fail("file", "'%s': %s has %u vertices and %zu edges, %llu vertices and %llu edges are announced", command().c_str(), file(i).c_str(), h.n, h.e.size(), (ull)sizes[i][0], (ull)m);
        if (h.n > 1) {
            uint64_t x = ora::mincut(h);
            if (i + 1 < cuts.size() && x != cuts[i + 1][0]) fail(cuts[i + 1][0] < x ? "below-minimum" : "not-minimum", "'%s': the minimum cut of %s is %llu, %llu is reported", command().c_str(), file(i).c_str(), (ull)x, (ull)cuts[i + 1][0]);
            probe("graph_written");
        }
    }
    if (n > 1) fail("no-progress", "'%s': the program ends with a graph of %llu vertices", command().c_str(), (ull)n);
    if (cuts.size() > 1) probe("several_rounds");
}
void run(const Case& c) {
    cur = &c;
    {
        Quiet q;
        g = wl::graph_of(c.ops);
        if (g.n < 2) skip("too small");
        if (ora::components(g) > 1) skip("disconnected");
        if (ora::min_degree(g) > (1u << 20)) skip("minimum degree above 2^20");
        g_coarse_limit = (uint32_t)c.get("limit", 10000);
        place_graph(c);
        args = { "balanced_small_cut" };
        if (c.get("output")) add("-o");
        if (c.get("cond")) add("-c");
        if (c.get("threads")) add("-p", num((uint64_t)c.get("threads")));
        add("graph.metis");
    }
    faults(c);
    start(check_balanced);
}
void gen(Case& c, Rng& r, int) {
    c.p["output"] = r.chance(0.6);
    c.p["cond"] = r.chance(0.3);
    c.p["threads"] = r.range(0, 3);
    wl::gen_case(c, r, r.chance(0.7) ? 14 : 30, false, true);
    io_params(c, r);
}
Reg reg({ "balanced_small_cut", 1, gen, tune, run, true });
#endif
}

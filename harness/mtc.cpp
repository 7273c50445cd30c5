// C09 (optimal), C10 (work queue), C11 (several ranks), C12 (time limit): multiterminal cut.
// PROP=9|10|11|12|23 (23: with the inexact heuristics)
#include "sim/rt.h"
#ifndef PROP
#define PROP 9
#endif
#include "sim/mpi_sim.h"
#include <cmath>
#include <optional>
#include <variant>
#include <functional>
#include <condition_variable>
#include <future>
#include <set>
#include <sstream>
#include <thread>
#if PROP >= 10 && PROP <= 12
#include "queue_probe.h"
#ifndef QW
#define QW 2
#endif
#endif
#if PROP == 11 || PROP == 12
#include "mpi_probe.h"
#endif
#include "algorithms/multicut/multiterminal_cut.h"
#include "common/configuration.h"
#include "build_graph.h"
#include "mtc_inst.h"

using namespace sim;

namespace {
void gen_opts(Case& c, Rng& r) {
    c.p["threads"] = r.range(1, 4);
    c.p["queue"] = r.range(0, 8);
    c.p["multi"] = r.chance(0.8);
    c.p["sel"] = r.range(0, 5);
    c.p["sol"] = r.chance(0.6);
    c.p["seed"] = (int64_t)r.below(1000000);
    c.p["aff"] = r.chance(0.5);
#if PROP == 23
    c.p["branches"] = r.chance(0.3) ? 5 : r.range(1, 5);
    c.p["remove"] = r.chance(0.3) ? 10 : r.range(0, 100);
    c.p["depth"] = r.chance(0.4) ? 1 : r.range(0, 3);
    c.p["sol"] = 1;
#endif
}
void set_opts(const Case& c) {
    auto cfg = configuration::getConfig();
    static const char* Q[] = { "bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted", "other" };
    static const char* S[] = { "heavy_vertex", "heavy", "heavy_global", "connection", "distance", "random" };
    cfg->threads = (size_t)std::max<int64_t>(1, c.get("threads", 1));
    cfg->queue_type = Q[c.get("queue") % 9];
    cfg->multibranch = c.get("multi", 1);
    cfg->edge_selection = S[c.get("sel") % 6];
    cfg->write_solution = c.get("sol");
    cfg->disable_cpu_affinity = c.get("aff");
    cfg->inexact = PROP == 23;
#if PROP == 23
    cfg->maximumBranchingFactor = (size_t)c.get("branches", 5);
    cfg->removeTerminalsBeforeBranch = (double)c.get("remove", 10) / 100;
    cfg->contractionDepthAroundTerminal = (size_t)c.get("depth", 1);
#endif
    cfg->timeoutSeconds = 1000000000;
    cfg->seed = (size_t)c.get("seed");
    random_functions::setSeed((int)cfg->seed);
}
void tune(const Case&, Rng& r, Config& g) {
    g.soft_steps = 6000000; g.hard_steps = PROP == 12 ? 300000000 : 800000000;
    if (g.strategy == 4) g.strategy = 0;
    g.f_team = 0;
    if (r.chance(0.5)) g.f_timer = 0;
    g.pct_len = (uint64_t)r.range(1000, 400000);
}

#if PROP == 12
void gen_limit(Case& c, Rng& r) {
    c.p["limit"] = r.chance(0.2) ? 0 : r.range(1, 5);
    c.p["when"] = r.chance(0.1) ? 1 << 30 : r.range(0, (int64_t)1 << r.range(13, 20));
    // 0: all clocks pass the limit; 1: the wall clock does; 2: it does and is set back again; 3: it is set back
    c.p["kind"] = r.chance(0.3) ? 0 : r.range(1, 3);
    c.p["gap"] = r.range(1, (int64_t)1 << r.range(10, 18));
    c.p["who"] = r.chance(0.5) ? -1 : r.range(0, 3);
}
const int64_t SEC = 1000000000;
struct Tick { uint64_t when; int64_t kind, gap; int who, ranks; uint64_t at; bool stop, fired; };
void expire(Tick& t, bool on) {
    for (int i = 0; i < t.ranks; ++i) if (t.who < 0 || t.who == i) limit_expired(i) = on ? steps() : 0;
}
// the clock jumps of one run
void ticker(void* p) {
    Tick& t = *(Tick*)p;
    while (!t.stop) {
        yield_point();
        if (!t.fired && steps() >= t.when) {
            t.fired = true;
            t.at = steps();
            if (t.kind == 0) { t.who = -1; clock_jump(100 * SEC); }
            else wall_jump(t.kind == 3 ? -1000 * SEC : 100 * SEC, t.who);
            if (t.kind < 3) expire(t, true);
            if (t.kind != 2) return;
        }
        if (t.fired && steps() >= t.at + (uint64_t)t.gap) { expire(t, false); wall_jump(-200 * SEC, t.who); return; }
        std::this_thread::sleep_for(std::chrono::nanoseconds(1 + cfg.ns_per_step * 200));
    }
}
Tick start_ticker(const Case& c, int ranks, const Inst& I) {
    configuration::getConfig()->timeoutSeconds = (size_t)c.get("limit", 1);
    per_thread_problem_queue::cut_off() = true;
    int w = (int)c.get("who", -1);
    uint64_t when = (uint64_t)c.get("when");
    int64_t kind = c.get("kind");
    // a clock that is set back switches the limit off: hard instances may take any time then
    if (!I.known) { kind &= 1; when = std::min<uint64_t>(when, 1 << 20); }
    return Tick { when, kind, c.get("gap", 1), w >= ranks ? -1 : w, ranks, 0, false, false };
}
bool limit_unused(const Case& c, const Tick& t) {      // nobody can have seen the time run out
    return (!t.fired || t.kind == 3) && c.get("limit") > 0 && now_ns() < 1700000000ull * 1000000000ull + 900000000ull;
}
void after(const Tick& t, uint64_t v, const Inst& I) {
    if (!t.fired) return;
    static const char* K[] = { "all_clocks_jumped", "wall_clock_jumped", "wall_clock_jumped_and_back", "wall_clock_set_back" };
    probe(K[t.kind & 3]);
    if (I.known && v != I.opt) probe("value_after_expiry_not_optimal");
    char b[40]; uint64_t d = steps() - t.at; int l = 0; while (d >>= 1) ++l; snprintf(b, sizeof b, "steps_after_expiry_2^%d", l); probe(b);
}
#endif
#if PROP == 9 || PROP == 10 || PROP == 12 || PROP == 23
void gen(Case& c, Rng& r, int tier) {
    int64_t m = r.chance(0.5) ? 10 : tier || PROP == 12 ? 24 : 18;
    int64_t k = r.chance(0.5) ? 4 : 6;
#if PROP == 23
    const bool large = r.chance(0.3);
    if (large) { m = 50; k = 10; }
#endif
    gen_graph(c, r, m, k);
    gen_opts(c, r);
#if PROP == 23
    if (large) { c.p["remove"] = r.range(20, 100); c.p["branches"] = r.range(1, 3); }   // else close to an exact search
#endif
#if PROP == 10
    c.p["threads"] = r.range(2, 4);
#endif
#if PROP == 12
    gen_limit(c, r);
#endif
}
void run(const Case& c) {
    Inst I = instance(c);
    if (!I.ok) skip("reference");
    set_opts(c);
    mpi::init(1, 1 << 16);
    auto G = wl::Make<mutableGraphPtr>::make(I.g);
    if (I.g.n > 2 && I.g.e.size() > 1) nontrivial();
    multiterminal_cut mct;
#if PROP == 12
    Tick t = start_ticker(c, 1, I);
    int f = sim::spawn(ticker, &t);
#endif
    uint64_t v = mct.multicut(G, I.map, I.k);
    note(v);
#if PROP == 12
    t.stop = true;
    after(t, v, I);
    sim::join(f);
    if (v < I.opt) fail("below-optimum", "returned %llu, every multiterminal cut weighs at least %llu", (unsigned long long)v, (unsigned long long)I.opt);
    if (I.known && limit_unused(c, t) && v != I.opt) fail("not-optimal", "returned %llu before the limit, optimum is %llu", (unsigned long long)v, (unsigned long long)I.opt);
#elif PROP == 23
    if (v < I.opt) fail("below-optimum", "returned %llu, every multiterminal cut weighs at least %llu", (unsigned long long)v, (unsigned long long)I.opt);
    if (I.known && v > I.opt) probe("above_optimum");
#else
    if (v != I.opt) fail(v < I.opt ? "below-optimum" : "not-optimal", "returned %llu, optimum is %llu", (unsigned long long)v, (unsigned long long)I.opt);
#endif
    if (c.get("sol")) check_solution(I, v, "/simfs/solution");
}
Reg reg({ "multiterminal", PROP == 12 ? 2 : 1, gen, tune, run, true });
#endif
#if PROP == 10
// ---- the queue on its own: ops {thread, kind, a, b}
void gen_q(Case& c, Rng& r, int tier) {
    int t = (int)r.range(1, tier ? 6 : 4), n = (int)r.range(4, tier ? 80 : 40);
    c.p["t"] = t;
    c.p["queue"] = r.range(0, 8);
    int64_t bound = 1000;
    double pa = 0.35 + 0.3 * r.unit(), pp = r.chance(0.5) ? 0 : 0.2 * r.unit();
    for (int i = 0; i < n; ++i) {
        int64_t th = r.below((uint64_t)t);
        if (r.chance(pa)) c.ops.push_back({ th, 0, r.range(0, 1000), r.chance(0.5) });
        else if (r.chance(pp)) { bound -= r.range(0, 100); c.ops.push_back({ th, 2, bound, 0 }); }
        else c.ops.push_back({ th, 1, r.chance(0.3), 0 });
    }
}
void tune_q(const Case&, Rng& r, Config& g) {
    g.soft_steps = 100000; g.hard_steps = 1000000;
    if (g.strategy == 4) g.strategy = 0;
    if (r.chance(0.7)) { g.p_mem = 0.05 + 0.3 * r.unit(); if (r.chance(0.5)) g.strategy = r.chance(0.5) ? 0 : 3; }
    g.pct_len = 50 + r.below(3000);
}
void run_q(const Case& c) {
    int t = (int)c.get("t");
    set_opts(c);
    std::vector<std::vector<std::vector<int64_t> > > prog((size_t)t);
    for (auto& o : c.ops) if (o[0] < t) prog[(size_t)o[0]].push_back(o);
    auto g = std::make_shared<mutable_graph>();
    g->start_construction(2); g->new_edge_order(0, 1, 1); g->finish_construction();
    {
        per_thread_problem_queue q((size_t)t, configuration::getConfig()->queue_type);
        std::vector<std::thread> th;
        for (int i = 0; i < t; ++i)
            th.emplace_back([&, i]() {
                for (auto& o : prog[(size_t)i]) {
                    if (o[1] == 0) {
                        auto p = std::make_shared<multicut_problem>(g);
                        p->lower_bound = o[2]; p->upper_bound = o[2] + 7 * (o[2] % 5); p->deleted_weight = (EdgeWeight)o[2];
                        q.addProblem(p, (size_t)i, o[3]);
                    } else if (o[1] == 1) {
                        q.prepareQueue((size_t)i, q.bound);
                        if (!q.empty((size_t)i) || q.haveASendProblem()) {
                            auto p = q.pullProblem((size_t)i, o[2]);
                            if (p.has_value() && !p.value()) fail("null-problem", "thread %d was handed an empty subproblem", i);
                        }
                    } else q.prepareQueue((size_t)i, o[2]);
                }
            });
        for (auto& x : th) x.join();
        if (t > 1) nontrivial();
        // what is left can still be pulled, and nothing else
        size_t left = q.size();
        size_t got = 0;
        for (int i = 0; i < t; ++i) {
            while (!q.empty((size_t)i)) {
                auto p = q.pullProblem((size_t)i, false);
                if (!p.has_value()) fail("size", "queue %d claims to hold work and hands none out", i);
                if (++got > left) fail("size", "more subproblems than the %zu the queue reported", left);
            }
        }
        if (q.haveASendProblem()) { auto p = q.pullProblem(0, true); if (!p.has_value()) fail("size", "the hand-over slot claims to hold work and hands none out"); ++got; }
        if (got != left || !q.all_empty()) fail("size", "the queue reported %zu subproblems, %zu could be pulled", left, got);
    }
}
Reg regq({ "queue", QW, gen_q, tune_q, run_q, true });
#endif
#if PROP == 11 || PROP == 12 || PROP == 23
void gen_m(Case& c, Rng& r, int tier) {
    int64_t m = r.chance(0.4) ? 10 : tier ? 24 : 18;
    gen_graph(c, r, m, r.chance(0.4) ? 4 : 6);
    gen_opts(c, r);
    c.p["ranks"] = r.range(2, tier ? 5 : 4);
    c.p["threads"] = r.chance(0.6) ? 1 : r.range(2, 3);
    static const int E[] = { 0, 64, 65536, 65536 };
    c.p["eager"] = E[r.below(4)];
#if PROP == 12
    gen_limit(c, r);
#endif
}
void tune_m(const Case& c, Rng& r, Config& g) {
    tune(c, r, g);
    g.f_msg = r.chance(0.2) ? 0 : pow(10.0, -1.7 * r.unit());
    g.p_sync = r.chance(0.5) ? 0.5 + 0.5 * r.unit() : pow(10.0, -2 * r.unit());
}
struct Rank { const Inst* I; const Case* c; uint64_t value; bool done; };
void rank_main(void* p) {
    Rank& R = *(Rank*)p;
    auto G = wl::Make<mutableGraphPtr>::make(R.I->g);
    multiterminal_cut mct;
    R.value = mct.multicut(G, R.I->map, R.I->k);
    if (R.done) fail("finished-twice", "a process finished twice");
    R.done = true;
}
void run_m(const Case& c) {
    Inst I = instance(c);
    if (!I.ok) skip("reference");
    set_opts(c);
    int n = (int)std::max<int64_t>(1, c.get("ranks", 2));
    mpi::init(n, (size_t)c.get("eager", 65536));
#if PROP != 23
    { Quiet q; mpiprobe::log() = new mpiprobe::Log; }
#endif
    std::vector<Rank> R((size_t)n, Rank { &I, &c, 0, false });
    std::vector<int> f;
    for (int i = 1; i < n; ++i) f.push_back(spawn(rank_main, &R[(size_t)i], i));
    if (I.g.n > 2 && I.g.e.size() > 1) nontrivial();
#if PROP == 12
    Tick t = start_ticker(c, n, I);
    int tf = sim::spawn(ticker, &t);
#endif
    rank_main(&R[0]);
    for (int i : f) join(i);
    uint64_t best = I.opt;
#if PROP == 12
    t.stop = true;
    after(t, R[0].value, I);
    join(tf);
    if (!I.known || !limit_unused(c, t)) best = R[0].value;       // all agree
    if (best < I.opt) fail("below-optimum", "returned %llu, every multiterminal cut weighs at least %llu", (unsigned long long)best, (unsigned long long)I.opt);
#endif
#if PROP == 23
    best = R[0].value;
    if (best < I.opt) fail("below-optimum", "returned %llu, every multiterminal cut weighs at least %llu", (unsigned long long)best, (unsigned long long)I.opt);
    if (I.known && best > I.opt) probe("above_optimum");
#endif
    for (int i = 0; i < n; ++i) {
        uint64_t v = R[(size_t)i].value;
        note(v);
        if (v != best) fail(v < best ? "below-optimum" : "not-optimal", "process %d of %d returned %llu, expected %llu", i, n, (unsigned long long)v, (unsigned long long)best);
        if (c.get("sol")) { char b[40] = "/simfs/solution"; if (i) snprintf(b, sizeof b, "/simfs/r%d/solution", i); check_solution(I, v, b); }
    }
#if PROP != 23
    Quiet q;
    for (auto& x : mpiprobe::log()->sent) if (!x.second.empty()) fail("lost-subproblem", "%zu subproblem(s) sent from process %d to process %d never arrived", x.second.size(), x.first.first, x.first.second);
    if (mpi::pending(3000) + mpi::pending(4000) + mpi::pending(15123)) probe("messages_left_at_end");
#endif
}
Reg reg_m({ "distributed", 1, gen_m, tune_m, run_m, true });
#endif
#if PROP == 23
// ---- local search on its own, from an arbitrary assignment
template <class L, class = void> struct Improve {
    static bool run(const mutable_graph&, const std::vector<NodeID>&, const std::vector<bool>&, std::vector<NodeID>*, int64_t*) { return false; }
};
template <class L> struct Improve<L, std::void_t<decltype(L(std::declval<const mutable_graph&>(), std::declval<const std::vector<NodeID>&>(), std::declval<const std::vector<bool>&>(), std::declval<std::vector<NodeID>*>()).improveSolution(std::declval<const timer&>()))> > {
    static bool run(const mutable_graph& g, const std::vector<NodeID>& t, const std::vector<bool>& f, std::vector<NodeID>* s, int64_t* gain) {
        timer time;
        L ls(g, t, f, s);
        *gain = (int64_t)ls.improveSolution(time);
        return true;
    }
};
void gen_l(Case& c, Rng& r, int) {
    gen_graph(c, r, r.chance(0.5) ? 14 : 50, r.chance(0.5) ? 4 : 8);
    gen_opts(c, r);
    c.p["start"] = (int64_t)r.below(1000000);
    c.p["noise"] = r.chance(0.3) ? 100 : r.range(0, 100);
    c.p["fix"] = r.chance(0.6) ? 0 : r.range(0, 60);
    c.p["slow"] = r.chance(0.1);
}
void run_l(const Case& c) {
    Inst I = instance(c);
    if (!I.ok) skip("reference");
    set_opts(c);
    auto cf = configuration::getConfig();
    cf->inexact = c.get("seed") & 1;
    cf->num_terminals = I.k;
    if (c.get("slow")) cf->timeoutSeconds = 0;
    mpi::init(1, 1 << 16);
    auto G = wl::Make<mutableGraphPtr>::make(I.g);
    std::vector<NodeID> term(I.k, UNDEFINED_NODE), sol(I.g.n);
    std::vector<bool> fixed(I.g.n, false);
    uint64_t before = 0;
    {
        Quiet q;
        Rng r((uint64_t)c.get("start"));
        for (NodeID v = 0; v < I.g.n; ++v) if (I.map[v] != UNDEFINED_NODE && term[I.map[v]] == UNDEFINED_NODE) { term[I.map[v]] = v; fixed[v] = true; }
        for (NodeID v = 0; v < I.g.n; ++v) sol[v] = v % I.k;
        // every vertex in the block of a neighbour, some anywhere
        std::vector<std::vector<uint32_t> > a(I.g.n);
        for (auto& e : I.g.e) { a[e.u].push_back(e.v); a[e.v].push_back(e.u); }
        for (int t = 0; t < 3; ++t) for (NodeID v = 0; v < I.g.n; ++v) if (!a[v].empty()) sol[v] = sol[a[v][r.below(a[v].size())]];
        for (NodeID v = 0; v < I.g.n; ++v) {
            if (r.below(100) < (uint64_t)c.get("noise")) sol[v] = (NodeID)r.below(I.k);
            if (r.below(100) < (uint64_t)c.get("fix")) fixed[v] = true;
        }
        for (NodeID k = 0; k < I.k; ++k) sol[term[k]] = k;
        before = ora::partition_cut(I.g, std::vector<uint32_t>(sol.begin(), sol.end()));
    }
    std::vector<NodeID> was = sol;
    int64_t gain = 0;
    if (!Improve<local_search>::run(*G, term, fixed, &sol, &gain)) skip("interface");
    nontrivial();
    Quiet q;
    for (NodeID v = 0; v < I.g.n; ++v) {
        if (sol[v] >= I.k) fail("solution-range", "vertex %u is assigned to block %u of %u", v, sol[v], I.k);
        if (fixed[v] && sol[v] != was[v]) fail("solution-terminal", "vertex %u is fixed in block %u and was moved to block %u", v, was[v], sol[v]);
    }
    uint64_t after = ora::partition_cut(I.g, std::vector<uint32_t>(sol.begin(), sol.end()));
    note(after);
    if ((int64_t)before - (int64_t)after != gain) fail("improvement", "the edges between the blocks weighed %llu and weigh %llu, the reported improvement is %lld", (unsigned long long)before, (unsigned long long)after, (long long)gain);
    if (after > before) fail("worse", "the edges between the blocks weighed %llu and weigh %llu after local search", (unsigned long long)before, (unsigned long long)after);
    if (gain > 0) probe("local_search_improved");
}
Reg reg_l({ "localsearch", 1, gen_l, tune, run_l, true });
#endif
}

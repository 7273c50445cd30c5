#include <locale>
// Explore / record / replay / minimise driver, linked into every check binary.
#include "rt_int.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

namespace sim {
void prepare();
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
void register_scenario(const Scenario& s) { scenarios().push_back(s); }

#define CFG_FIELDS(X) X(threads) X(strategy) X(p_sync) X(p_mem) X(pct_depth) X(pct_len) X(chunk_scale) \
    X(f_team) X(f_spur) X(f_timer) X(f_clock) X(f_wake) X(f_stall) X(f_msg) X(f_io) X(garbage) X(ns_per_step) \
    X(soft_steps) X(hard_steps)

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xbf58476d1ce4e5b9ull + 0x94d049bb133111ebull;
    z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; z ^= z >> 31;
    return z;
}
static double pw(double e) { return __builtin_pow(10.0, e); }
static Config default_config(Rng& r) {
    Config c;
    static const int T[] = { 1, 2, 2, 2, 3, 3, 4, 4, 4, 5, 6, 8 };
    c.threads = T[r.below(12)];
    uint64_t s = r.below(100);
    c.strategy = s < 35 ? 0 : s < 55 ? 1 : s < 65 ? 2 : s < 95 ? 3 : 4;
    c.p_mem = pw(-(0.3 + 3.7 * r.unit()));
    c.p_sync = pw(-2.0 * r.unit());
    c.pct_depth = (int)r.range(1, 8);
    c.pct_len = (uint64_t)pw(2.0 + 4.0 * r.unit());
    static const int CS[] = { 1, 8, 100, 1024, 1024, 1024 };
    c.chunk_scale = CS[r.below(6)];
    if (r.chance(0.1)) c.f_team = 0.2;
    if (r.chance(0.3)) c.f_spur = 0.2;
    if (r.chance(0.3)) c.f_timer = pw(-(0.5 + 2.5 * r.unit()));
    if (r.chance(0.5)) c.f_wake = 0.5;
    if (r.chance(0.4)) c.f_stall = pw(-(0.3 + 2.0 * r.unit()));
    c.garbage = (int)r.below(5);
    static const uint64_t NS[] = { 1, 20, 500, 20000 };
    c.ns_per_step = NS[r.below(4)];
    return c;
}

struct Plan { Case c; Config cfg; uint64_t sseed, fseed; const Scenario* sc; };
static Plan make_plan(uint64_t seed, uint64_t idx, int tier) {
    Plan p;
    Rng r(mix(seed, idx * 4 + 1));
    auto& v = scenarios();
    int tot = 0;
    for (auto& s : v) tot += s.weight;
    int k = (int)r.below((uint64_t)tot);
    size_t i = 0;
    while (k >= v[i].weight) { k -= v[i].weight; ++i; }
    p.sc = &v[i];
    p.c.scenario = v[i].name;
    Rng rg(mix(seed, idx * 4 + 2));
    Rng rc(mix(seed, idx * 4 + 3));
    p.cfg = default_config(rc);
    v[i].gen(p.c, rg, tier);
    if (v[i].tune) v[i].tune(p.c, rc, p.cfg);
    p.sseed = mix(seed, idx * 4 + 4);
    p.fseed = mix(p.sseed, 77);
    return p;
}
static uint64_t case_hash(const Case& c) {
    uint64_t h = 7;
    for (char ch : c.scenario) h = mix(h, (uint64_t)ch);
    for (auto& kv : c.p) { for (char ch : kv.first) h = mix(h, (uint64_t)ch); h = mix(h, (uint64_t)kv.second); }
    for (auto& o : c.ops) { h = mix(h, 99); for (auto x : o) h = mix(h, (uint64_t)x); }
    return h;
}

static const Plan* g_plan;
static void body() {
    // a copy inside the simulated heap.  The map is rebuilt in key order: its shape, and
    // with it the number of steps a lookup takes, must not depend on how it was filled
    Case c;
    c.scenario = g_plan->c.scenario;
    for (auto& kv : g_plan->c.p) c.p.emplace_hint(c.p.end(), kv.first, kv.second);
    c.ops = g_plan->c.ops;
    g_plan->sc->run(c);
}

static int cpu_limit_s = 100;
static void run_plan(const Plan& p, Replay* rep) {
    memset((void*)R, 0, offsetof(Result, flog));
    g_plan = &p;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        struct itimerval it = { { 0, 0 }, { cpu_limit_s, 0 } };
        setitimer(ITIMER_PROF, &it, nullptr);
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        int dn = open("/dev/null", O_WRONLY);
        if (!getenv("SIM_STDOUT")) { dup2(dn, 1); dup2(dn, 2); }
        cfg = p.cfg;
        replay = rep;
        run_sim(p.sseed, p.fseed, body);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == ST_NONE) {
        R->status = ST_VIOLATION;
        R->hash = 1;
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGPROF) { snprintf(R->cls, sizeof R->cls, "no-progress"); snprintf(R->msg, sizeof R->msg, "CPU limit of %d s reached without finishing", cpu_limit_s); }
            else if (s == SIGKILL) { R->status = ST_ERROR; snprintf(R->cls, sizeof R->cls, "killed"); }
            else { snprintf(R->cls, sizeof R->cls, "crash-%s", sigabbrev_np(s) ? sigabbrev_np(s) : "?"); snprintf(R->msg, sizeof R->msg, "the process died with signal %s", sigabbrev_np(s) ? sigabbrev_np(s) : "?"); }
        } else {
            R->status = ST_ERROR;
            snprintf(R->cls, sizeof R->cls, "exit-%d", WEXITSTATUS(st));
        }
    }
}

static std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
static std::string case_text(const Case& c, size_t maxops) {
    std::ostringstream o;
    o << c.scenario << " {";
    bool first = true;
    for (auto& kv : c.p) { o << (first ? "" : " ") << kv.first << "=" << kv.second; first = false; }
    o << "} ops[" << c.ops.size() << "]:";
    for (size_t i = 0; i < c.ops.size() && i < maxops; ++i) {
        o << " (";
        for (size_t j = 0; j < c.ops[i].size(); ++j) o << (j ? "," : "") << c.ops[i][j];
        o << ")";
    }
    if (c.ops.size() > maxops) o << " ...";
    return o.str();
}
static std::string cfg_text(const Config& c) {
    std::ostringstream o;
#define X(f) o << #f << "=" << c.f << " ";
    CFG_FIELDS(X)
#undef X
    return o.str();
}

struct Trace { std::vector<SchedEntry> s; std::vector<FaultEntry> f; bool overflow = false; };
static Trace take_trace() {
    Trace t;
    t.s.assign(R->log, R->log + R->nsched);
    t.f.assign(R->flog, R->flog + R->nfault);
    t.overflow = R->sched_overflow > 0;
    return t;
}
static void sort_trace(Trace& t) {
    std::stable_sort(t.s.begin(), t.s.end(), [](const SchedEntry& a, const SchedEntry& b) {
        return a.fiber != b.fiber ? a.fiber < b.fiber : a.local < b.local; });
    std::stable_sort(t.f.begin(), t.f.end(), [](const FaultEntry& a, const FaultEntry& b) {
        return a.kind != b.kind ? a.kind < b.kind : a.occ < b.occ; });
}
static void run_trace(const Plan& p, const Trace& t0) {
    Trace t = t0;
    sort_trace(t);
    Replay rep = { t.s.data(), t.s.size(), t.f.data(), t.f.size() };
    run_plan(p, &rep);
}

static void write_file(const std::string& path, const Plan& p, const Trace* t, const std::string& cls, const std::string& msg, uint64_t hash, const char* prop) {
    std::ofstream o(path);
    o << "viecut-dst-replay 1\n";
    o << "property " << prop << "\n";
    o << "scenario " << p.c.scenario << "\n";
    o << "class " << cls << "\n";
    o << "msg " << esc(msg) << "\n";
    o << "hash " << hash << "\n";
    o << "seeds " << p.sseed << " " << p.fseed << "\n";
    o.precision(17);
#define X(f) o << "cfg " << #f << " " << p.cfg.f << "\n";
    CFG_FIELDS(X)
#undef X
    for (auto& kv : p.c.p) o << "param " << kv.first << " " << kv.second << "\n";
    for (auto& v : p.c.ops) { o << "op"; for (auto x : v) o << " " << x; o << "\n"; }
    if (t && !t->overflow) {
        o << "trace 1\n";
        for (auto& e : t->s) o << "switch " << (e.type == SE_PREEMPT ? "preempt" : "block") << " " << e.fiber << " " << e.local << " -> " << e.target << "\n";
        for (auto& e : t->f) o << "fault " << fault_names[e.kind] << " " << e.occ << " " << e.value << "\n";
    } else o << "trace 0\n";
    o << "end\n";
}
static bool read_file(const std::string& path, Plan& p, Trace& t, bool& has, std::string& cls, uint64_t& hash) {
    std::ifstream in(path);
    if (!in) return false;
    std::string line, k;
    has = false;
    bool end = false;
    while (std::getline(in, line)) {
        std::istringstream s(line);
        s >> k;
        if (k == "scenario") s >> p.c.scenario;
        else if (k == "class") s >> cls;
        else if (k == "hash") s >> hash;
        else if (k == "seeds") s >> p.sseed >> p.fseed;
        else if (k == "cfg") {
            std::string f; s >> f;
#define X(F) if (f == #F) s >> p.cfg.F;
            CFG_FIELDS(X)
#undef X
        } else if (k == "param") { std::string a; int64_t v; s >> a >> v; p.c.p[a] = v; }
        else if (k == "op") { std::vector<int64_t> v; int64_t x; while (s >> x) v.push_back(x); p.c.ops.push_back(v); }
        else if (k == "trace") { int x; s >> x; has = x; }
        else if (k == "switch") {
            std::string ty, ar; SchedEntry e = {};
            s >> ty >> e.fiber >> e.local >> ar >> e.target;
            e.type = ty == "preempt" ? SE_PREEMPT : SE_BLOCK;
            t.s.push_back(e);
        } else if (k == "fault") {
            std::string n; FaultEntry e = {}; s >> n >> e.occ >> e.value;
            for (int i = 0; i < F_NKINDS; ++i) if (n == fault_names[i]) e.kind = (uint32_t)i;
            t.f.push_back(e);
        } else if (k == "end") end = true;
    }
    p.sc = nullptr;
    for (auto& s : scenarios()) if (p.c.scenario == s.name) p.sc = &s;
    return p.sc && end;
}

static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; }

static int do_explore(int argc, char** argv) {
    // explore SEED LO HI STRIDE MAXSEC TIER MAXVIOL
    uint64_t seed = strtoull(argv[2], 0, 10), lo = strtoull(argv[3], 0, 10), hi = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
    double maxsec = atof(argv[6]);
    int tier = atoi(argv[7]);
    int maxviol = atoi(argv[8]);
    (void)argc;
    double t0 = wall();
    uint64_t runs = 0, ok = 0, skips = 0, errors = 0, nontriv = 0, steps = 0, switches = 0, preempts = 0, simns = 0, syncs = 0, multi = 0;
    uint64_t faults[F_NKINDS] = {}, fault_runs[F_NKINDS] = {};
    std::unordered_set<uint64_t> inter, cases, inter_nt;
    std::map<std::string, uint64_t> probes, scen;
    std::vector<std::string> samples, viols, errs;
    bool timeout = false, stopped = false;
    const char* stop_file = getenv("SIM_STOP");
    std::map<std::string, uint64_t> known;
    int fresh = 0;
    uint64_t last = lo;
    for (uint64_t i = lo; i < hi; i += stride) {
        if (wall() - t0 > maxsec) { timeout = true; break; }
        if (stop_file && syscall(SYS_access, stop_file, F_OK) == 0) { stopped = true; break; }
        Plan p = make_plan(seed, i, tier);
        run_plan(p, nullptr);
        ++runs; last = i;
        steps += R->steps; switches += R->switches; preempts += R->preempts; simns += R->sim_ns; syncs += R->sync_ops;
        for (int k = 0; k < F_NKINDS; ++k) { faults[k] += R->faults[k]; fault_runs[k] += R->faults[k] > 0; }
        for (int k = 0; k < R->nprobes; ++k) probes[R->probe_name[k]] += R->probe_cnt[k];
        scen[p.c.scenario]++;
        uint64_t ch = case_hash(p.c), ih = mix(ch, R->schash);
        cases.insert(ch);
        inter.insert(ih);
        if (R->max_live > 1) ++multi;
        if (R->status == ST_OK) ++ok;
        if (R->status == ST_SKIP) ++skips;
        if (R->nontrivial && R->status != ST_SKIP) { ++nontriv; inter_nt.insert(ih); }
        if (samples.size() < 2 && R->nontrivial && R->status == ST_OK) {
            std::ostringstream o;
            o << "run " << i << ": " << case_text(p.c, 14) << " | " << cfg_text(p.cfg) << "| switches=" << R->switches << " steps=" << R->steps << " hash=" << R->hash;
            samples.push_back(o.str());
        }
        if (R->status == ST_ERROR) {
            ++errors;
            if (errs.size() < 5) errs.push_back("run " + std::to_string(i) + " " + R->cls + " " + R->msg);
        }
        if (R->status == ST_VIOLATION) {
            std::ostringstream o;
            o << "{\"index\":" << i << ",\"class\":\"" << esc(R->cls) << "\",\"scenario\":\"" << p.c.scenario << "\",\"msg\":\"" << esc(std::string(R->msg).substr(0, 900)) << "\",\"ops\":" << p.c.ops.size() << ",\"steps\":" << R->steps << "}";
            if (!strncmp(R->cls, "known-", 6)) {        // listed finding: keep one example of each, go on
                if (known[R->cls]++ == 0) viols.push_back(o.str());
                continue;
            }
            viols.push_back(o.str());
            if (++fresh >= maxviol) {
                if (stop_file) close(open(stop_file, O_CREAT | O_WRONLY, 0644));
                break;
            }
        }
    }
    double dt = wall() - t0;
    std::ostringstream o;
    o << "{\"runs\":" << runs << ",\"ok\":" << ok << ",\"skips\":" << skips << ",\"errors\":" << errors << ",\"nontrivial\":" << nontriv
      << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"preemptions\":" << preempts << ",\"sync_ops\":" << syncs << ",\"sim_ns\":" << simns
      << ",\"multi_threaded_runs\":" << multi << ",\"last\":" << last
      << ",\"timeout\":" << (timeout ? "true" : "false") << ",\"stopped\":" << (stopped ? "true" : "false") << ",\"wall\":" << dt;
    o << ",\"faults\":{";
    for (int k = 0; k < F_NKINDS; ++k) o << (k ? "," : "") << "\"" << fault_names[k] << "\":[" << faults[k] << "," << fault_runs[k] << "]";
    o << "},\"probes\":{";
    { bool f = true; for (auto& kv : probes) { o << (f ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; f = false; } }
    o << "},\"scenarios\":{";
    { bool f = true; for (auto& kv : scen) { o << (f ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; f = false; } }
    o << "},\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
    o << "],\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) o << (i ? "," : "") << viols[i];
    o << "],\"errs\":[";
    for (size_t i = 0; i < errs.size(); ++i) o << (i ? "," : "") << "\"" << esc(errs[i]) << "\"";
    o << "],\"known\":{";
    { bool f = true; for (auto& kv : known) { o << (f ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; f = false; } }
    o << "},\"cases\":" << cases.size();
    // hashes are merged by the caller
    o << "}\n";
    printf("%s", o.str().c_str());
    // binary side files: interleaving hashes and coverage
    if (argc > 9) {
        FILE* f = fopen(argv[9], "wb");
        uint64_t n = inter.size(), m = inter_nt.size();
        fwrite(&n, 8, 1, f); for (auto h : inter) fwrite(&h, 8, 1, f);
        fwrite(&m, 8, 1, f); for (auto h : inter_nt) fwrite(&h, 8, 1, f);
        uint64_t c = cases.size(); fwrite(&c, 8, 1, f); for (auto h : cases) fwrite(&h, 8, 1, f);
        fwrite(cov, COV_BITS / 8, 1, f);
        fclose(f);
    }
    return 0;
}
static int do_hashes(char** argv) {
    // hashes SEED LO HI STRIDE TIER: one line per run, for determinism checks
    uint64_t seed = strtoull(argv[2], 0, 10), lo = strtoull(argv[3], 0, 10), hi = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
    int tier = atoi(argv[6]);
    for (uint64_t i = lo; i < hi; i += stride) {
        Plan p = make_plan(seed, i, tier);
        run_plan(p, nullptr);
        printf("%llu %d %016llx %016llx %llu\n", (unsigned long long)i, (int)R->status, (unsigned long long)R->hash, (unsigned long long)R->schash, (unsigned long long)R->steps);
    }
    return 0;
}
static const char* prop_name = "?";
static int do_record(char** argv) {
    // record SEED INDEX TIER OUT
    Plan p = make_plan(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), atoi(argv[4]));
    run_plan(p, nullptr);
    Trace t = take_trace();
    uint64_t h1 = R->hash; std::string cls = R->cls, msg = R->msg;
    int st = R->status;
    run_plan(p, nullptr);
    if (R->hash != h1 || cls != R->cls) { printf("nondeterministic %llx %llx %s %s\n", (unsigned long long)h1, (unsigned long long)R->hash, cls.c_str(), R->cls); return 3; }
    printf("status %d class %s hash %llx steps %llu switches %llu msg %s\n", st, cls.c_str(), (unsigned long long)h1, (unsigned long long)R->steps, (unsigned long long)R->switches, msg.c_str());
    if (st == ST_VIOLATION) write_file(argv[5], p, &t, cls, msg, h1, prop_name);
    return st == ST_VIOLATION ? 1 : 0;
}
static int do_replay(char** argv) {
    Plan p; Trace t; bool has; std::string cls; uint64_t hash = 0;
    if (!read_file(argv[2], p, t, has, cls, hash)) { printf("cannot read replay file\n"); return 4; }
    uint64_t h[2]; std::string c[2], m[2]; int st[2]; uint64_t stp[2];
    for (int i = 0; i < 2; ++i) {
        if (has) run_trace(p, t); else run_plan(p, nullptr);
        h[i] = R->hash; c[i] = R->cls; m[i] = R->msg; st[i] = R->status; stp[i] = R->steps;
    }
    bool same = h[0] == h[1] && c[0] == c[1];
    printf("status=%d class=%s hash=%llu same_twice=%d matches_file=%d steps=%llu msg=%s\n", st[0], c[0].c_str(), (unsigned long long)h[0], same ? 1 : 0,
           (h[0] == hash && c[0] == cls) ? 1 : 0, (unsigned long long)stp[0], m[0].c_str());
    if (!same) return 3;
    return st[0] == ST_VIOLATION ? 1 : 0;
}
static int do_selftest(char** argv) {
    // selftest SEED LO HI STRIDE TIER FILE: every run, written to FILE and replayed from its
    // trace alone, must be the same execution
    uint64_t seed = strtoull(argv[2], 0, 10), lo = strtoull(argv[3], 0, 10), hi = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10);
    int tier = atoi(argv[6]);
    uint64_t n = 0, bad = 0, over = 0;
    for (uint64_t i = lo; i < hi; i += stride) {
        Plan p = make_plan(seed, i, tier);
        run_plan(p, nullptr);
        if (R->status == ST_SKIP) continue;
        Trace t = take_trace();
        uint64_t h = R->hash, st = R->steps;
        std::string cls = R->cls, c2;
        if (t.overflow) { ++over; continue; }
        write_file(argv[7], p, &t, cls, "", h, prop_name);
        Plan p2; Trace t2; bool has; uint64_t h2 = 0;
        if (!read_file(argv[7], p2, t2, has, c2, h2)) { printf("unreadable\n"); return 4; }
        run_trace(p2, t2);
        ++n;
        if (R->hash != h) { ++bad; printf("index %llu: trace replay differs (class '%s' -> '%s', steps %llu -> %llu, strategy %d)\n", (unsigned long long)i, cls.c_str(), R->cls, (unsigned long long)st, (unsigned long long)R->steps, p.cfg.strategy); }
    }
    printf("selftest: %llu runs replayed from their traces, %llu differ, %llu with too long a trace\n", (unsigned long long)n, (unsigned long long)bad, (unsigned long long)over);
    return bad ? 1 : 0;
}
static int do_minimize(char** argv) {
    // minimize IN OUT SECONDS
    Plan p; Trace t; bool has; std::string cls; uint64_t hash = 0;
    if (!read_file(argv[2], p, t, has, cls, hash)) { printf("cannot read replay file\n"); return 4; }
    double lim = wall() + atof(argv[4]);
    double lim1 = wall() + atof(argv[4]) * 0.6;
    size_t ops0 = p.c.ops.size(), s0 = t.s.size(), f0 = t.f.size();
    auto viol = [&]() { return R->status == ST_VIOLATION && cls == R->cls; };
    // 1. shrink the workload, re-searching schedules
    auto search = [&](Plan& q, int tries) {
        uint64_t s = q.sseed;
        for (int k = 0; k < tries; ++k) {
            q.sseed = k ? mix(s, (uint64_t)k) : s;
            q.fseed = k ? mix(q.sseed, 77) : q.fseed;
            run_plan(q, nullptr);
            if (viol()) return true;
            if (wall() > lim1) break;
        }
        return false;
    };
    bool changed_case = false;
    if (p.sc->shrink_ops) {
        size_t n = p.c.ops.size() / 2;
        while (n >= 1 && wall() < lim1) {
            bool any = false;
            for (size_t i = 0; i + 1 <= p.c.ops.size() && wall() < lim1;) {
                Plan q = p;
                size_t e = std::min(p.c.ops.size(), i + n);
                q.c.ops.erase(q.c.ops.begin() + (long)i, q.c.ops.begin() + (long)e);
                if (!q.c.ops.empty() && search(q, 12)) { p = q; any = true; changed_case = true; }
                else i += n;
            }
            if (n == 1 && !any) break;
            if (n > 1) n /= 2; else if (!any) break;
        }
        // fewer threads
        while (p.cfg.threads > 2 && wall() < lim1) {
            Plan q = p; q.cfg.threads--;
            if (search(q, 12)) { p = q; changed_case = true; } else break;
        }
    }
    if (changed_case || !has) {
        run_plan(p, nullptr);
        if (!viol()) { printf("minimise: lost violation\n"); return 5; }
        t = take_trace();
    }
    // 2. shrink the schedule and fault trace
    auto try_trace = [&](const Trace& q) { run_trace(p, q); return viol(); };
    if (!t.overflow && try_trace(t)) {
        auto ddmin = [&](auto get) {
            size_t n = get(t).size() / 2;
            if (get(t).size() == 1) n = 1;
            while (n >= 1 && wall() < lim) {
                bool any = false;
                for (size_t i = 0; i < get(t).size() && wall() < lim;) {
                    Trace q = t;
                    auto& v = get(q);
                    size_t e = std::min(v.size(), i + n);
                    v.erase(v.begin() + (long)i, v.begin() + (long)e);
                    if (try_trace(q)) { t = q; any = true; }
                    else i += n;
                }
                if (n == 1) { if (!any) break; }
                else n /= 2;
            }
        };
        // quick wins: nothing but defaults
        { Trace q; if (try_trace(q)) t = q; }
        ddmin([](Trace& q) -> std::vector<FaultEntry>& { return q.f; });
        ddmin([](Trace& q) -> std::vector<SchedEntry>& { return q.s; });
        ddmin([](Trace& q) -> std::vector<FaultEntry>& { return q.f; });
        run_trace(p, t);
    } else {
        t.overflow = true;
        run_plan(p, nullptr);
    }
    if (!viol()) { printf("minimise: final run differs\n"); return 5; }
    write_file(argv[3], p, &t, R->cls, R->msg, R->hash, prop_name);
    printf("minimised ops %zu->%zu switches %zu->%zu faults %zu->%zu class=%s msg=%s\n", ops0, p.c.ops.size(), s0, t.s.size(), f0, t.f.size(), R->cls, R->msg);
    return 1;
}
}  // namespace sim

int main(int argc, char** argv) {
    using namespace sim;
    // fixed address space layout: code under test must not see ASLR
    int per = personality(0xffffffff);
    if (!(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR_TRIED")) {
        setenv("SIM_NOASLR_TRIED", "1", 1);
        if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    if (const char* e = getenv("SIM_PROP")) prop_name = e;
    if (const char* e = getenv("SIM_CPU")) cpu_limit_s = atoi(e);
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cov = (uint8_t*)mmap(nullptr, COV_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // caches that iostreams fill on first use must not differ between runs
    {
        auto& ct = std::use_facet<std::ctype<char> >(std::locale::classic());
        (void)ct.widen('a'); (void)ct.narrow('a', 0);
        std::ofstream o("/dev/null"); o << 1 << " " << 1.5 << std::endl;
        std::ifstream i("/dev/null"); std::string l; std::getline(i, l);
        std::istringstream is("1 2.5 x"); int x; double y; is >> x >> y >> l;
        std::ostringstream os; os << x << y << l << std::fixed << y;
    }
    prepare();
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "explore" && argc >= 9) return do_explore(argc, argv);
    if (mode == "hashes" && argc >= 7) return do_hashes(argv);
    if (mode == "record" && argc >= 6) return do_record(argv);
    if (mode == "replay" && argc >= 3) return do_replay(argv);
    if (mode == "selftest" && argc >= 8) return do_selftest(argv);
    if (mode == "minimize" && argc >= 5) return do_minimize(argv);
    fprintf(stderr, "usage: explore|hashes|record|replay|minimize ...\n");
    return 64;
}

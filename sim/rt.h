// Deterministic simulator: public interface used by the harnesses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- PRNG -----------------------------------------------------------------
struct Rng {
    uint64_t s[2];
    explicit Rng(uint64_t seed = 1);
    uint64_t next();
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // uniform in [a, b]
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};

// ---- a generated workload ---------------------------------------------------
// Parameters plus a list of integer tuples.  The shrinker deletes tuples.
struct Case {
    std::string scenario;
    std::map<std::string, int64_t> p;
    std::vector<std::vector<int64_t> > ops;
    int64_t get(const std::string& k, int64_t d = 0) const {
        auto it = p.find(k);
        return it == p.end() ? d : it->second;
    }
};

// ---- fault kinds --------------------------------------------------------------
enum Fault {
    F_PREEMPT,         // involuntary context switch inside an operation
    F_STALL,           // thread frozen for a long stretch
    F_TEAM_SHRINK,     // OpenMP delivers fewer threads than requested
    F_CHUNK,           // loop chunk handed out smaller
    F_SPURIOUS_WAKE,   // condition variable returns without notification
    F_TIMER_JUMP,      // clock passes a deadline while others are stalled
    F_CLOCK_JUMP,      // wall clock steps forward
    F_WAKE_ORDER,      // notify picks a waiter other than the oldest
    F_MSG_DELAY,       // message delivered late / reordered across sources
    F_RANK_STALL,      // a rank is frozen for a while
    F_IO_SHORT_READ,
    F_IO_EINTR,
    F_IO_EIO_READ,
    F_IO_SHORT_WRITE,
    F_IO_ENOSPC,
    F_IO_EIO_WRITE,
    F_IO_OPEN_FAIL,
    F_IO_TORN,         // crash: only a prefix of the file survived
    F_HEAP_GARBAGE,    // fresh heap memory filled with garbage
    F_SEED,            // algorithm's own random seed varied
    F_NKINDS
};
extern const char* const fault_names[F_NKINDS];

// A recorded choice in [0, n); 0 is "nothing unusual".  prob is the chance of a
// nonzero outcome.  Replayed from the trace.
uint32_t choose(Fault k, double prob, uint32_t n);
void count_fault(Fault k);

// ---- per run configuration ---------------------------------------------------
struct Config {
    int threads = 4;            // omp_get_max_threads()
    int strategy = 0;           // see rt.cpp
    double p_sync = 0.1;        // switch probability at synchronisation
    double p_mem = 0.01;        // switch probability at plain accesses
    int pct_depth = 3;
    uint64_t pct_len = 10000;
    int chunk_scale = 1;
    double f_team = 0, f_spur = 0, f_timer = 0, f_clock = 0, f_wake = 0, f_stall = 0;
    double f_msg = 0, f_io = 0;
    int garbage = 0;            // heap fill mode
    uint64_t ns_per_step = 20;
    uint64_t soft_steps = 20000000, hard_steps = 120000000;
};
extern Config cfg;

// ---- control -------------------------------------------------------------------
// A property is broken: record and end this run.
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// This run proves nothing (workload outside the property's domain).
[[noreturn]] void skip(const char* why);
// exit() called by the code under test is an outcome: h(code), then the run ends well
void on_exit(void (*h)(int));
[[noreturn]] void done();               // end this run here, nothing wrong
void probe(const char* name);           // "this rare condition was hit"
void note(uint64_t v);                  // fold an observation into the run hash
void nontrivial();                      // this run counts as non-trivial
uint64_t steps();
uint64_t now_ns();
void clock_jump(uint64_t ns);
void wall_jump(int64_t ns, int group = -1);     // wall clock only, of one process or all
uint64_t wall_ns();
int cur_fiber();
void yield_point();                     // explicit synchronisation point
// run fn(arg) in a new fiber of the current group ("process"); returns id
int spawn(void (*fn)(void*), void* arg, int group = -1);
void join(int fiber);
int group();                            // simulated process of this fiber
void set_threads(int n);
// code outside the system under test (oracles): no scheduling, not counted
struct Quiet { Quiet(); ~Quiet(); };

// ---- simulated files -------------------------------------------------------------
namespace fs {
void put(const std::string& path, const std::string& data);
bool get(const std::string& path, std::string* data);
void remove(const std::string& path);
bool write_failed(const std::string& path);     // a write to it was made to fail
bool read_failed(const std::string& path);      // opening or reading it was made to fail
// fault injection on/off; read_errors scales the chance of failing reads
void enable(bool rd, bool wr, double read_errors = 0);
}

// ---- scenarios ---------------------------------------------------------------------
struct Scenario {
    const char* name;
    int weight;
    void (*gen)(Case&, Rng&, int tier);
    void (*tune)(const Case&, Rng&, Config&);    // may be null
    void (*run)(const Case&);
    bool shrink_ops;
};
void register_scenario(const Scenario& s);
struct Reg { explicit Reg(const Scenario& s) { register_scenario(s); } };

}  // namespace sim

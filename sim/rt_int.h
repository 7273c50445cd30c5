// Internals shared by rt.cpp, mpi_sim.cpp and driver.cpp
#pragma once
#include "rt.h"

namespace sim {

struct SchedEntry { uint32_t fiber; uint32_t target; uint64_t local; uint32_t type; uint32_t pad; };
enum { SE_PREEMPT = 0, SE_BLOCK = 1 };
struct FaultEntry { uint32_t kind; uint32_t value; uint64_t occ; };

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_SKIP = 3, ST_ERROR = 4 };
static const int MAX_FIBERS = 192;
static const uint64_t LOG_CAP = 1 << 20;
static const int MAX_PROBES = 64;
static const uint32_t COV_BITS = 1 << 20;

struct Result {
    volatile int status;
    char cls[64];
    char msg[4096];
    uint64_t steps, switches, preempts, hash, schash, sim_ns, sync_ops;
    int nontrivial;
    int max_live;
    uint64_t nsched, nfault;
    uint64_t sched_overflow;
    uint64_t faults[F_NKINDS];
    int nprobes;
    char probe_name[MAX_PROBES][48];
    uint64_t probe_cnt[MAX_PROBES];
    uint64_t heap_peak;
    FaultEntry flog[1 << 16];
    SchedEntry log[LOG_CAP];
};
extern Result* R;
extern uint8_t* cov;          // shared coverage bitmap

// replay input (null when exploring)
struct Replay {
    SchedEntry* sched; uint64_t nsched;
    FaultEntry* faults; uint64_t nfaults;
};
extern Replay* replay;

extern bool in_sim;
// start the simulation: runs body on fiber 0, then returns (in the host context)
void run_sim(uint64_t sched_seed, uint64_t fault_seed, void (*body)());
void host_fail(const char* cls, const char* msg);

// scheduling primitives for other simulated components
void sync_point(const void* addr, void* pc);
static const uint64_t NEVER = ~0ull;
// returns true if woken, false on deadline
bool block_on(const void* obj, uint64_t deadline = NEVER);
void wake_all(const void* obj);
void set_group(int fiber, int g);
void stall_group(int g, uint64_t steps);
bool all_fair();                 // faults have stopped
void check_write(const void* p, size_t n);
Rng& fault_rng();
std::vector<Scenario>& scenarios();
}  // namespace sim

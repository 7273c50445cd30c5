#include <random>
// Deterministic simulator runtime.
//
// The code under test is compiled with -fsanitize=thread -fopenmp, but neither
// libtsan nor libgomp is linked: this file supplies the instrumentation
// callbacks, the OpenMP runtime, pthreads, futures, clocks and file I/O.  All
// threads are fibers of one OS thread; every memory access of the code under
// test is a potential scheduling point and one PRNG decides who runs next.
#include "rt_int.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/single_threaded.h>
#include <time.h>
#include <unistd.h>

#include <future>
#include <mutex>

#define NOINL __attribute__((noinline))
#define RA __builtin_return_address(0)

namespace sim {

const char* const fault_names[F_NKINDS] = {
    "preempt", "thread_stall", "team_shrink", "chunk_shrink", "spurious_wakeup",
    "timer_jump", "clock_jump", "wake_order", "msg_delay", "rank_stall",
    "io_short_read", "io_eintr", "io_eio_read", "io_short_write", "io_enospc",
    "io_eio_write", "io_open_fail", "io_torn", "heap_garbage", "seed" };

// ---------------------------------------------------------------------------
// PRNG: xoroshiro128+ seeded with splitmix
// ---------------------------------------------------------------------------
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
Rng::Rng(uint64_t seed) { s[0] = splitmix(seed); s[1] = splitmix(seed); }
uint64_t Rng::next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
    s[1] = (b << 37) | (b >> 27);
    return r;
}

// ---------------------------------------------------------------------------
// Heap: two deterministic arenas (host / simulated), fixed addresses
// ---------------------------------------------------------------------------
struct Arena {
    char* base; char* top; char* end;
    void* freel[160];
    uint64_t live, peak;
};
static Arena arenas[2];
static const uint64_t ARENA_BASE[2] = { 0x200000000000ull, 0x240000000000ull };
static const uint64_t ARENA_SIZE[2] = { 8ull << 30, 3ull << 30 };
// shadow of the simulated heap: per 8 bytes, how many of them are allocated
static uint8_t* const SHADOW = (uint8_t*)0x260000000000ull;
static const int QLEN = 256;          // freed blocks stay unusable for a while
static void* quarantine[QLEN];
static int q_pos = 0;
bool in_sim = false;
static bool arenas_ready = false;
static int cur_arena = 0;
Config cfg;
static uint64_t garbage_state = 0x1234567;

static void arena_init() {
    for (int i = 0; i < 2; ++i) {
        void* p = mmap((void*)ARENA_BASE[i], ARENA_SIZE[i], PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)ARENA_BASE[i]) { (void)!::write(2, "arena\n", 6); _exit(70); }
        arenas[i].base = arenas[i].top = (char*)p;
        arenas[i].end = (char*)p + ARENA_SIZE[i];
    }
    void* p = mmap(SHADOW, ARENA_SIZE[1] / 8, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)SHADOW) { (void)!::write(2, "shadow\n", 7); _exit(70); }
    arenas_ready = true;
}
static inline void shadow_set(const void* p, size_t n, bool live) {
    uint64_t o = (uint64_t)p - ARENA_BASE[1];
    if (o >= ARENA_SIZE[1]) return;
    memset(SHADOW + o / 8, live ? 8 : 0, n / 8);
    if (n & 7) SHADOW[(o + n) / 8] = live ? (uint8_t)(n & 7) : 0;
}
static __attribute__((noinline)) void bad_access(const void* a, size_t n, const char* what, void* pc);
// both ends of an access to the simulated heap have to be allocated
static inline void check_access(const void* a, size_t n, const char* what, void* pc) {
    uint64_t o = (uint64_t)a - ARENA_BASE[1];
    if (o >= ARENA_SIZE[1] || !n) return;
    uint64_t e = o + n - 1;
    if (__builtin_expect((o & 7) >= SHADOW[o >> 3] || (e & 7) >= SHADOW[e >> 3], 0)) bad_access(a, n, what, pc);
}
static inline int size_class(size_t n, size_t* sz) {
    if (n <= 1024) { int c = (int)((n + 15) / 16); if (!c) c = 1; *sz = (size_t)c * 16; return c; }
    int lg = 63 - __builtin_clzll(n - 1);              // 2^lg <= n-1
    size_t step = (size_t)1 << (lg - 2);
    size_t r = (n + step - 1) / step * step;
    *sz = r;
    int sub = (int)((r - ((size_t)1 << lg)) / step);   // 1..4
    int c = 65 + (lg - 10) * 4 + sub - 1;
    return c < 160 ? c : 159;
}
// block header: 16 bytes {uint32 class, uint32 magic, uint64 size or align offset}
struct Hdr { uint32_t cls; uint32_t magic; uint64_t size; };
static const uint32_t MAGIC = 0x5eed5eed, MAGIC_AL = 0xa119a119, MAGIC_FREE = 0xdeadf4ee;

static void oom() {
    if (in_sim) fail("out-of-memory", "simulated heap of %llu bytes exhausted", (unsigned long long)ARENA_SIZE[1]);
    (void)!::write(2, "host oom\n", 9);
    _exit(70);
}
static void* arena_alloc(size_t n, bool zero) {
    if (__builtin_expect(!arenas_ready, 0)) arena_init();
    if (n > (1ull << 35)) return nullptr;
    Arena& a = arenas[cur_arena];
    size_t sz;
    int c = size_class(n, &sz);
    char* p;
    if (a.freel[c] && c != 159) {
        p = (char*)a.freel[c];
        a.freel[c] = *(void**)p;
    } else {
        if ((size_t)(a.end - a.top) < sz + 16) oom();
        p = a.top + 16;
        a.top += sz + 16;
    }
    Hdr* h = (Hdr*)(p - 16);
    h->cls = (uint32_t)c; h->magic = MAGIC; h->size = n;
    if (cur_arena == 1) shadow_set(p, n, true);
    a.live += sz;
    if (a.live > a.peak) a.peak = a.live;
    if (zero) memset(p, 0, n);
    else if (cur_arena == 1 && cfg.garbage) {
        if (cfg.garbage == 1) memset(p, 0, n);
        else if (cfg.garbage == 2) memset(p, 0xff, n);
        else if (cfg.garbage == 3) memset(p, 0x01, n);
        else {
            uint64_t x = splitmix(garbage_state);
            size_t m = n / 8;
            for (size_t i = 0; i < m; ++i) { ((uint64_t*)p)[i] = x; x = x * 6364136223846793005ull + 1442695040888963407ull; }
        }
    }
    return p;
}
static void arena_free(void* q) {
    if (!q) return;
    Hdr* h = (Hdr*)((char*)q - 16);
    if (h->magic == MAGIC_AL) { q = (char*)q - h->size; h = (Hdr*)((char*)q - 16); }
    if (h->magic != MAGIC) {
        if (in_sim) fail("heap-corruption", "free() of a block that is not live (%s)",
                         h->magic == MAGIC_FREE ? "double free" : "bad header");
        return;
    }
    int i = (uint64_t)q >= ARENA_BASE[1] ? 1 : 0;
    Arena& a = arenas[i];
    h->magic = MAGIC_FREE;
    size_t sz; size_class(h->size, &sz);
    a.live -= sz;
    if (i == 1) shadow_set(q, h->size, false);
    if (h->cls == 159) return;
    if (i == 1 && sz <= 65536 && cfg.garbage) {
        void* old = quarantine[q_pos];
        quarantine[q_pos] = q;
        q_pos = (q_pos + 1) % QLEN;
        if (!old) return;
        q = old;
        h = (Hdr*)((char*)q - 16);
    }
    *(void**)q = a.freel[h->cls];
    a.freel[h->cls] = q;
}
static size_t usable(void* q) {
    Hdr* h = (Hdr*)((char*)q - 16);
    return h->size;     // aligned blocks: see memalign
}
}  // namespace sim

extern "C" {
void* malloc(size_t n) { return sim::arena_alloc(n, false); }
void free(void* p) { sim::arena_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    return sim::arena_alloc(n, true);
}
void* realloc(void* p, size_t n) {
    if (!p) return sim::arena_alloc(n, false);
    if (!n) { sim::arena_free(p); return nullptr; }
    size_t o = sim::usable(p);
    void* q = sim::arena_alloc(n, false);
    if (q) memcpy(q, p, o < n ? o : n);
    sim::arena_free(p);
    return q;
}
void* memalign(size_t al, size_t n) {
    if (al <= 16) return sim::arena_alloc(n, false);
    char* p = (char*)sim::arena_alloc(n + al + 16, false);
    if (!p) return nullptr;
    char* q = (char*)(((uintptr_t)p + 16 + al - 1) / al * al);
    sim::Hdr* h = (sim::Hdr*)(q - 16);
    h->cls = 0; h->magic = sim::MAGIC_AL; h->size = (uint64_t)(q - p);
    return q;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { *out = memalign(al, n); return *out ? 0 : ENOMEM; }
void* valloc(size_t n) { return memalign(4096, n); }
size_t malloc_usable_size(void* p) { return p ? sim::usable(p) : 0; }
}

namespace sim {

// ---------------------------------------------------------------------------
// Fibers
// ---------------------------------------------------------------------------
enum FState { FREE = 0, RUNNABLE, BLOCKED, DONE };

struct WorkShare { bool init, up, dyn_guided; uint64_t next, end, incr, chunk; int single_taken; void* cpy; };
struct Team {
    int n;
    int arrived; uint64_t gen;      // barrier
    int remaining;                  // for the final join
    void (*fn)(void*); void* data;
    WorkShare* ws; uint64_t nws, capws;
    Team* parent;
};
struct Fiber {
    int id;
    FState state;
    void* sp;
    void (*fn)(void*); void* arg;
    const void* obj; uint64_t deadline; bool timed_out; bool is_cond;
    uint64_t blocked_seq;
    uint64_t local;                 // scheduling points passed (cumulative per slot)
    uint64_t stalled_until;
    int group;
    int prio;
    void* pc;                       // where it was preempted
    bool detached, pthread_like;
    // per thread runtime state
    Team* team; int tid; uint64_t ws_count; WorkShare* cur_ws;
    void* eh[2]; void* once_callable; void (*once_call)(); int err;
    uint64_t rep_pos;               // replay cursor
};
static Fiber fibers[MAX_FIBERS];
static int nfibers = 0;
static int cur = -1;
static int nrunnable = 0;
static void* host_sp;

Result* R;
uint8_t* cov;
Replay* replay;
static Rng srng(1), frng(2);
Rng& fault_rng() { return frng; }
static uint64_t fault_occ[F_NKINDS];
static uint64_t fault_cur[F_NKINDS];

static uint64_t total_steps;
static uint64_t clock_base, clock_extra;
static uint64_t run_hash, sched_hash;
static uint64_t ev_left;            // scheduling points until the next planned event
static int quiet = 0;
static bool fair_phase = false;
static uint64_t fair_start = 0;
static uint64_t block_counter = 0;
static uint64_t run_len = 0;        // steps since last switch (fairness)
static int max_threads = 4;

extern "C" { int64_t sim_budget = (int64_t)1 << 62; }
static int64_t chunk_len = (int64_t)1 << 62;

static const uint64_t HOUSE = 4096;
static const uint64_t STACK_BASE = 0x300000000000ull;
static const uint64_t STACK_SLOT = 64ull << 20;

static inline void hash_in(uint64_t& h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 33;
}
void note(uint64_t v) { hash_in(run_hash, v); }

static inline void account() {
    int64_t used = chunk_len - sim_budget;
    if (used > 0) {
        total_steps += (uint64_t)used;
        run_len += (uint64_t)used;
        if (cur >= 0) fibers[cur].local += (uint64_t)used;
        ev_left = ev_left > (uint64_t)used ? ev_left - (uint64_t)used : 0;
    }
    chunk_len = sim_budget = 0;
}
uint64_t steps() { if (in_sim && !quiet) { account(); chunk_len = sim_budget = 1; } return total_steps; }
uint64_t now_ns() {
    if (!in_sim) return clock_base;
    uint64_t n = total_steps + (quiet ? 0 : (uint64_t)(chunk_len - sim_budget));
    uint64_t t = clock_base + clock_extra + n * cfg.ns_per_step;
    // threads that only poll must not keep timed waits of others from ending:
    // under fair scheduling a step takes at least 250 ns
    if (fair_phase && cfg.ns_per_step < 250) t += (n - fair_start) * (250 - cfg.ns_per_step);
    return t;
}
void clock_jump(uint64_t ns) { clock_extra += ns; count_fault(F_CLOCK_JUMP); }
static int64_t wall_off[64];        // wall clock of each simulated process relative to the monotonic one
void wall_jump(int64_t ns, int g) {
    for (int i = 0; i < 64; ++i) if (g < 0 || i == g) wall_off[i] += ns;
    count_fault(F_CLOCK_JUMP);
}
uint64_t wall_ns() { return now_ns() + (uint64_t)wall_off[group() & 63]; }
int cur_fiber() { return cur; }
int group() { return cur >= 0 ? fibers[cur].group : 0; }
void set_threads(int n) { max_threads = n; }

// ---------------------------------------------------------------------------
// outcomes
// ---------------------------------------------------------------------------
static void finish_result() {
    if (!quiet) account();
    R->steps = total_steps;
    R->sim_ns = now_ns() - clock_base;
    hash_in(run_hash, total_steps);
    hash_in(run_hash, sched_hash);
    R->hash = run_hash;
    R->schash = sched_hash;
    R->heap_peak = arenas[1].peak;
}
static bool failing = false;
void fail(const char* cls, const char* fmt, ...) {
    if (failing) _exit(0);
    failing = true;
    va_list ap;
    va_start(ap, fmt);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    in_sim = false;
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    in_sim = true;
    va_end(ap);
    for (const char* c = R->msg; *c; ++c) hash_in(run_hash, (uint64_t)*c);
    finish_result();
    R->status = ST_VIOLATION;
    _exit(0);
}
void host_fail(const char* cls, const char* msg) { fail(cls, "%s", msg); }
void skip(const char* why) {
    snprintf(R->msg, sizeof R->msg, "%s", why);
    finish_result();
    R->status = ST_SKIP;
    _exit(0);
}
// the program ended itself: hand the exit code to the harness and end the run
static void (*exit_handler)(int) = nullptr;
void on_exit(void (*h)(int)) { exit_handler = h; }
void done() {
    finish_result();
    R->status = ST_OK;
    _exit(0);
}
void probe(const char* name) {
    for (int i = 0; i < R->nprobes; ++i)
        if (!strcmp(R->probe_name[i], name)) { R->probe_cnt[i]++; return; }
    if (R->nprobes < MAX_PROBES) {
        snprintf(R->probe_name[R->nprobes], 48, "%s", name);
        R->probe_cnt[R->nprobes++] = 1;
    }
}
void nontrivial() { R->nontrivial = 1; }
void count_fault(Fault k) { R->faults[k]++; }

uint32_t choose(Fault k, double prob, uint32_t n) {
    uint64_t occ = fault_occ[k]++;
    uint32_t v = 0;
    if (replay) {
        // entries are sorted by (kind, occ)
        uint64_t& c = fault_cur[k];
        while (c < replay->nfaults && (replay->faults[c].kind < (uint32_t)k ||
                                       (replay->faults[c].kind == (uint32_t)k && replay->faults[c].occ < occ))) ++c;
        if (c < replay->nfaults && replay->faults[c].kind == (uint32_t)k && replay->faults[c].occ == occ)
            v = n ? replay->faults[c].value % n : 0;
    } else if (n > 1 && prob > 0 && !fair_phase && R->nfault < (1 << 16) && frng.chance(prob)) {
        v = (uint32_t)(1 + frng.below(n - 1));
    }
    if (v) {
        R->faults[k]++;
        if (R->nfault < (1 << 16)) R->flog[R->nfault++] = FaultEntry { (uint32_t)k, v, occ };
        hash_in(sched_hash, ((uint64_t)k << 40) ^ (occ << 8) ^ v);
    }
    return v;
}

// ---------------------------------------------------------------------------
// context switching
// ---------------------------------------------------------------------------
extern "C" void sim_swap(void** save, void* load);
__asm__(
    ".text\n.globl sim_swap\n.type sim_swap,@function\nsim_swap:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n"
    "  ret\n.size sim_swap,.-sim_swap\n");

static void fiber_finish();
static void fiber_entry() {
    Fiber& f = fibers[cur];
    f.fn(f.arg);
    fiber_finish();
    __builtin_trap();
}
static void tls_save(Fiber& f) {
    void** g = (void**)abi::__cxa_get_globals();
    f.eh[0] = g[0]; f.eh[1] = g[1];
    f.once_callable = std::__once_callable; f.once_call = std::__once_call;
    f.err = errno;
}
static void tls_load(Fiber& f) {
    void** g = (void**)abi::__cxa_get_globals();
    g[0] = f.eh[0]; g[1] = f.eh[1];
    std::__once_callable = f.once_callable; std::__once_call = f.once_call;
    errno = f.err;
}

static void refill();

static void log_switch(uint32_t from, uint32_t to, uint64_t local, int type) {
    hash_in(sched_hash, ((uint64_t)from << 48) ^ ((uint64_t)to << 40) ^ local ^ ((uint64_t)type << 62));
    if (R->nsched < LOG_CAP) R->log[R->nsched++] = SchedEntry { from, to, local, (uint32_t)type, 0 };
    else R->sched_overflow++;
}

// transfer control; current fiber's accounting already done
static void do_switch(int j, void* pc) {
    Fiber& f = fibers[cur];
    Fiber& g = fibers[j];
    R->switches++;
    f.pc = pc;
    if (cov && g.pc) {
        uint64_t h = ((uint64_t)pc * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)g.pc * 0xc2b2ae3d27d4eb4full);
        h ^= h >> 29;
        uint32_t b = (uint32_t)(h % COV_BITS);
        cov[b >> 3] |= (uint8_t)(1 << (b & 7));
    }
    run_len = 0;
    tls_save(f);
    int me = cur;
    cur = j;
    void** save = &fibers[me].sp;
    tls_load(g);
    sim_swap(save, g.sp);
    // resumed
}

static void make_runnable(Fiber& f) {
    f.state = RUNNABLE; f.obj = nullptr; f.deadline = NEVER; f.is_cond = false;
    ++nrunnable;
}
static void check_timers() {
    uint64_t t = now_ns();
    for (int i = 0; i < nfibers; ++i) {
        Fiber& f = fibers[i];
        if (f.state == BLOCKED && f.deadline <= t) { f.timed_out = true; make_runnable(f); }
    }
}
static void fire_timer(Fiber& f) {     // jump the clock to its deadline
    uint64_t t = now_ns();
    if (f.deadline > t) clock_extra += f.deadline - t;
    f.timed_out = true;
    make_runnable(f);
}

// hot-address table
struct Hot { uint32_t tag; uint8_t owner; uint8_t wrote; uint8_t multi; };
static Hot* hot;
static const uint32_t HOT_N = 1 << 16;

enum Strategy { S_RANDOM = 0, S_PCT = 1, S_SYNC = 2, S_HOT = 3, S_SEQ = 4, S_NSTRAT = 5 };
static uint64_t pct_points[16]; static int pct_n;
static int prio_low = 0;

static int cand[MAX_FIBERS];
static int collect(bool exclude_cur) {
    int n = 0;
    bool any_stalled = false;
    for (int i = 0; i < nfibers; ++i) {
        if (exclude_cur && i == cur) continue;
        if (fibers[i].state != RUNNABLE) continue;
        if (fibers[i].stalled_until > total_steps && !fair_phase) { any_stalled = true; continue; }
        cand[n++] = i;
    }
    if (n == 0 && any_stalled) {
        for (int i = 0; i < nfibers; ++i)
            if (fibers[i].state == RUNNABLE && !(exclude_cur && i == cur)) cand[n++] = i;
    }
    return n;
}
static int rr_next() {   // next runnable after cur, cyclic
    for (int d = 1; d <= nfibers; ++d) {
        int i = (cur + d) % nfibers;
        if (fibers[i].state == RUNNABLE) return i;
    }
    return -1;
}
static SchedEntry* replay_next(Fiber& f) {
    while (f.rep_pos < replay->nsched &&
           (replay->sched[f.rep_pos].fiber < (uint32_t)f.id ||
            (replay->sched[f.rep_pos].fiber == (uint32_t)f.id && replay->sched[f.rep_pos].local < f.local))) ++f.rep_pos;
    if (f.rep_pos < replay->nsched && replay->sched[f.rep_pos].fiber == (uint32_t)f.id)
        return &replay->sched[f.rep_pos];
    return nullptr;
}

static uint64_t geometric(double p) {
    if (p >= 1) return 1;
    if (p <= 0) return 1ull << 50;
    double u = srng.unit();
    double v = __builtin_log(1.0 - u) / __builtin_log(1.0 - p);
    if (v > 1e15) v = 1e15;
    return 1 + (uint64_t)v;
}
static void plan_event() {
    if (fair_phase) { ev_left = 500; return; }
    if (replay) { ev_left = 1ull << 50; return; }
    switch (cfg.strategy) {
    case S_PCT: {
        uint64_t best = 1ull << 50;
        for (int i = 0; i < pct_n; ++i)
            if (pct_points[i] > total_steps && pct_points[i] - total_steps < best) best = pct_points[i] - total_steps;
        uint64_t fairq = 60000;
        ev_left = best < fairq ? best : fairq;
        break;
    }
    case S_SYNC: ev_left = 20000; break;
    case S_SEQ: ev_left = 100000; break;
    default: ev_left = geometric(cfg.p_mem);
    }
    if (!ev_left) ev_left = 1;
}
static void refill() {
    if (quiet) { chunk_len = sim_budget = (int64_t)1 << 62; return; }
    uint64_t b = 10000;
    if (ev_left < b) b = ev_left;
    if (replay && cur >= 0) {
        SchedEntry* e = replay_next(fibers[cur]);
        if (e) { uint64_t d = e->local - fibers[cur].local; if (d < b) b = d; }
    } else if (cfg.strategy == S_HOT && nrunnable > 1 && !fair_phase) b = 1;
    // housekeeping (timers, caps) happens at fixed step counts so that a replay,
    // which takes the slow path elsewhere, sees it at the same instants
    uint64_t al = HOUSE - total_steps % HOUSE;
    if (al < b) b = al;
    if (b == 0) b = 1;
    chunk_len = sim_budget = (int64_t)b;
}

static void check_caps() {
    if (total_steps > cfg.soft_steps && !fair_phase) {
        fair_phase = true;
        fair_start = total_steps;
        ev_left = 500;
        probe("fair_phase_entered");
    }
    if (total_steps > cfg.hard_steps) {
        char what[256]; int o = 0;
        what[0] = 0;
        for (int i = 0; i < nfibers && o < 200; ++i)
            if (fibers[i].state != FREE)
                o += snprintf(what + o, sizeof what - (size_t)o, " %d(%s,group %d)", i, fibers[i].state == RUNNABLE ? "runs" : fibers[i].obj == &fibers[i].sp ? "done" : fibers[i].is_cond ? "condvar" : "blocked", fibers[i].group);
        fail("no-progress", "still running after %llu scheduling points (fair scheduling, no faults for the last %llu), threads:%s",
             (unsigned long long)total_steps, (unsigned long long)(cfg.hard_steps - cfg.soft_steps), what);
    }
}

static int best_prio(int n) {
    int b = cand[0];
    for (int i = 1; i < n; ++i) if (fibers[cand[i]].prio > fibers[b].prio) b = cand[i];
    return b;
}

// involuntary switch decision.  `p` = probability for this point (sync) or 1 (planned event)
static void consider(void* pc, double p, bool planned) {
    Fiber& f = fibers[cur];
    if (replay) {
        SchedEntry* e = replay_next(f);
        if (e && e->local == f.local && e->type == SE_PREEMPT) {
            uint32_t t = e->target;
            ++f.rep_pos;
            if (t < (uint32_t)nfibers && (int)t != cur) {
                if (fibers[t].state == BLOCKED && fibers[t].deadline != NEVER) { fire_timer(fibers[t]); R->faults[F_TIMER_JUMP]++; }
                if (fibers[t].state == RUNNABLE) {
                    log_switch((uint32_t)cur, t, f.local, SE_PREEMPT);
                    R->preempts++; R->faults[F_PREEMPT]++;
                    do_switch((int)t, pc);
                }
            }
            return;
        }
        if (fair_phase && planned && nrunnable > 1) { int j = rr_next(); if (j >= 0 && j != cur) { log_switch((uint32_t)cur, (uint32_t)j, f.local, SE_PREEMPT); do_switch(j, pc); } }
        return;
    }
    // spontaneous events
    if (!fair_phase) {
        if (cfg.f_timer > 0 && srng.chance(cfg.f_timer)) {
            int n = 0;
            for (int i = 0; i < nfibers; ++i)
                if (fibers[i].state == BLOCKED && fibers[i].deadline != NEVER) cand[n++] = i;
            if (n) {
                int j = cand[srng.below((uint64_t)n)];
                fire_timer(fibers[j]);
                R->faults[F_TIMER_JUMP]++;
                log_switch((uint32_t)cur, (uint32_t)j, f.local, SE_PREEMPT);
                R->preempts++;
                do_switch(j, pc);
                return;
            }
        }
    }
    if (nrunnable <= 1) return;
    int j = -1;
    if (fair_phase) {
        if (planned) j = rr_next();
    } else if (cfg.strategy == S_PCT) {
        bool hit = false;
        if (planned) {
            for (int i = 0; i < pct_n; ++i) if (pct_points[i] == total_steps) { pct_points[i] = 0; hit = true; }
            if (hit || run_len >= 50000) f.prio = --prio_low;
        }
        int n = collect(false);
        if (n) j = best_prio(n);
    } else {
        bool go;
        if (planned) {
            if (cfg.strategy == S_SYNC) go = run_len >= 15000;
            else if (cfg.strategy == S_SEQ) go = run_len >= 90000;
            else go = true;
        } else go = cfg.strategy != S_SEQ && p > 0 && srng.chance(p);
        if (go) {
            int n = collect(true);
            if (n) j = cand[srng.below((uint64_t)n)];
        }
    }
    if (j >= 0 && j != cur) {
        if (cfg.f_stall > 0 && !fair_phase && srng.chance(cfg.f_stall)) {
            f.stalled_until = total_steps + 100 + srng.below(srng.chance(0.3) ? 100000 : 3000);
            R->faults[F_STALL]++;
        }
        log_switch((uint32_t)cur, (uint32_t)j, f.local, SE_PREEMPT);
        R->preempts++; R->faults[F_PREEMPT]++;
        do_switch(j, pc);
    }
}

static void housekeeping() {
    check_caps();
    check_timers();
}
NOINL static void slow(void* pc) {
    if (!in_sim || quiet) { chunk_len = sim_budget = (int64_t)1 << 62; return; }
    account();
    if (total_steps % HOUSE == 0) housekeeping();
    bool planned = ev_left == 0;
    if (planned) plan_event();
    if (planned || replay) consider(pc, 1, planned);
    refill();
}
NOINL static void slow_hot(const void* addr, void* pc, bool write) {
    if (!in_sim || quiet || !hot || fair_phase || replay || nrunnable <= 1) { slow(pc); return; }
    uint64_t a = (uint64_t)addr >> 2;
    uint32_t h = (uint32_t)((a * 0x9e3779b97f4a7c15ull) >> 48) & (HOT_N - 1);
    uint32_t tag = (uint32_t)a;
    Hot& e = hot[h];
    bool conflict = false;
    if (e.tag == tag) {
        if (e.owner != (uint8_t)cur) { if (write || e.wrote) e.multi = 1; e.owner = (uint8_t)cur; }
        if (write) e.wrote = 1;
        conflict = e.multi;
    } else { e.tag = tag; e.owner = (uint8_t)cur; e.wrote = write; e.multi = 0; }
    if (conflict && srng.chance(cfg.p_sync)) {
        account();
        if (total_steps % HOUSE == 0) housekeeping();
        int n = collect(true);
        if (n) {
            int j = cand[srng.below((uint64_t)n)];
            log_switch((uint32_t)cur, (uint32_t)j, fibers[cur].local, SE_PREEMPT);
            R->preempts++; R->faults[F_PREEMPT]++;
            if (cfg.f_stall > 0 && srng.chance(cfg.f_stall)) {
                fibers[cur].stalled_until = total_steps + 100 + srng.below(srng.chance(0.3) ? 100000 : 3000);
                R->faults[F_STALL]++;
            }
            do_switch(j, pc);
        }
        if (!ev_left) plan_event();
        refill();
        return;
    }
    slow(pc);
}

void sync_point(const void* addr, void* pc) {
    (void)addr;
    if (!in_sim || quiet) return;
    --sim_budget;
    account();
    R->sync_ops++;
    check_caps();
    check_timers();
    bool planned = ev_left == 0;
    if (planned) plan_event();
    consider(pc, cfg.p_sync, planned);
    refill();
}
void yield_point() { sync_point(nullptr, RA); }

bool block_on(const void* obj, uint64_t deadline) {
    Fiber& f = fibers[cur];
    account();
    check_caps();
    f.state = BLOCKED; f.obj = obj; f.deadline = deadline; f.timed_out = false;
    f.blocked_seq = ++block_counter;
    --nrunnable;
    check_timers();
    if (f.state == RUNNABLE) { refill(); return !f.timed_out; }
    int j = -1;
    int n = 0;
    bool choice = false;
    if (nrunnable == 0) {
        int b = -1;
        for (int i = 0; i < nfibers; ++i)
            if (fibers[i].state == BLOCKED && fibers[i].deadline != NEVER &&
                (b < 0 || fibers[i].deadline < fibers[b].deadline ||
                 (fibers[i].deadline == fibers[b].deadline && fibers[i].blocked_seq < fibers[b].blocked_seq))) b = i;
        if (b < 0) {
            char what[256]; int o = 0;
            for (int i = 0; i < nfibers && o < 200; ++i)
                if (fibers[i].state == BLOCKED) o += snprintf(what + o, sizeof what - o, " fiber%d(%s,group %d)", i, fibers[i].is_cond ? "condvar" : "wait", fibers[i].group);
            fail("deadlock", "every thread is blocked and no timer is pending:%s", what);
        }
        fire_timer(fibers[b]);
        check_timers();
        if (f.state == RUNNABLE && b == cur) { refill(); return !f.timed_out; }
        j = b;
    } else if (replay) {
        SchedEntry* e = replay_next(f);
        if (e && e->local == f.local && e->type == SE_BLOCK) {
            ++f.rep_pos;
            if (e->target < (uint32_t)nfibers && fibers[e->target].state == RUNNABLE) { j = (int)e->target; choice = true; }
        }
        if (j < 0) j = rr_next();
    } else {
        if (fair_phase || cfg.strategy == S_SEQ) j = rr_next();
        else {
            n = collect(true);
            if (cfg.strategy == S_PCT) j = best_prio(n);
            else j = cand[srng.below((uint64_t)n)];
        }
        choice = true;
    }
    if (choice) log_switch((uint32_t)cur, (uint32_t)j, f.local, SE_BLOCK);
    else hash_in(sched_hash, ((uint64_t)cur << 8) ^ (uint64_t)j ^ (f.local << 16));
    if (!ev_left) plan_event();
    if (j != cur) do_switch(j, RA);
    refill();
    return !fibers[cur].timed_out;
}
void wake_all(const void* obj) {
    for (int i = 0; i < nfibers; ++i)
        if (fibers[i].state == BLOCKED && fibers[i].obj == obj) { fibers[i].timed_out = false; make_runnable(fibers[i]); }
}
static bool wake_one(const void* obj) {
    int w[MAX_FIBERS], n = 0;
    for (int i = 0; i < nfibers; ++i)
        if (fibers[i].state == BLOCKED && fibers[i].obj == obj) w[n++] = i;
    if (!n) return false;
    // oldest first
    for (int a = 1; a < n; ++a)
        for (int b = a; b > 0 && fibers[w[b]].blocked_seq < fibers[w[b - 1]].blocked_seq; --b) std::swap(w[b], w[b - 1]);
    uint32_t k = n > 1 ? choose(F_WAKE_ORDER, cfg.f_wake, (uint32_t)n) : 0;
    fibers[w[k]].timed_out = false;
    make_runnable(fibers[w[k]]);
    return true;
}

static int new_fiber(void (*fn)(void*), void* arg, int grp) {
    int id = -1;
    for (int i = 0; i < nfibers; ++i) if (fibers[i].state == FREE && i != cur) { id = i; break; }
    if (id < 0) {
        if (nfibers >= MAX_FIBERS) fail("harness", "too many simulated threads");
        id = nfibers++;
        fibers[id].id = id;
        fibers[id].local = 0;
        fibers[id].rep_pos = 0;
    }
    Fiber& f = fibers[id];
    uint64_t loc = f.local, rp = f.rep_pos;
    memset(&f, 0, sizeof f);
    f.id = id; f.local = loc; f.rep_pos = rp;
    f.fn = fn; f.arg = arg; f.group = grp;
    f.deadline = NEVER;
    f.prio = replay ? 0 : (int)(1000 + srng.below(1000000));
    char* top = (char*)(STACK_BASE + STACK_SLOT * (uint64_t)(id + 1));
    void** sp = (void**)top;
    *--sp = nullptr;                    // alignment / fake return
    *--sp = (void*)&fiber_entry;        // ret target
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
    f.pc = (void*)fn;
    f.state = RUNNABLE;
    ++nrunnable;
    int live = 0;
    for (int i = 0; i < nfibers; ++i) if (fibers[i].state == RUNNABLE || fibers[i].state == BLOCKED) ++live;
    if (live > R->max_live) R->max_live = live;
    return id;
}
static void exit_switch() {     // current fiber never runs again
    Fiber& f = fibers[cur];
    (void)f;
    --nrunnable;
    // reuse block_on's selection logic
    ++nrunnable;
    block_on(&fibers[cur].sp, NEVER);
    __builtin_trap();
}
static void fiber_finish() {
    Fiber& f = fibers[cur];
    account();
    refill();
    if (f.pthread_like && !f.detached) {
        // stay DONE until joined
        int me = cur;
        wake_all(&fibers[me].fn);
        Fiber& ff = fibers[me];
        // leave via block_on with state fixed up afterwards: mark as finished
        ff.arg = (void*)1;  // finished marker read by join
        exit_switch();
    } else {
        // slot becomes free as soon as we have switched away; a fiber can only
        // be created by another running fiber, so mark it now
        int me = cur;
        fibers[me].arg = (void*)2;
        exit_switch();
    }
}

// finished fibers sit BLOCKED on &sp with arg marker; free them lazily
static void reap_team_fiber(int id) { fibers[id].state = FREE; fibers[id].obj = nullptr; }

int spawn(void (*fn)(void*), void* arg, int grp) {
    sync_point(nullptr, RA);
    int id = new_fiber(fn, arg, grp < 0 ? group() : grp);
    fibers[id].pthread_like = true;
    return id;
}
void join(int id) {
    sync_point(nullptr, RA);
    while (!(fibers[id].state == BLOCKED && fibers[id].obj == &fibers[id].sp)) block_on(&fibers[id].fn, NEVER);
    fibers[id].state = FREE; fibers[id].obj = nullptr;
}
void set_group(int fiber, int g) { fibers[fiber].group = g; }
void stall_group(int g, uint64_t n) {
    if (replay) return;             // the recorded schedule already contains its effect
    for (int i = 0; i < nfibers; ++i) if (fibers[i].state != FREE && fibers[i].group == g) fibers[i].stalled_until = total_steps + n;
}
bool all_fair() { return fair_phase; }
void check_write(const void* p, size_t n) { check_access(p, n, "write", RA); }

Quiet::Quiet() { if (in_sim) { if (!quiet) account(); ++quiet; chunk_len = sim_budget = (int64_t)1 << 62; } }
Quiet::~Quiet() { if (in_sim && quiet) { if (--quiet == 0) { chunk_len = sim_budget = 0; refill(); } } }

static void (*sim_body)();
static void main_entry(void*) {
    sim_body();
    finish_result();
    R->status = ST_OK;
    _exit(0);
}
static bool stacks_ready = false;
static void stacks_init() {
    if (stacks_ready) return;
    void* p = mmap((void*)STACK_BASE, STACK_SLOT * MAX_FIBERS, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)STACK_BASE) { (void)!::write(2, "stacks\n", 7); _exit(70); }
    // guard page at the low end of each slot
    for (int i = 0; i < MAX_FIBERS; ++i) mprotect((char*)STACK_BASE + STACK_SLOT * (uint64_t)i, 4096, PROT_NONE);
    stacks_ready = true;
}
void prepare() { stacks_init(); if (!hot) hot = (Hot*)mmap(nullptr, sizeof(Hot) * HOT_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }

void run_sim(uint64_t sseed, uint64_t fseed, void (*body)()) {
    prepare();
    __libc_single_threaded = 0;     // as in any process that has started a thread
    srng = Rng(sseed); frng = Rng(fseed);
    garbage_state = fseed * 77 + 5;
    if (cfg.garbage) R->faults[F_HEAP_GARBAGE]++;
    clock_base = 1700000000ull * 1000000000ull;
    clock_extra = 0; total_steps = 0; run_hash = 1; sched_hash = 1;
    for (int k = 0; k < F_NKINDS; ++k) fault_occ[k] = fault_cur[k] = 0;
    max_threads = cfg.threads;
    pct_n = 0;
    if (cfg.strategy == S_PCT) {
        pct_n = cfg.pct_depth > 15 ? 15 : cfg.pct_depth;
        for (int i = 0; i < pct_n; ++i) pct_points[i] = 1 + srng.below(cfg.pct_len);
    }
    sim_body = body;
    cur_arena = 1;
    in_sim = true;
    nfibers = 0; cur = -1; nrunnable = 0;
    int id = new_fiber(main_entry, nullptr, 0);
    cur = id;
    ev_left = 0; plan_event();
    tls_load(fibers[id]);
    chunk_len = sim_budget = 0;
    refill();
    sim_swap(&host_sp, fibers[id].sp);
}
}  // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------
// instrumentation callbacks
// ---------------------------------------------------------------------------
namespace sim {
static void bad_access(const void* a, size_t n, const char* what, void* pc) {
    if (!in_sim) return;
    // find the block header below, for the report
    const char* p = (const char*)((uint64_t)a & ~15ull);
    const char* lim = p - 4096 < (char*)ARENA_BASE[1] ? (const char*)ARENA_BASE[1] + 16 : p - 4096;
    for (; p >= lim; p -= 16) {
        const Hdr* h = (const Hdr*)(p - 16);
        if (h->magic == MAGIC || h->magic == MAGIC_FREE) break;
    }
    Dl_info di;
    const char* fn = dladdr(pc, &di) && di.dli_sname ? di.dli_sname : "?";
    const Hdr* h = (const Hdr*)(p - 16);
    bool fr = p >= lim && h->magic == MAGIC_FREE && (uint64_t)((const char*)a - p) < h->size;
    if (fr) fail("use-after-free", "%s of %zu bytes inside a freed block of %llu bytes, in %s (pc %p)", what, n, (unsigned long long)h->size, fn, pc);
    fail("out-of-bounds", "%s of %zu bytes outside every allocated block (%lld bytes into a block of %lld), in %s (pc %p)", what, n,
         p >= lim ? (long long)((const char*)a - p) : -1, p >= lim ? (long long)h->size : -1, fn, pc);
}
}
extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { check_access(d, n, "copy to", RA); check_access(s, n, "copy from", RA); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { check_access(d, n, "copy to", RA); check_access(s, n, "copy from", RA); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { check_access(d, n, "fill of", RA); return __real_memset(d, c, n); }
}
static inline constexpr size_t acc_size(const char* s) {
    size_t n = 0;
    for (; *s; ++s) if (*s >= '0' && *s <= '9') n = n * 10 + (size_t)(*s - '0');
    return n;
}
#define ACC(NAME, W) \
    extern "C" void NAME(void* a) { \
        constexpr size_t N = acc_size(#NAME); \
        check_access(a, N, W ? "write" : "read", RA); \
        if (__builtin_expect(--sim_budget <= 0, 0)) { if (cfg.strategy == S_HOT) slow_hot(a, RA, W); else slow(RA); } }
ACC(__tsan_read1, false) ACC(__tsan_read2, false) ACC(__tsan_read4, false) ACC(__tsan_read8, false) ACC(__tsan_read16, false)
ACC(__tsan_write1, true) ACC(__tsan_write2, true) ACC(__tsan_write4, true) ACC(__tsan_write8, true) ACC(__tsan_write16, true)
ACC(__tsan_unaligned_read2, false) ACC(__tsan_unaligned_read4, false) ACC(__tsan_unaligned_read8, false) ACC(__tsan_unaligned_read16, false)
ACC(__tsan_unaligned_write2, true) ACC(__tsan_unaligned_write4, true) ACC(__tsan_unaligned_write8, true) ACC(__tsan_unaligned_write16, true)
ACC(__tsan_volatile_read1, false) ACC(__tsan_volatile_read2, false) ACC(__tsan_volatile_read4, false) ACC(__tsan_volatile_read8, false) ACC(__tsan_volatile_read16, false)
ACC(__tsan_volatile_write1, true) ACC(__tsan_volatile_write2, true) ACC(__tsan_volatile_write4, true) ACC(__tsan_volatile_write8, true) ACC(__tsan_volatile_write16, true)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* a, unsigned long n) { check_access(a, n, "read", RA); __tsan_read1(a); }
void __tsan_write_range(void* a, unsigned long n) { check_access(a, n, "write", RA); __tsan_write1(a); }
void __tsan_vptr_update(void** a, void*) { __tsan_write8(a); }
void __tsan_vptr_read(void** a) { __tsan_read8(a); }
}
#define AT(N, T) \
extern "C" { \
T __tsan_atomic##N##_load(const volatile T* a, int) { sync_point((const void*)a, RA); return *a; } \
void __tsan_atomic##N##_store(volatile T* a, T v, int) { sync_point((const void*)a, RA); *a = v; } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = v; return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { sync_point((const void*)a, RA); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { sync_point((const void*)a, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { sync_point((const void*)a, RA); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { sync_point((const void*)a, RA); T o = *a; if (o == c) *a = v; return o; } \
}
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) { sync_point(nullptr, RA); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------
// OpenMP runtime (libgomp ABI)
// ---------------------------------------------------------------------------
namespace sim {
static WorkShare* team_ws(Team* t, uint64_t idx) {
    if (idx >= t->capws) {
        uint64_t nc = t->capws ? t->capws * 2 : 8;
        while (nc <= idx) nc *= 2;
        WorkShare** dummy = nullptr; (void)dummy;
        t->ws = (WorkShare*)realloc(t->ws, nc * sizeof(WorkShare));
        memset(t->ws + t->capws, 0, (nc - t->capws) * sizeof(WorkShare));
        t->capws = nc;
    }
    return &t->ws[idx];
}
static Team* my_team() {
    Fiber& f = fibers[cur];
    if (!f.team) {
        f.team = (Team*)calloc(1, sizeof(Team));
        f.team->n = 1;
        f.tid = 0;
    }
    return f.team;
}
static uint64_t shrink_chunk(uint64_t c) {
    if (cfg.chunk_scale > 1 && c > 1) {
        uint64_t n = c / (uint64_t)cfg.chunk_scale;
        if (n < 1) n = 1;
        if (n != c) R->faults[F_CHUNK]++;
        return n;
    }
    return c;
}
struct WArg { Team* t; int tid; };
static void team_worker(void* a) {
    WArg* w = (WArg*)a;
    Fiber& f = fibers[cur];
    f.team = w->t; f.tid = w->tid; f.ws_count = 0; f.cur_ws = nullptr;
    Team* t = w->t;
    t->fn(t->data);
    sync_point(t, RA);
    if (--t->remaining == 0) wake_all(&t->remaining);
}
static void run_team(void (*fn)(void*), void* data, unsigned nt, Team* t) {
    Fiber& f0 = fibers[cur];
    int n = (int)nt;
    bool nested = f0.team && f0.team->n > 1;
    if (n <= 0) n = nested ? 1 : max_threads;
    if (nested) n = 1;
    if (n > 1 && cfg.f_team > 0) {
        uint32_t k = choose(F_TEAM_SHRINK, cfg.f_team, (uint32_t)n);
        n -= (int)k;
    }
    t->n = n; t->fn = fn; t->data = data; t->remaining = n - 1;
    Team* saved = f0.team; int stid = f0.tid; uint64_t sws = f0.ws_count; WorkShare* scw = f0.cur_ws;
    WArg* wa = (WArg*)malloc(sizeof(WArg) * (size_t)(n + 1));
    int* ids = (int*)malloc(sizeof(int) * (size_t)(n + 1));
    for (int i = 1; i < n; ++i) {
        wa[i].t = t; wa[i].tid = i;
        ids[i] = new_fiber(team_worker, &wa[i], f0.group);
    }
    f0.team = t; f0.tid = 0; f0.ws_count = 0; f0.cur_ws = nullptr;
    sync_point(t, RA);
    fn(data);
    sync_point(t, RA);
    while (t->remaining > 0) block_on(&t->remaining, NEVER);
    for (int i = 1; i < n; ++i) {
        // every worker has left the region; let it run to its end
        while (!(fibers[ids[i]].state == BLOCKED && fibers[ids[i]].obj == &fibers[ids[i]].sp)) {
            // it only has to execute its exit path: hand over directly
            if (fibers[ids[i]].state == RUNNABLE) { account(); int j = ids[i]; fibers[cur].state = RUNNABLE; do_switch(j, RA); refill(); }
            else break;
        }
        reap_team_fiber(ids[i]);
    }
    Fiber& f1 = fibers[cur];
    f1.team = saved; f1.tid = stid; f1.ws_count = sws; f1.cur_ws = scw;
    free(wa); free(ids);
    if (t->ws) free(t->ws);
    free(t);
}
static void team_barrier() {
    Fiber& f = fibers[cur];
    Team* t = my_team();
    (void)f;
    sync_point(t, RA);
    if (t->n <= 1) return;
    uint64_t g = t->gen;
    if (++t->arrived == t->n) {
        t->arrived = 0; t->gen++;
        wake_all(&t->gen);
    } else {
        while (t->gen == g) block_on(&t->gen, NEVER);
    }
}
static bool ws_next(WorkShare* w, Team* t, uint64_t* s, uint64_t* e) {
    // values are stored normalised: next..end counted in iterations
    if (w->next >= w->end) return false;
    uint64_t left = w->end - w->next, c = w->chunk;
    if (w->dyn_guided) {
        uint64_t q = (left + (uint64_t)t->n - 1) / (uint64_t)t->n;
        if (cfg.chunk_scale > 1) { q = q / (uint64_t)cfg.chunk_scale; if (q < 1) q = 1; }
        if (q > c) c = q;
    }
    if (c > left) c = left;
    *s = w->next; *e = w->next + c;
    w->next += c;
    return true;
}
}  // namespace sim

namespace sim {
struct LoopDesc { uint64_t base; uint64_t incr; };
// per work-share origin and increment are kept in WorkShare.cpy
static bool loop_start(uint64_t start, uint64_t end, uint64_t incr, bool down, uint64_t chunk, bool guided, uint64_t* is, uint64_t* ie) {
    Team* t = my_team();
    sync_point(t, RA);
    Fiber& f = fibers[cur];
    uint64_t idx = f.ws_count++;
    WorkShare* w = team_ws(t, idx);
    if (!w->init) {
        w->init = true;
        uint64_t n;
        if (!down) n = (int64_t)end > (int64_t)start ? (end - start + incr - 1) / incr : 0;
        else { uint64_t d = (uint64_t)(-(int64_t)incr); n = (int64_t)start > (int64_t)end ? (start - end + d - 1) / d : 0; }
        w->next = 0; w->end = n; w->incr = incr;
        w->chunk = shrink_chunk(chunk ? chunk : 1);
        w->dyn_guided = guided;
        LoopDesc* ld = (LoopDesc*)malloc(sizeof(LoopDesc));
        ld->base = start; ld->incr = incr;
        w->cpy = ld;
    }
    f.cur_ws = (WorkShare*)(uintptr_t)(idx + 1);
    uint64_t a, b;
    if (!ws_next(w, t, &a, &b)) return false;
    LoopDesc* ld = (LoopDesc*)w->cpy;
    *is = ld->base + a * ld->incr; *ie = ld->base + b * ld->incr;
    return true;
}
static bool loop_next(uint64_t* is, uint64_t* ie) {
    Team* t = my_team();
    sync_point(t, RA);
    Fiber& f = fibers[cur];
    uint64_t idx = (uint64_t)(uintptr_t)f.cur_ws - 1;
    WorkShare* w = team_ws(t, idx);
    uint64_t a, b;
    if (!ws_next(w, t, &a, &b)) return false;
    LoopDesc* ld = (LoopDesc*)w->cpy;
    *is = ld->base + a * ld->incr; *ie = ld->base + b * ld->incr;
    return true;
}
static void par_loop(void (*fn)(void*), void* data, unsigned nt, long start, long end, long incr, long chunk, bool guided) {
    Team* t = (Team*)calloc(1, sizeof(Team));
    t->n = nt ? (int)nt : max_threads;
    WorkShare* w = team_ws(t, 0);
    w->init = true;
    uint64_t n;
    if (incr > 0) n = end > start ? (uint64_t)((end - start + incr - 1) / incr) : 0;
    else n = start > end ? (uint64_t)((start - end - incr - 1) / -incr) : 0;
    w->next = 0; w->end = n; w->incr = (uint64_t)incr;
    w->chunk = shrink_chunk(chunk > 0 ? (uint64_t)chunk : 1);
    w->dyn_guided = guided;
    LoopDesc* ld = (LoopDesc*)malloc(sizeof(LoopDesc));
    ld->base = (uint64_t)start; ld->incr = (uint64_t)incr;
    w->cpy = ld;
    struct Tr { void (*fn)(void*); void* data; } tr = { fn, data };
    run_team([](void* p) {
        Tr* q = (Tr*)p;
        Fiber& f = fibers[cur];
        f.ws_count = 1; f.cur_ws = (WorkShare*)(uintptr_t)1;
        q->fn(q->data);
    }, &tr, nt, t);
}
static Fiber* crit_owner = nullptr;
static char crit_obj;
static void crit_start(void* obj, Fiber** owner) {
    sync_point(obj, RA);
    while (*owner) block_on(obj, NEVER);
    *owner = &fibers[cur];
}
static void crit_end(void* obj, Fiber** owner) { *owner = nullptr; wake_all(obj); sync_point(obj, RA); }
static Fiber* atomic_owner = nullptr;
static char atomic_obj;
}  // namespace sim

extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    Team* t = (Team*)calloc(1, sizeof(Team));
    run_team(fn, data, nt, t);
}
void GOMP_barrier() { team_barrier(); }
bool GOMP_cancel(int, bool) { return false; }
void GOMP_critical_start() { crit_start(&crit_obj, &crit_owner); }
void GOMP_critical_end() { crit_end(&crit_obj, &crit_owner); }
void GOMP_critical_name_start(void** p) { crit_start(p, (Fiber**)p); }
void GOMP_critical_name_end(void** p) { crit_end(p, (Fiber**)p); }
void GOMP_atomic_start() { crit_start(&atomic_obj, &atomic_owner); }
void GOMP_atomic_end() { crit_end(&atomic_obj, &atomic_owner); }
bool GOMP_single_start() {
    Team* t = my_team();
    sync_point(t, RA);
    Fiber& f = fibers[cur];
    WorkShare* w = team_ws(t, f.ws_count++);
    w->init = true;
    return w->single_taken++ == 0;
}
void* GOMP_single_copy_start() {
    Team* t = my_team();
    sync_point(t, RA);
    Fiber& f = fibers[cur];
    uint64_t idx = f.ws_count++;
    WorkShare* w = team_ws(t, idx);
    w->init = true;
    f.cur_ws = (WorkShare*)(uintptr_t)(idx + 1);
    if (w->single_taken++ == 0) return nullptr;
    team_barrier();
    return team_ws(t, idx)->cpy;
}
void GOMP_single_copy_end(void* p) {
    Team* t = my_team();
    team_ws(t, (uint64_t)(uintptr_t)fibers[cur].cur_ws - 1)->cpy = p;
    team_barrier();
}
#define LOOPS(NAME, G) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start((uint64_t)s, (uint64_t)e, (uint64_t)i, i < 0, (uint64_t)c, G, (uint64_t*)is, (uint64_t*)ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next((uint64_t*)is, (uint64_t*)ie); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start(s, e, i, !up, c, G, (uint64_t*)is, (uint64_t*)ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((uint64_t*)is, (uint64_t*)ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { par_loop(fn, d, nt, s, e, i, c, G); }
LOOPS(dynamic, false) LOOPS(nonmonotonic_dynamic, false) LOOPS(guided, true) LOOPS(nonmonotonic_guided, true) LOOPS(static, false)
#define LOOPSR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return loop_start((uint64_t)s, (uint64_t)e, (uint64_t)i, i < 0, 1, false, (uint64_t*)is, (uint64_t*)ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next((uint64_t*)is, (uint64_t*)ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { par_loop(fn, d, nt, s, e, i, 1, false); }
LOOPSR(runtime) LOOPSR(maybe_nonmonotonic_runtime) LOOPSR(nonmonotonic_runtime)
void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { team_barrier(); return false; }
unsigned GOMP_sections_start(unsigned n) { uint64_t a, b; return loop_start(1, n + 1, 1, false, 1, false, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { uint64_t a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() {}
// tasks: executed immediately by the encountering thread (a legal schedule)
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    sync_point(nullptr, RA);
    if (cpyfn) {
        char* buf = (char*)malloc((size_t)(sz + al));
        char* arg = (char*)(((uintptr_t)buf + (uintptr_t)al - 1) & ~(uintptr_t)(al - 1));
        cpyfn(arg, data);
        fn(arg);
        free(buf);
    } else fn(data);
}
void GOMP_taskwait() { sync_point(nullptr, RA); }
void GOMP_taskyield() { sync_point(nullptr, RA); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
int omp_get_thread_num() { return cur >= 0 && fibers[cur].team ? fibers[cur].tid : 0; }
int omp_get_num_threads() { return cur >= 0 && fibers[cur].team ? fibers[cur].team->n : 1; }
int omp_get_max_threads() { return max_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return cur >= 0 && fibers[cur].team && fibers[cur].team->n > 1; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
int omp_get_thread_limit() { return 1 << 20; }
int omp_get_level() { return omp_in_parallel(); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
double omp_get_wtime() { return (double)now_ns() / 1e9; }
double omp_get_wtick() { return 1e-9; }
typedef struct { void* owner; } sim_omp_lock;
void omp_init_lock(sim_omp_lock* l) { *(int*)l = 0; }
void omp_destroy_lock(sim_omp_lock*) {}
void omp_set_lock(sim_omp_lock* l) { sync_point(l, RA); while (*(int*)l) block_on(l, NEVER); *(int*)l = 1; }
void omp_unset_lock(sim_omp_lock* l) { *(int*)l = 0; wake_all(l); sync_point(l, RA); }
int omp_test_lock(sim_omp_lock* l) { sync_point(l, RA); if (*(int*)l) return 0; *(int*)l = 1; return 1; }
}

// ---------------------------------------------------------------------------
// pthreads, futures, clocks
// ---------------------------------------------------------------------------
namespace sim {
struct PStart { void* (*fn)(void*); void* arg; };
static void pthread_tramp(void* p) {
    PStart s = *(PStart*)p;
    free(p);
    s.fn(s.arg);
}
// layout inside pthread_mutex_t: int[0] owner+1, int[1] recursion, int[4] kind (glibc __kind)
static inline int* mx(pthread_mutex_t* m) { return (int*)m; }
}  // namespace sim

extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!in_sim) { (void)!::write(2, "pthread_create outside simulation\n", 34); _exit(70); }
    PStart* s = (PStart*)malloc(sizeof(PStart));
    s->fn = fn; s->arg = arg;
    sync_point(nullptr, RA);
    int id = new_fiber(pthread_tramp, s, group());
    fibers[id].pthread_like = true;
    *t = (pthread_t)(id + 1);
    return 0;
}
int pthread_join(pthread_t t, void** r) { if (r) *r = nullptr; sim::join((int)t - 1); return 0; }
int pthread_detach(pthread_t t) { fibers[(int)t - 1].detached = true; return 0; }
pthread_t pthread_self() { return (pthread_t)(cur >= 0 ? cur + 1 : 1); }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t*) { return 0; }
int sched_setaffinity(pid_t, size_t, const cpu_set_t*) { return 0; }
int sched_yield() { sync_point(nullptr, RA); return 0; }

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    memset(m, 0, sizeof *m);
    if (a) { int k = 0; memcpy(&k, a, sizeof k); mx(m)[4] = k & 3; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!in_sim) return 0;
    sync_point(m, RA);
    int* w = mx(m);
    if (w[4] == PTHREAD_MUTEX_RECURSIVE_NP && w[0] == cur + 1) { w[1]++; return 0; }
    while (w[0]) { probe("mutex_contended"); block_on(m, NEVER); }
    w[0] = cur + 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!in_sim) return 0;
    sync_point(m, RA);
    int* w = mx(m);
    if (w[4] == PTHREAD_MUTEX_RECURSIVE_NP && w[0] == cur + 1) { w[1]++; return 0; }
    if (w[0]) return EBUSY;
    w[0] = cur + 1;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!in_sim) return 0;
    int* w = mx(m);
    if (w[4] == PTHREAD_MUTEX_RECURSIVE_NP && w[1] > 0) { w[1]--; return 0; }
    if (w[0] == 0) probe("unlock_of_free_mutex");
    else if (w[0] != cur + 1) probe("unlock_of_foreign_mutex");
    w[0] = 0;
    wake_all(m);
    sync_point(m, RA);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
}
namespace sim {
static bool cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline) {
    sync_point(c, RA);
    int* w = mx(m);
    w[0] = 0;
    wake_all(m);
    bool ok = true;
    if (choose(F_SPURIOUS_WAKE, cfg.f_spur, 2)) {
        // returns without having been notified: model as an immediate wakeup
        sync_point(c, RA);
    } else {
        fibers[cur].is_cond = true;
        ok = block_on(c, deadline);
    }
    while (w[0]) block_on(m, NEVER);
    w[0] = cur + 1;
    return ok;
}
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; }
}
extern "C" {
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { cond_wait(c, m, NEVER); return 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, in_sim ? ts_ns(t) - (uint64_t)wall_off[group() & 63] : ts_ns(t)) ? 0 : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return cond_wait(c, m, ts_ns(t)) ? 0 : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) { if (!in_sim) return 0; sync_point(c, RA); wake_one(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!in_sim) return 0; sync_point(c, RA); wake_all(c); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { int* w = (int*)l; sync_point(l, RA); while (w[1]) block_on(l, NEVER); w[0]++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { int* w = (int*)l; sync_point(l, RA); while (w[0] || w[1]) block_on(l, NEVER); w[1] = 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { int* w = (int*)l; if (w[1]) w[1] = 0; else w[0]--; wake_all(l); sync_point(l, RA); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    int* w = (int*)o;
    if (!in_sim) { if (*w != 2) { *w = 1; fn(); *w = 2; } return 0; }
    sync_point(o, RA);
    while (*w == 1) block_on(o, NEVER);
    if (*w == 2) return 0;
    *w = 1;
    fn();
    *w = 2;
    wake_all(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    if (in_sim) { sync_point(g, RA); while (b[1]) block_on(g, NEVER); if (b[0]) return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; if (in_sim) wake_all(g); }
void __cxa_guard_abort(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; if (in_sim) wake_all(g); }

int clock_gettime(clockid_t id, struct timespec* t) {
    uint64_t n;
    if (in_sim) n = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? wall_ns() : now_ns();
    else { struct timespec r; syscall(SYS_clock_gettime, CLOCK_REALTIME, &r); *t = r; return 0; }
    t->tv_sec = (time_t)(n / 1000000000ull); t->tv_nsec = (long)(n % 1000000000ull);
    return 0;
}
}
namespace sim {
static void maybe_clock_jump() {
    uint32_t k = choose(F_CLOCK_JUMP, cfg.f_clock, 8);
    static const uint64_t J[8] = { 0, 1000000ull, 50000000ull, 1000000000ull, 10000000000ull, 60000000000ull, 3600000000000ull, 86400000000000ull };
    if (k) clock_extra += J[k];
}
}
extern "C" {
int gettimeofday(struct timeval* tv, void*) {
    if (!in_sim) { struct timespec r; syscall(SYS_clock_gettime, CLOCK_REALTIME, &r); tv->tv_sec = r.tv_sec; tv->tv_usec = r.tv_nsec / 1000; return 0; }
    maybe_clock_jump();
    uint64_t n = wall_ns();
    tv->tv_sec = (time_t)(n / 1000000000ull); tv->tv_usec = (suseconds_t)(n % 1000000000ull / 1000);
    return 0;
}
time_t time(time_t* p) {
    time_t r;
    if (in_sim) r = (time_t)(wall_ns() / 1000000000ull);
    else { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); r = t.tv_sec; }
    if (p) *p = r;
    return r;
}
// randomness of the operating system: another value at every call, the same in a replay
static uint64_t os_random() {
    static uint64_t calls = 0;
    uint64_t a, b, x;
    memcpy(&a, &sim::cfg.p_mem, 8);
    memcpy(&b, &sim::cfg.p_sync, 8);
    x = a ^ (b << 1) ^ (++calls * 0x9e3779b97f4a7c15ull);
    x ^= x >> 31; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32;
    return x;
}
ssize_t getrandom(void* p, size_t n, unsigned) {
    for (size_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = (unsigned char)os_random();
    return (ssize_t)n;
}
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
uint32_t arc4random(void) { return (uint32_t)os_random(); }
int nanosleep(const struct timespec* t, struct timespec*) {
    if (!in_sim) return (int)syscall(SYS_nanosleep, t, nullptr);
    sync_point(nullptr, RA);
    block_on(t, now_ns() + ts_ns(t));
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* t, struct timespec*) {
    if (!in_sim) return 0;
    sync_point(nullptr, RA);
    block_on(t, flags & TIMER_ABSTIME ? ts_ns(t) : now_ns() + ts_ns(t));
    return 0;
}
int usleep(useconds_t u) { struct timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t = { (time_t)s, 0 }; nanosleep(&t, nullptr); return 0; }
void exit(int c) {
    if (in_sim && exit_handler) { auto h = exit_handler; exit_handler = nullptr; h(c); done(); }
    if (in_sim) fail("process-exit", "the program called exit(%d)", c);
    static void (*real)(int) = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    real(c);
    __builtin_unreachable();
}
}
namespace std {
void random_device::_M_init(const string&) { }
void random_device::_M_fini() { }
random_device::result_type random_device::_M_getval() { return (result_type)os_random(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
    if (*a != v) return true;
    return block_on(a, has ? (uint64_t)s.count() * 1000000000ull + (uint64_t)ns.count() : NEVER);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds ns) {
    return _M_futex_wait_until(a, v, has, s, ns);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { wake_all(a); sync_point(a, RA); }
}

// ---------------------------------------------------------------------------
// simulated files: paths under /simfs/ live in memfds; read/write get faults
// ---------------------------------------------------------------------------
namespace sim {
struct SFile { char path[200]; int fd; bool used, wfailed, rfailed, full; };
static SFile sfiles[64];
static int open_map[1024];      // fd -> file index + 1
static bool io_rd = false, io_wr = false;
static double rd_err = 0;
static SFile* sfind(const char* p, bool create) {
    for (auto& f : sfiles) if (f.used && !strcmp(f.path, p)) return &f;
    if (!create) return nullptr;
    for (auto& f : sfiles) if (!f.used) {
        f.used = true; f.wfailed = f.rfailed = f.full = false;
        snprintf(f.path, sizeof f.path, "%s", p);
        f.fd = (int)syscall(SYS_memfd_create, "simfs", 0);
        return &f;
    }
    fail("harness", "too many simulated files");
}
namespace fs {
void put(const std::string& path, const std::string& data) {
    SFile* f = sfind(path.c_str(), true);
    (void)!ftruncate(f->fd, 0);
    size_t o = 0;
    while (o < data.size()) { ssize_t w = syscall(SYS_pwrite64, f->fd, data.data() + o, data.size() - o, o); if (w <= 0) break; o += (size_t)w; }
}
bool get(const std::string& path, std::string* data) {
    SFile* f = sfind(path.c_str(), false);
    if (!f) return false;
    struct stat st; fstat(f->fd, &st);
    data->resize((size_t)st.st_size);
    size_t o = 0;
    while (o < data->size()) { ssize_t r = syscall(SYS_pread64, f->fd, &(*data)[o], data->size() - o, o); if (r <= 0) break; o += (size_t)r; }
    return true;
}
void remove(const std::string& path) { SFile* f = sfind(path.c_str(), false); if (f) { close(f->fd); f->used = false; } }
bool write_failed(const std::string& path) { SFile* f = sfind(path.c_str(), false); return f && f->wfailed; }
bool read_failed(const std::string& path) { SFile* f = sfind(path.c_str(), false); return f && f->rfailed; }
void enable(bool rd, bool wr, double read_errors) { io_rd = rd; io_wr = wr; rd_err = read_errors; }
}
static FILE* real_fopen(const char* p, const char* m) {
    static FILE* (*r)(const char*, const char*) = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    return r(p, m);
}
static FILE* sim_fopen(const char* p, const char* m) {
    char rel[180];
    if (in_sim && p[0] != '/') { if (group()) snprintf(rel, sizeof rel, "/simfs/r%d/%s", group(), p); else snprintf(rel, sizeof rel, "/simfs/%s", p); p = rel; }     // working directory
    if (strncmp(p, "/simfs/", 7) != 0) return real_fopen(p, m);
    bool wr = strchr(m, 'w') || strchr(m, 'a');
    sync_point(nullptr, RA);
    if (wr && io_wr && choose(F_IO_OPEN_FAIL, cfg.f_io * 0.05, 2)) { errno = EACCES; SFile* f = sfind(p, true); f->wfailed = true; return nullptr; }
    SFile* f = sfind(p, wr);
    if (!f) { errno = ENOENT; return nullptr; }
    if (!wr && io_rd && choose(F_IO_OPEN_FAIL, cfg.f_io * 0.1 * rd_err, 2)) { errno = EMFILE; f->rfailed = true; return nullptr; }
    char b[64];
    snprintf(b, sizeof b, "/proc/self/fd/%d", f->fd);
    FILE* r = real_fopen(b, m);
    if (r) { int fd = fileno(r); if (fd < 1024) open_map[fd] = (int)(f - sfiles) + 1; }
    return r;
}
}
extern "C" {
FILE* fopen(const char* p, const char* m) { return sim_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
int fclose(FILE* f) {
    int fd = fileno(f);
    static int (*r)(FILE*) = (int (*)(FILE*))dlsym(RTLD_NEXT, "fclose");
    int idx = fd >= 0 && fd < 1024 ? open_map[fd] : 0;
    if (!idx) return r(f);
    open_map[fd] = 0;
    SFile& sf = sfiles[idx - 1];
    if (in_sim && io_wr && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) {
        // written back late: the data is lost and only close() tells
        struct stat st;
        fstat(fd, &st);
        uint32_t k = st.st_size > 0 ? choose(F_IO_EIO_WRITE, cfg.f_io * 0.05, st.st_size < 1000000 ? (uint32_t)st.st_size + 1 : 1000000) : 0;
        if (k) { (void)!ftruncate(fd, (off_t)k - 1); sf.wfailed = true; r(f); errno = EIO; return EOF; }
    }
    return r(f);
}
ssize_t read(int fd, void* b, size_t n) {
    if (in_sim && fd >= 0 && fd < 1024 && open_map[fd]) {
        sync_point(nullptr, RA);
        if (io_rd) {
            if (choose(F_IO_EINTR, cfg.f_io, 2)) { errno = EINTR; return -1; }
            if (choose(F_IO_EIO_READ, cfg.f_io * 0.1 * rd_err, 2)) { errno = EIO; sfiles[open_map[fd] - 1].rfailed = true; return -1; }
            if (n > 1) { uint32_t k = choose(F_IO_SHORT_READ, cfg.f_io, n < 64 ? (uint32_t)n : 64); if (k) n = k; }
        }
    }
    return syscall(SYS_read, fd, b, n);
}
static int wr_fault(int fd, size_t* n) {
    SFile& f = sfiles[open_map[fd] - 1];
    if (f.full) { errno = ENOSPC; return -1; }
    if (choose(F_IO_EINTR, cfg.f_io, 2)) { errno = EINTR; return -1; }
    uint32_t lim = *n < 1000000 ? (uint32_t)*n : 1000000;
    // the disk fills up after k - 1 bytes of this write
    if (uint32_t k = choose(F_IO_ENOSPC, cfg.f_io * 0.05, lim + 1)) {
        f.wfailed = f.full = true;
        if (k == 1) { errno = ENOSPC; return -1; }
        *n = k - 1;
        return 0;
    }
    if (choose(F_IO_EIO_WRITE, cfg.f_io * 0.05, 2)) { f.wfailed = true; errno = EIO; return -1; }
    if (*n > 1) { uint32_t k = choose(F_IO_SHORT_WRITE, cfg.f_io, lim); if (k) *n = k; }
    return 0;
}
ssize_t write(int fd, const void* b, size_t n) {
    if (in_sim && fd >= 0 && fd < 1024 && open_map[fd]) {
        sync_point(nullptr, RA);
        if (io_wr && wr_fault(fd, &n)) return -1;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (in_sim && fd >= 0 && fd < 1024 && open_map[fd]) {
        sync_point(nullptr, RA);
        size_t tot = 0;
        for (int i = 0; i < c; ++i) tot += v[i].iov_len;
        size_t n = tot;
        if (io_wr && wr_fault(fd, &n)) return -1;
        if (n < tot) {
            size_t done = 0;
            for (int i = 0; i < c && done < n; ++i) {
                size_t k = v[i].iov_len < n - done ? v[i].iov_len : n - done;
                ssize_t w = syscall(SYS_write, fd, v[i].iov_base, k);
                if (w < 0) return done ? (ssize_t)done : -1;
                done += (size_t)w;
                if ((size_t)w < k) break;
            }
            return (ssize_t)done;
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
}

// Simulated message passing.  A rank is a group of fibers.  Messages between one pair of ranks
// keep their order (the standard's non-overtaking rule, and what every transport does); messages
// of different senders are delayed and reordered against each other.  Small messages are
// buffered at the send, larger ones block until they are received.
#include "rt_int.h"
#include "mpi_sim.h"
#include "../shim/mpi/mpi.h"

#include <string.h>
#include <deque>
#include <map>
#include <vector>

namespace sim {
namespace mpi {
struct Msg { int src, tag; std::vector<char> data; uint64_t visible; uint64_t seq; bool sync; bool* taken; };
struct Coll { int arrived = 0; int kind = 0; int left = 0; size_t bytes = 0; std::vector<char> acc; bool have = false; int root = -1; };
struct World {
    int size = 1;
    size_t eager = 1 << 16;
    std::vector<std::deque<Msg> > inbox;
    std::vector<std::vector<uint64_t> > last;        // per (src, dst): latest visible time
    std::vector<uint64_t> collseq;
    std::map<uint64_t, Coll> coll;
    std::vector<std::pair<int, uint64_t> > reqs;     // 0: done, 1: barrier #
    uint64_t seq = 0, sent = 0, delayed = 0;
};
static World* w;
void init(int size, size_t eager) {
    w = new World;
    w->size = size; w->eager = eager;
    w->inbox.resize((size_t)size);
    w->last.assign((size_t)size, std::vector<uint64_t>((size_t)size, 0));
    w->collseq.assign((size_t)size, 0);
}
static World& W() { if (!w) init(1, 1 << 16); return *w; }
size_t pending(int tag) {
    size_t n = 0;
    for (auto& q : W().inbox) for (auto& m : q) if (m.tag == tag) ++n;
    return n;
}
uint64_t sent() { return W().sent; }
static size_t tsize(MPI_Datatype t) { return (size_t)(t & 0xff); }

static void fault_point() {
    sync_point(nullptr, __builtin_return_address(0));
    uint32_t k = choose(F_RANK_STALL, cfg.f_msg * 0.05, 4);
    if (k) { static const uint64_t D[] = { 0, 500, 5000, 60000 }; stall_group(group(), D[k]); sync_point(nullptr, __builtin_return_address(0)); }
}
static uint64_t arrival(int src, int dst) {
    static const uint64_t D[] = { 0, 1, 20, 300, 3000, 30000 };      // in scheduling points
    uint32_t k = choose(F_MSG_DELAY, cfg.f_msg, 6);
    uint64_t t = now_ns() + D[k] * cfg.ns_per_step;
    auto& l = W().last[(size_t)src][(size_t)dst];
    if (t < l) t = l;
    l = t;
    return t;
}
static void post(const void* b, size_t n, int dst, int tag, bool sync) {
    if (dst < 0 || dst >= W().size) fail("mpi-error", "message to rank %d of %d", dst, W().size);
    bool taken = false;
    {
        Quiet q;
        Msg m { group(), tag, std::vector<char>((const char*)b, (const char*)b + n), 0, ++W().seq, sync, sync ? &taken : nullptr };
        m.visible = arrival(group(), dst);
        W().inbox[(size_t)dst].push_back(m);
        W().sent++;
    }
    wake_all(&W().inbox[(size_t)dst]);
    while (sync && !taken) { probe("mpi_send_blocked"); block_on(&taken, NEVER); }
}
// index of a visible matching message of this rank, or -1; *next = when one becomes visible
static long match(int src, int tag, uint64_t* next) {
    auto& q = W().inbox[(size_t)group()];
    std::vector<long> c;
    std::vector<uint8_t> seen((size_t)W().size, 0);
    *next = NEVER;
    uint64_t t = now_ns();
    for (size_t i = 0; i < q.size(); ++i) {
        Msg& m = q[i];
        if ((src != MPI_ANY_SOURCE && m.src != src) || (tag != MPI_ANY_TAG && m.tag != tag)) continue;
        if (seen[(size_t)m.src]) continue;          // only the oldest per sender
        seen[(size_t)m.src] = 1;
        if (m.visible > t && !all_fair()) { if (m.visible < *next) *next = m.visible; continue; }
        c.push_back((long)i);
    }
    if (c.empty()) return -1;
    uint32_t k = c.size() > 1 ? choose(F_MSG_DELAY, cfg.f_msg, (uint32_t)c.size()) : 0;
    return c[k];
}
}  // namespace mpi
}  // namespace sim
using namespace sim;
using namespace sim::mpi;

extern "C" {
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int, int* p) { if (p) *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int c) { fail("process-exit", "MPI_Abort(%d)", c); }
int MPI_Comm_rank(MPI_Comm, int* r) { *r = W().size > 1 ? group() : 0; return 0; }
int MPI_Comm_size(MPI_Comm, int* s) { *s = W().size; return 0; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm, MPI_Request* r) {
    fault_point();
    post(b, (size_t)n * tsize(t), dst, tag, false);
    Quiet q;
    W().reqs.push_back({ 0, 0 });
    *r = (int)W().reqs.size() - 1;
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
    fault_point();
    size_t k = (size_t)n * tsize(t);
    post(b, k, dst, tag, k > W().eager);
    return 0;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
    fault_point();
    post(b, (size_t)n * tsize(t), dst, tag, true);
    return 0;
}
static void fill(MPI_Status* s, const Msg& m) { if (s) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = 0; s->bytes = m.data.size(); } }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* s) {
    fault_point();
    auto& q = W().inbox[(size_t)group()];
    for (;;) {
        uint64_t next;
        long i;
        { Quiet qq; i = match(src, tag, &next); }
        if (i >= 0) {
            Quiet qq;
            Msg m = q[(size_t)i];
            q.erase(q.begin() + i);
            if (m.data.size() > (size_t)n * tsize(t)) fail("mpi-truncated", "message of %zu bytes (tag %d from %d) received into %zu", m.data.size(), m.tag, m.src, (size_t)n * tsize(t));
            if (!m.data.empty()) { check_write(b, m.data.size()); memcpy(b, m.data.data(), m.data.size()); }
            fill(s, m);
            if (m.taken) { *m.taken = true; wake_all(m.taken); }
            return 0;
        }
        block_on(&q, next);
    }
}
int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* s) {
    fault_point();
    uint64_t next;
    long i;
    auto& q = W().inbox[(size_t)group()];
    { Quiet qq; i = match(src, tag, &next); if (i >= 0) fill(s, q[(size_t)i]); }
    *flag = i >= 0;
    return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm, MPI_Status* s) {
    fault_point();
    auto& q = W().inbox[(size_t)group()];
    for (;;) {
        uint64_t next; long i;
        { Quiet qq; i = match(src, tag, &next); if (i >= 0) fill(s, q[(size_t)i]); }
        if (i >= 0) return 0;
        block_on(&q, next);
    }
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = (int)(s->bytes / tsize(t)); return 0; }
static Coll& enter(int kind, uint64_t* id) {
    Quiet q;
    uint64_t k = W().collseq[(size_t)group()]++;
    *id = k;
    Coll& c = W().coll[k];
    if (c.arrived && c.kind != kind) fail("mpi-error", "ranks call different collective operations");
    c.kind = kind;
    c.arrived++;
    return c;
}
static bool complete(uint64_t id) { return W().coll[id].arrived == W().size; }
static void leave(uint64_t id) { Quiet q; Coll& c = W().coll[id]; if (++c.left == W().size) W().coll.erase(id); }
int MPI_Ibarrier(MPI_Comm, MPI_Request* r) {
    fault_point();
    uint64_t id;
    Coll& c = enter(1, &id);
    { Quiet q; W().reqs.push_back({ 1, id }); *r = (int)W().reqs.size() - 1; }
    if (c.arrived == W().size) wake_all(&W().coll);
    return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status*) {
    fault_point();
    if (*r < 0) { *flag = 1; return 0; }
    auto& q = W().reqs[(size_t)*r];
    bool done;
    { Quiet qq; done = q.first == 0 || complete(q.second); }
    if (done) { if (q.first) leave(q.second); *r = MPI_REQUEST_NULL; *flag = 1; return 0; }
    *flag = 0;
    // a polling loop: let the others run for a moment
    block_on(&W().coll, now_ns() + 50 * cfg.ns_per_step);
    return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status*) {
    fault_point();
    if (*r < 0) return 0;
    auto q = W().reqs[(size_t)*r];
    while (q.first && !complete(q.second)) block_on(&W().coll, NEVER);
    if (q.first) leave(q.second);
    *r = MPI_REQUEST_NULL;
    return 0;
}
int MPI_Request_free(MPI_Request* r) { *r = MPI_REQUEST_NULL; return 0; }
int MPI_Barrier(MPI_Comm) {
    fault_point();
    uint64_t id;
    enter(2, &id);
    if (complete(id)) wake_all(&W().coll);
    while (!complete(id)) block_on(&W().coll, NEVER);
    leave(id);
    return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) {
    fault_point();
    uint64_t id;
    Coll& c = enter(3, &id);
    {
        Quiet q;
        size_t b = (size_t)n * tsize(t);
        if (!c.have) { c.acc.assign((const char*)in, (const char*)in + b); c.have = true; }
        else if (c.acc.size() != b) fail("mpi-error", "Allreduce with different sizes");
        else for (int i = 0; i < n; ++i) {
            int64_t x = 0, y = 0;
            size_t z = tsize(t);
            if (z == 8) { memcpy(&x, &c.acc[(size_t)i * 8], 8); memcpy(&y, (const char*)in + i * 8, 8); }
            else { int a, d; memcpy(&a, &c.acc[(size_t)i * z], z); memcpy(&d, (const char*)in + (size_t)i * z, z); x = a; y = d; }
            int64_t r = op == MPI_MIN ? (x < y ? x : y) : op == MPI_MAX ? (x > y ? x : y) : op == MPI_SUM ? x + y : op == MPI_LOR ? (x || y) : (x && y);
            if (z == 8) memcpy(&c.acc[(size_t)i * 8], &r, 8);
            else { int a = (int)r; memcpy(&c.acc[(size_t)i * z], &a, z); }
        }
    }
    if (complete(id)) wake_all(&W().coll);
    while (!complete(id)) block_on(&W().coll, NEVER);
    { Quiet q; Coll& d = W().coll[id]; memcpy(out, d.acc.data(), d.acc.size()); }
    leave(id);
    return 0;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm) {
    fault_point();
    if (root < 0 || root >= W().size) fail("mpi-error", "broadcast from rank %d of %d", root, W().size);
    uint64_t id;
    Coll& c = enter(4, &id);
    {
        Quiet q;
        if (c.root >= 0 && c.root != root) fail("mpi-error", "ranks disagree on the root of a broadcast (%d, %d)", c.root, root);
        c.root = root;
        if (group() == root || W().size == 1) { c.acc.assign((const char*)b, (const char*)b + (size_t)n * tsize(t)); c.have = true; }
    }
    wake_all(&W().coll);
    while (!W().coll[id].have) block_on(&W().coll, NEVER);
    if (group() != root && W().size > 1) {
        Quiet q;
        Coll& d = W().coll[id];
        if (d.acc.size() != (size_t)n * tsize(t)) fail("mpi-error", "broadcast of %zu bytes received into %zu", d.acc.size(), (size_t)n * tsize(t));
        check_write(b, d.acc.size());
        memcpy(b, d.acc.data(), d.acc.size());
    }
    leave(id);
    return 0;
}
}

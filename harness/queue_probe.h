// The real work queue with every hand-in and hand-out recorded (included before the solver).
#pragma once
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <vector>
#define per_thread_problem_queue recorded_problem_queue
#include "algorithms/multicut/problem_queues/per_thread_problem_queue.h"
#undef per_thread_problem_queue

// set while the time limit of a simulated process has certainly expired
// (scheduling point at which the clock passed it, 0: not yet or the clock is back)
inline uint64_t& limit_expired(int rank) { static uint64_t e[64]; return e[rank & 63]; }
// subproblems that came from another process: adding them creates no new work
inline std::set<const void*>& received_subproblems() { static std::set<const void*> s; return s; }
class per_thread_problem_queue : public recorded_problem_queue {
 public:
    using recorded_problem_queue::recorded_problem_queue;
    struct Entry { FlowType lower; int pulled; problemPointer keep; };
    std::vector<Entry> all;                     // never frees a recorded subproblem: pointers stay unique
    std::map<const void*, size_t> where;
    FlowType bound = (FlowType)1 << 60;
    // time limit: a subproblem taken after the limit expired is dropped.  A worker may work on one
    // at most (it could have looked at the clock just before taking it).  A worker that took one
    // that is not pruned and comes back for another one has told everybody that the time is up:
    // from then on nobody may create new work, even if the clock is set back.
    struct Late { bool late = false, after_stop = false; int worked = 0; FlowType lower = 0; };
    std::map<int, Late> late;                   // per thread, about the last subproblem it took
    bool stopped = false;
    uint64_t born = sim::steps();               // the solver's timer has been started by then
    bool expired() { return limit_expired(sim::group()) > born; }
    static bool& cut_off() { static bool c; return c; } // a time limit may leave work behind

    size_t addProblem(problemPointer p, size_t local_id, bool preferLocal) {
        {
            sim::Quiet q;
            bool foreign = received_subproblems().erase(p.get());
            Late& l = late[sim::cur_fiber()];
            if (l.late && expired() && !foreign) { l.late = false; if (++l.worked > 1) sim::fail("ignores-limit", "a worker worked on two subproblems that it took after the time limit had expired"); }
            if (l.after_stop && !foreign) sim::fail("works-after-limit", "a worker created a new subproblem from one it took after every worker was told that the time is up");
            // a subproblem object may be handed in again after it was pulled
            where[p.get()] = all.size();
            all.push_back({ p->lower_bound, 0, p });
        }
        return recorded_problem_queue::addProblem(p, local_id, preferLocal);
    }
    std::optional<problemPointer> pullProblem(size_t local_id, bool sending) {
        auto r = recorded_problem_queue::pullProblem(local_id, sending);
        if (r.has_value() && r.value()) {
            sim::Quiet q;
            auto it = where.find(r.value().get());
            if (it == where.end()) sim::fail("unknown-subproblem", "a worker was handed a subproblem that was never added");
            Entry& e = all[it->second];
            Late& l = late[sim::cur_fiber()];
            if (l.late && expired() && l.lower < bound && !stopped) { stopped = true; sim::probe("stop_reached_others"); }
            l.late = !sending && expired();
            l.lower = e.lower;
            l.after_stop = !sending && stopped;
            if (e.pulled++) sim::fail("duplicate", "a subproblem with lower bound %lld was handed out twice", (long long)e.lower);
        }
        return r;
    }
    void prepareQueue(size_t local_id, FlowType b) {
        { sim::Quiet q; if (b < bound) bound = b; }
        recorded_problem_queue::prepareQueue(local_id, b);
    }
    ~per_thread_problem_queue() {
        sim::Quiet q;
        if (cut_off()) return;
        size_t lost = 0; FlowType lb = 0;
        for (auto& e : all) if (!e.pulled && e.lower < bound) { ++lost; lb = e.lower; }
        if (lost) sim::fail("lost", "%zu subproblem(s) were added and never handed out, e.g. lower bound %lld with best known value %lld", lost, (long long)lb, (long long)bound);
        if (all.size() > 1) sim::probe("queue_used");
    }
};

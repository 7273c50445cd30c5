// Every subproblem that travels between ranks is compared with what was sent (included before the solver).
#pragma once
#include <deque>
#include <optional>
#include <variant>
#include <map>
#include <string>
#include "tools/random_functions.h"
#define mpi_communication real_mpi_communication
#include "algorithms/multicut/mpi_communication.h"
#undef mpi_communication
#include "sim/mpi_sim.h"

namespace mpiprobe {
struct Log { std::map<std::pair<int, int>, std::deque<std::vector<std::string> > > sent; uint64_t n = 0; };
inline Log*& log() { static Log* l = nullptr; return l; }
inline std::string num(uint64_t x) { return x == ~0ull || x == 0xffffffffull ? "-" : std::to_string(x); }
inline std::vector<std::string> digest(problemPointer p) {
    std::string b = "lower " + std::to_string((long long)p->lower_bound) + " upper " + std::to_string((long long)p->upper_bound) + " deleted " + num(p->deleted_weight);
    std::string pr = "priority edge " + num(p->priority_edge.first) + "," + num(p->priority_edge.second);
    std::string t = "terminals", m = "mappings", g, pos = "positions", con = "contained";
    for (auto& x : p->terminals) t += " " + num(x.position) + ":" + num(x.original_id);
    for (auto& x : p->mappings) { m += " ["; for (auto v : *x) m += " " + num(v); m += "]"; }
    auto& G = *p->graph;
    std::map<std::pair<NodeID, NodeID>, uint64_t> e;
    for (NodeID v : G.nodes()) for (EdgeID i : G.edges_of(v)) e[{ v, G.getEdgeTarget(v, i) }] += G.getEdgeWeight(v, i);
    g = "graph n " + num(G.n()) + " m " + num(G.m()) + " original " + num(G.getOriginalNodes());
    for (auto& x : e) g += " " + num(x.first.first) + "-" + num(x.first.second) + ":" + num(x.second);
    for (NodeID v = 0; v < G.getOriginalNodes(); ++v) pos += " " + num(G.getCurrentPosition(v));
    return { b, pr, t, m, g, pos };
}
}  // namespace mpiprobe

class mpi_communication : public real_mpi_communication {
 public:
    using real_mpi_communication::real_mpi_communication;
    void sendProblem(problemPointer problem, size_t tgt) {
        { sim::Quiet q; mpiprobe::log()->sent[{ sim::group(), (int)tgt }].push_back(mpiprobe::digest(problem)); ++mpiprobe::log()->n; }
        real_mpi_communication::sendProblem(problem, tgt);
        sim::probe("subproblem_sent");
        if (problem->mappings.size() > 1) sim::probe("subproblem_sent_simplified_twice");
    }
    problemPointer recvProblem(size_t src) {
        auto p = real_mpi_communication::recvProblem(src);
        sim::Quiet q;
        auto& s = mpiprobe::log()->sent[{ (int)src, sim::group() }];
        if (s.empty()) sim::fail("unknown-subproblem", "rank %d received a subproblem that rank %d did not send", sim::group(), (int)src);
        auto want = s.front(); s.pop_front();
        auto got = mpiprobe::digest(p);
        for (size_t i = 0; i < want.size(); ++i)
            if (want[i] != got[i]) sim::fail("changed-subproblem", "sent %s, received %s", want[i].c_str(), got[i].c_str());
        received_subproblems().insert(p.get());
        return p;
    }
};

// Turns a reference graph into the repository's representations.
#pragma once
#include <memory>
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "graphs.h"

namespace wl {
inline std::vector<std::vector<std::pair<uint32_t, uint64_t> > > adjacency(const ora::Graph& g) {
    std::vector<std::vector<std::pair<uint32_t, uint64_t> > > a(g.n);
    for (auto& e : g.e) { a[e.u].push_back({ e.v, e.w }); a[e.v].push_back({ e.u, e.w }); }
    return a;
}
template <class T> struct Make;
template <> struct Make<graphAccessPtr> {
    static graphAccessPtr make(const ora::Graph& g) {
        sim::Quiet q;
        auto a = adjacency(g);
        auto G = std::make_shared<graph_access>();
        G->start_construction(g.n, 2 * g.e.size());
        for (uint32_t v = 0; v < g.n; ++v) {
            G->new_node();
            for (auto& x : a[v]) { EdgeID e = G->new_edge(v, x.first); G->setEdgeWeight(e, x.second); }
            G->setPartitionIndex(v, 0);
        }
        G->finish_construction();
        G->computeDegrees();
        return G;
    }
};
template <> struct Make<mutableGraphPtr> {
    static mutableGraphPtr make(const ora::Graph& g) {
        sim::Quiet q;
        auto G = std::make_shared<mutable_graph>();
        G->start_construction(g.n);
        auto a = adjacency(g);
        for (uint32_t v = 0; v < g.n; ++v) {
            G->new_node();
            for (auto& x : a[v]) G->new_edge(v, x.first, x.second);
        }
        G->finish_construction();
        G->computeDegrees();
        return G;
    }
};
}

// Executable reference models.  Compiled without instrumentation.
#pragma once
#include <cstdint>
#include <set>
#include <vector>

namespace ora {
struct E { uint32_t u, v; uint64_t w; };
struct Graph { uint32_t n = 0; std::vector<E> e; };      // simple, no self-loops

// weight of a minimum cut (0 if disconnected); Stoer-Wagner
uint64_t mincut(const Graph& g);
// all minimum cuts, each as the side not containing vertex 0 (bitmask, n <= 64).
// false if there are more than limit.
bool all_mincuts(const Graph& g, uint64_t lambda, std::set<uint64_t>* out, size_t limit);
// minimum s-t cut
uint64_t st_mincut(const Graph& g, const std::vector<uint32_t>& s, const std::vector<uint32_t>& t);
uint64_t cut_weight(const Graph& g, const std::vector<uint8_t>& side);
// is some cut's weight w?  Tries every cut: only for small graphs
bool some_cut_weighs(const Graph& g, uint64_t w);
uint64_t min_degree(const Graph& g);
uint32_t components(const Graph& g, std::vector<uint32_t>* id = nullptr);
// weight of a minimum multiterminal cut (branch and bound); ~0 if the node limit is exceeded
uint64_t multiterminal(const Graph& g, const std::vector<uint32_t>& terminals, uint64_t node_limit);
uint64_t partition_cut(const Graph& g, const std::vector<uint32_t>& block);
}

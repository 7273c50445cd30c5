// Small graphs with two edges that share a vertex, where contracting either of them keeps the minimum cut
// (Padberg-Rinaldi tests 3 and 4 allow it with the degrees of the graph) and contracting both does not:
// vertices, then end points and weight of every edge.
#pragma once
#include <sstream>
#include "graphs.h"
namespace wl {
const char* const CONTESTED[] = {
    "6 0 1 2 0 2 1 0 3 2 0 5 1 1 2 3 3 4 2 3 5 3 4 5 4",
    "7 0 1 1 0 2 3 1 2 2 1 3 1 1 5 2 3 4 3 3 5 3 3 6 1 4 5 3 4 6 1 5 6 2",
    "7 0 1 2 0 2 1 1 2 1 2 3 1 2 4 1 3 4 1 3 5 2 4 5 1 4 6 2 5 6 1",
    "6 0 1 1 0 2 1 0 3 1 0 5 1 1 2 3 3 5 3 4 5 3",
    "5 0 2 1 0 3 3 1 2 1 1 4 2 2 3 1 2 4 1",
    "6 0 1 1 0 2 2 0 3 1 0 5 2 1 2 3 1 3 1 3 4 3 3 5 3 4 5 3",
    "7 0 1 2 0 2 1 0 6 2 1 2 2 2 6 1 3 4 2 3 5 2 4 5 1 4 6 2 5 6 1",
    "6 0 1 2 0 2 1 0 3 2 0 5 1 1 2 4 3 4 3 3 5 4 4 5 4",
    "7 0 1 4 0 2 3 1 2 3 2 3 3 2 5 3 3 4 2 3 5 3 3 6 3 4 5 2 4 6 3 5 6 4",
    "6 0 1 2 0 2 1 1 2 1 2 3 1 2 5 1 3 4 2 3 5 2 4 5 2",
    "5 0 3 2 0 4 3 1 2 6 1 3 3 2 3 1 3 4 2",
    "6 0 1 1 0 2 1 0 3 1 0 5 1 1 2 2 3 4 2 3 5 4 4 5 3",
    "6 0 1 2 0 2 1 1 2 1 2 4 1 2 5 1 3 4 2 3 5 1 4 5 2",
    "7 0 1 1 0 2 1 0 6 1 1 2 1 1 3 2 2 4 1 2 5 1 3 6 2 4 5 2",
    "7 0 1 2 0 2 3 0 4 4 0 6 1 1 2 4 1 4 1 3 4 2 3 5 3 3 6 2 4 5 3 4 6 4 5 6 4",
    "5 0 1 2 0 4 1 1 4 1 2 3 2 2 4 1 3 4 1",
    "7 0 1 3 0 2 2 0 4 1 0 6 4 1 2 4 3 4 1 3 5 3 3 6 4 4 5 2 4 6 4 5 6 2",
    "7 0 1 1 0 2 2 0 6 1 1 2 2 1 6 1 3 4 1 3 5 2 3 6 1 4 5 2 5 6 1",
    "5 0 1 4 0 2 3 1 2 3 2 3 3 2 4 3 3 4 4",
    "6 0 1 3 0 2 2 1 2 1 2 4 2 2 5 1 3 4 3 3 5 4 4 5 2",
    "5 0 1 2 0 2 5 1 2 2 1 3 2 1 4 2 2 3 1 2 4 1 3 4 4",
    "6 0 1 4 0 2 3 1 2 1 2 3 2 2 4 2 3 4 3 3 5 4 4 5 1",
    "6 0 1 1 0 2 3 1 2 1 1 3 1 1 4 1 3 4 3 3 5 2 4 5 2",
    "7 0 1 2 0 2 3 1 2 1 1 4 2 1 5 1 3 4 2 3 5 3 3 6 3 4 5 3 4 6 2",
    "7 0 1 2 0 2 1 1 2 1 2 3 1 2 6 1 3 4 1 3 5 1 3 6 2 4 5 1 4 6 1 5 6 1",
    "6 0 1 3 0 2 4 0 3 2 1 2 4 1 3 3 3 4 2 3 5 3 4 5 4",
    "6 0 1 1 0 2 2 0 3 1 1 2 2 1 3 1 3 4 1 3 5 1 4 5 2",
    "6 0 1 3 0 2 4 1 2 2 1 4 3 1 5 2 3 4 2 3 5 4 4 5 4",
    "7 0 1 1 0 2 2 1 2 1 1 3 1 1 4 1 3 4 2 3 5 2 3 6 2 4 5 1 4 6 1 5 6 1",
    "5 0 1 4 0 3 2 1 3 1 2 3 1 2 4 4 3 4 2",
    "6 0 2 3 0 4 2 1 5 4 2 4 1 3 4 2 3 5 3 4 5 1",
    "6 0 1 3 0 2 1 0 4 2 0 5 2 1 2 4 3 4 2 3 5 4 4 5 1",
    "7 0 1 3 0 2 4 1 2 1 1 3 1 1 4 3 3 4 1 3 6 3 4 5 2 4 6 1 5 6 3",
    "6 0 1 2 0 2 4 0 3 1 0 4 1 1 2 3 1 4 2 3 4 1 3 5 4 4 5 2",
    "7 0 1 3 0 2 4 1 2 3 1 3 3 1 4 3 3 4 3 3 5 2 3 6 3 4 5 2 4 6 1 5 6 3",
    "5 0 2 1 0 4 2 1 2 1 1 3 4 2 3 1 2 4 1",
    "5 0 1 3 0 2 1 1 2 2 2 3 1 2 4 2 3 4 3",
    "7 0 1 3 0 2 1 1 2 2 2 3 2 2 6 1 3 4 2 3 5 2 3 6 4 4 5 3 4 6 2 5 6 1",
    "6 0 1 3 0 2 2 0 4 1 1 2 2 2 4 1 3 4 1 3 5 2 4 5 1",
    "5 0 1 3 0 2 2 0 3 2 0 4 1 1 4 5 2 3 3",
    "7 0 1 3 0 2 2 1 2 1 2 5 1 2 6 2 3 4 2 3 5 1 3 6 1 4 6 2 5 6 2",
    "7 0 1 3 0 2 1 1 2 2 2 5 2 2 6 1 3 4 3 3 5 1 3 6 3 4 5 1 4 6 3 5 6 3",
    "7 0 1 2 0 2 3 1 2 2 1 3 3 1 4 1 3 4 3 3 5 3 3 6 1 4 5 3 4 6 3 5 6 1",
    "7 0 1 1 0 2 1 0 5 1 0 6 1 1 2 2 3 4 1 3 5 2 3 6 1 4 5 1 4 6 1 5 6 2",
    "7 0 1 3 0 2 4 1 2 4 1 5 4 1 6 1 2 3 1 3 4 4 3 5 1 3 6 1 4 6 2 5 6 2",
    "7 0 1 3 0 2 2 1 2 2 2 3 3 2 4 1 3 4 4 3 5 4 3 6 1 4 5 3 4 6 3 5 6 4",
    "5 0 1 3 0 2 8 1 2 1 1 3 3 1 4 1 2 4 1 3 4 4",
    "7 0 1 1 0 2 2 0 4 1 0 6 2 1 2 3 3 4 3 3 5 1 3 6 2 4 6 2 5 6 3",
    "6 0 1 3 0 2 4 0 3 2 1 2 2 2 3 2 3 4 2 3 5 2 4 5 4",
    "7 0 1 2 0 2 4 1 2 2 1 5 2 1 6 2 3 4 3 3 5 3 3 6 3 4 5 4 5 6 2",
    "5 0 1 3 0 3 2 1 2 1 1 3 1 2 3 2 2 4 4 3 4 1",
    "7 0 1 2 0 2 1 0 3 1 1 2 2 2 3 1 3 4 1 3 6 1 4 5 2 4 6 1 5 6 1",
    "7 0 1 3 0 2 2 1 2 2 2 4 3 2 5 1 3 4 2 3 5 2 3 6 3 4 5 3 4 6 3 5 6 1",
    "7 0 1 4 0 2 3 1 2 2 2 3 2 2 4 3 3 4 3 3 5 3 3 6 4 4 6 2 5 6 4",
    "6 0 2 1 0 3 4 1 4 4 1 5 2 2 3 2 2 5 2 3 4 1 3 5 1 4 5 1",
    "5 0 1 3 0 2 1 1 2 1 2 3 1 2 4 1 3 4 3",
    "6 0 1 3 0 2 1 0 3 3 0 4 1 1 2 4 3 4 4 3 5 4 4 5 1",
    "7 0 1 1 0 2 2 0 3 1 0 6 2 1 2 4 3 4 3 3 5 2 3 6 1 4 5 2 5 6 2",
    "7 0 1 1 0 2 1 0 3 1 0 4 1 1 2 2 3 4 1 3 5 1 3 6 2 4 5 1 4 6 1 5 6 2",
    "7 0 1 4 0 2 1 1 2 1 1 6 1 2 4 1 2 5 1 3 4 1 3 5 4 3 6 3 4 5 4 4 6 4 5 6 2",
    "7 0 1 2 0 2 2 0 4 2 0 6 2 1 2 4 3 4 1 3 5 4 3 6 3 4 5 2 4 6 4 5 6 1",
    "6 0 1 2 0 2 2 0 4 2 0 5 2 1 2 3 3 4 1 3 5 4 4 5 3",
    "6 0 1 1 0 2 1 0 5 1 1 2 2 2 5 1 3 4 2 3 5 1 4 5 1",
    "7 0 1 3 0 2 2 1 2 2 2 4 3 2 6 1 3 4 3 3 5 2 3 6 3 4 5 1 4 6 2 5 6 3",
    "6 0 1 1 0 2 1 0 3 1 0 5 1 1 2 2 3 4 3 3 5 3 4 5 1",
    "7 0 1 1 0 2 3 1 2 2 1 3 1 1 6 2 3 4 1 3 5 1 3 6 2 4 5 2 4 6 3 5 6 1",
    "6 0 1 3 0 2 4 0 3 1 1 2 3 1 3 1 3 4 1 3 5 1 4 5 4",
    "6 0 1 4 0 2 3 0 3 1 0 5 1 1 2 4 1 5 3 3 4 4 3 5 1 4 5 3",
    "7 0 1 2 0 2 1 0 5 2 0 6 1 1 2 3 3 4 3 3 5 1 3 6 3 4 5 2 4 6 1 5 6 1",
    "6 0 1 3 0 2 2 1 2 1 2 4 1 2 5 2 3 4 2 3 5 2 4 5 1",
    "6 0 1 2 0 2 3 0 4 1 1 2 3 1 4 1 3 4 1 3 5 3 4 5 1",
    "7 0 1 3 0 2 2 1 2 2 2 3 2 2 5 2 3 4 3 3 5 3 3 6 3 4 5 1 4 6 1 5 6 3",
    "7 0 1 2 0 2 2 0 5 1 0 6 3 1 2 3 3 4 2 3 5 2 3 6 3 4 5 3 4 6 1 5 6 1",
    "7 0 1 2 0 2 2 1 2 2 2 3 2 2 6 1 3 6 1 4 5 2 4 6 1 5 6 1",
    "5 0 1 3 0 3 2 1 3 2 2 3 2 2 4 3 3 4 2",
    "7 0 1 2 0 2 1 1 2 1 2 3 1 2 6 1 3 4 2 3 5 2 3 6 2 4 6 2 5 6 1",
    "7 0 1 4 0 2 3 1 2 2 1 5 1 2 3 2 2 5 3 3 4 2 3 5 4 3 6 2 4 5 4 4 6 3 5 6 2",
    "6 0 1 3 0 2 1 1 2 1 1 3 1 2 3 1 2 5 1 3 4 3 3 5 3 4 5 1",
    "7 0 1 4 0 2 2 1 2 3 2 3 2 2 4 3 3 4 4 3 5 1 3 6 1 4 5 4 4 6 2 5 6 3",
    "7 0 1 2 0 2 2 1 2 2 1 6 1 2 3 1 2 6 1 3 4 2 3 5 2 3 6 1 4 5 2 4 6 1",
    "6 0 1 3 0 2 2 0 3 1 1 2 3 2 3 2 3 4 1 3 5 2 4 5 4",
    "7 0 1 2 0 2 1 1 2 1 2 4 1 2 6 1 3 4 1 3 5 3 3 6 3 4 5 2 4 6 2 5 6 2",
    "6 0 1 2 0 2 1 0 4 2 1 2 3 2 3 1 2 4 1 3 4 1 3 5 3 4 5 2",
    "7 0 1 1 0 2 1 0 3 1 0 4 1 1 2 2 3 4 2 3 5 1 3 6 1 4 5 2 4 6 1 5 6 2",
    "6 0 1 2 0 2 1 0 4 2 0 5 1 1 2 3 3 4 3 3 5 3 4 5 4",
    "7 0 1 2 0 2 1 0 3 1 1 2 4 1 3 1 3 4 1 3 6 1 4 5 4 4 6 3 5 6 2",
    "6 0 1 1 0 2 2 0 4 3 1 2 1 1 3 1 1 5 1 3 5 2",
    "7 0 1 2 0 2 1 0 3 1 0 4 2 1 2 3 3 4 3 3 5 1 3 6 2 4 6 1 5 6 3",
    "7 0 1 2 0 2 2 0 5 2 0 6 2 1 2 3 3 4 2 3 5 2 3 6 1 4 5 2 4 6 1 5 6 2",
    "5 0 1 3 0 4 2 1 4 2 2 3 4 2 4 2 3 4 2",
    "7 0 1 1 0 2 2 1 2 1 1 5 1 1 6 1 3 4 2 3 5 2 4 5 1 4 6 1 5 6 2",
    "7 0 1 3 0 2 2 1 2 2 2 3 2 2 4 2 3 4 4 3 5 4 3 6 2 4 5 4 4 6 2 5 6 3",
    "7 0 1 2 0 2 2 1 2 2 1 3 3 1 5 2 3 5 1 4 5 1 4 6 3 5 6 2",
    "7 0 1 1 0 2 2 1 2 1 1 5 1 1 6 1 3 4 2 3 5 1 3 6 1 4 5 2 4 6 2 5 6 2",
    "7 0 1 1 0 2 2 1 2 1 1 5 1 1 6 1 3 4 1 3 5 2 4 5 1 4 6 1 5 6 2",
    "7 0 1 2 0 2 3 1 2 2 1 4 1 2 4 2 3 5 3 3 6 2 4 5 2 4 6 1 5 6 2",
    "6 0 1 4 0 2 2 1 2 1 1 3 2 2 4 2 2 5 1 3 4 3 3 5 4 4 5 3",
    "6 0 1 4 0 2 4 0 3 3 1 2 2 1 3 2 3 4 2 3 5 3 4 5 4",
    "7 0 1 4 0 2 2 1 2 1 2 3 1 2 4 2 3 4 2 3 5 3 3 6 2 4 5 2 4 6 2 5 6 2",
    "7 0 1 3 0 2 3 1 2 2 1 3 1 2 3 3 3 4 3 3 6 1 4 5 2 4 6 3 5 6 3",
    "6 0 1 3 0 2 3 0 3 2 0 5 1 1 2 3 1 3 1 3 4 2 3 5 1 4 5 3",
    "7 0 1 4 0 2 4 1 2 3 1 4 1 2 4 4 2 5 2 3 4 2 3 5 4 3 6 3 4 6 3 5 6 3",
    "6 0 1 2 0 2 4 1 2 2 1 4 2 1 5 2 3 4 3 3 5 2 4 5 3",
    "6 0 1 1 0 2 3 1 2 1 1 3 1 1 4 1 3 4 3 3 5 1 4 5 3",
    "7 0 1 3 0 2 1 1 2 1 2 3 1 2 5 1 3 4 2 3 5 3 3 6 2 4 5 2 4 6 1 5 6 3",
    "5 0 1 1 0 2 2 0 3 2 0 4 1 1 2 3 1 4 1 3 4 3",
    "6 0 1 2 0 2 1 0 4 1 0 5 2 1 2 3 3 4 4 3 5 3 4 5 4",
    "6 0 1 3 0 2 2 1 2 2 2 3 1 2 4 3 3 4 3 3 5 3 4 5 2",
    "6 0 1 1 0 2 3 1 2 2 1 3 2 1 5 1 3 4 1 3 5 3 4 5 3",
    "6 0 1 4 0 2 4 1 2 4 1 4 2 2 4 3 3 4 2 3 5 4 4 5 3",
    "5 0 2 3 0 4 4 1 2 3 1 3 6 2 3 2 2 4 2",
    "7 0 1 2 0 2 4 1 2 1 1 5 1 1 6 2 2 4 1 3 4 1 3 5 3 3 6 1 4 5 1 4 6 4 5 6 3",
    "6 0 1 2 0 2 1 0 4 1 0 5 2 1 2 3 2 3 1 3 4 3 3 5 2 4 5 3",
    "6 0 1 1 0 2 3 1 2 2 1 3 2 1 4 1 2 5 4 3 4 4",
    "7 0 1 2 0 2 2 0 4 3 0 5 1 1 2 3 3 4 1 3 5 2 3 6 3 4 5 3 4 6 3 5 6 2",
    "7 0 1 3 0 2 3 1 5 2 2 5 2 2 6 1 3 4 3 3 6 2 4 6 2 5 6 3",
    "7 0 1 3 0 2 2 0 4 1 1 2 2 2 4 2 3 5 1 3 6 3 4 5 1 4 6 2 5 6 3",
    "7 0 1 2 0 2 3 1 2 2 1 4 3 1 6 1 3 4 2 3 5 2 3 6 1 4 5 1 4 6 3 5 6 2",
    "7 0 1 4 0 2 2 1 2 1 2 5 1 2 6 2 3 4 1 3 5 3 3 6 2 4 5 3 4 6 1 5 6 3",
    "6 0 1 4 0 2 2 1 2 2 1 3 1 2 3 1 3 4 1 3 5 1 4 5 2",
};
inline B contested(Rng& r) {
    B b;
    std::istringstream in(CONTESTED[r.below(sizeof CONTESTED / sizeof CONTESTED[0])]);
    int64_t n, u, v, w, f = r.chance(0.7) ? 1 : r.range(2, 5);
    in >> n;
    while (in >> u >> v >> w) b.add(u, v, w * f);
    b.n = n;
    return b;
}
}  // namespace wl

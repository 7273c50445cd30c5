#pragma once
#include <cstddef>
#include <cstdint>
namespace sim { namespace mpi {
void init(int size, size_t eager);      // inside a run: size ranks, rank = group of the calling thread
size_t pending(int tag);                // undelivered messages with that tag
uint64_t sent();
} }

// Controls of the environment model (ranks, threads, MPI).
#pragma once
#include <cstddef>
extern "C" {
extern int mdl_rank, mdl_size, mdl_threads, mdl_quiet;
int mdl_pending();            // messages sent but not received
}

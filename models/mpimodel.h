// Controls of the MPI model.
#pragma once
#include <cstddef>
struct MdlRec { void *buf; size_t n; int peer, tag; bool send; };
extern "C" {
extern int mdl_reduce;
extern int mdl_mpi_record, mdl_nrec;   // record mode: requests are noted, nothing is copied
extern MdlRec mdl_rec[];
extern void (*mdl_fill)(void *, size_t, int, int); // in record mode: what a receive brings (buffer, bytes, peer, tag)
}

// C26 the distributed time evolution: its solver for exp(-i delta H)v and whole runs spread over ranks under a seeded
// scheduler, against the same dense references as C20 and C24.
#define STANDIN_MPI
#define TDVP_MPI
#include "h_tdvp.cpp"

// Parts common to the parallel monitors.  Every rank runs the same case with the same random numbers (c.rng), so that
// every rank knows the whole input; what the ranks then hold is gathered on rank 0 of the case's communicator and judged there.
#pragma once
#include "../meshcmp.h"
#include <mpi.h>
#include <unistd.h>

struct Par {
  MPI_Comm comm = MPI_COMM_NULL;     // what the library gets
  MPI_Comm own = MPI_COMM_NULL;      // same ranks, for the monitor's own messages
  int rank = -1, np = 0;
  bool in() const { return rank >= 0; }
  bool root() const { return rank == 0; }
};
// the first np ranks in shuffled order; every rank of the world has to call it
Par par_comm(Ctx& c, int np);
int par_world();
void par_free(Par&);
// delays before communication calls: 0 none, 1 random, 2 one slow rank, 3 in one kind of call
void par_delays(uint64_t seed, int mode);
long par_events();
// messages sent on the case's communicator and not received
int par_stray(const Par& p);

// vector of doubles from every rank to rank 0
inline std::vector<std::vector<double>> par_gather(const Par& p, const std::vector<double>& v) {
  int n = (int)v.size(); std::vector<int> ns(p.np), off(p.np);
  PMPI_Gather(&n, 1, MPI_INT, ns.data(), 1, MPI_INT, 0, p.own);
  int tot = 0; for (int i = 0; i < p.np; i++) { off[i] = tot; tot += ns[i]; }
  std::vector<double> all(p.root() ? tot + 1 : 1);
  PMPI_Gatherv(v.data(), n, MPI_DOUBLE, all.data(), ns.data(), off.data(), MPI_DOUBLE, 0, p.own);
  std::vector<std::vector<double>> r;
  if (p.root()) for (int i = 0; i < p.np; i++) r.emplace_back(all.begin() + off[i], all.begin() + off[i] + ns[i]);
  return r;
}

// Starting the message passing with threads.
#define NF_REQUIRE_MPI_THREAD_SUPPORT
#define MPIInit MPIInitThreads
#include "inc/nf.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
ENTRY(c29_threads)
{
    mpimodel::reset(2);
    mpimodel::life = {};
    char name[] = "program";
    char* argv[] = {name, nullptr};
    const int levels[] = {MPI_THREAD_MULTIPLE, MPI_THREAD_MULTIPLE - 1, 0};
    int k = (int)sym_choose("given", 0, 2);
    mpimodel::life.given = levels[k];
    if (levels[k] != MPI_THREAD_MULTIPLE) sym_expect_termination(2, "refused");
    {
        NeoFOAM::mpi::MPIInit init(1, argv);
        auto& l = mpimodel::life;
        sym_assert(k == 0, "too little thread support is refused");
        sym_assert(l.inits == 1 && l.finals == 0 && l.argc == 1 && l.argv == argv && l.wanted == MPI_THREAD_MULTIPLE, "the library is started once, with threads");
    }
    sym_assert(mpimodel::life.finals == 1, "the library is ended once");
    sym_reach("end");
}

// Error reporting in a program with message passing: all processes are ended with an error.
#define NF_DEBUG 1
#define NF_WITH_MPI_SUPPORT 1
#include <mpi.h>
#include "inc/util.hpp"
#include "NeoFOAM/core/error.hpp"
namespace
{
int evals = 0;
int once(int x) { evals++; return x; }
}
ENTRY(c33_mpi)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3);
    int form = (int)sym_choose("form", 0, 4);
    bool ok = form == 4 ? false : form % 2 ? a == b : a < b;
    if (!ok) sym_expect_termination(2, "refused");
    evals = 0;
    try
    {
        switch (form)
        {
        case 0: NF_ASSERT(once(a) < b, "message " << once(a)); break;
        case 1: NF_ASSERT_EQUAL(a, b); evals++; break;
        case 2: NF_DEBUG_ASSERT(once(a) < b, "message" << once(a)); break;
        case 3: NF_DEBUG_ASSERT_EQUAL(a, b); evals++; break;
        case 4: NF_ERROR_EXIT("stop " << a); break;
        }
    }
    catch (...) { sym_assert(false, "a terminating assertion does not throw"); }
    sym_assert(ok, "a failed assertion does not return");
    sym_assert(evals == 1, "the condition is evaluated once");
    sym_reach("passed");
}

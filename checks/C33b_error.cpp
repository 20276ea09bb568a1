// Error reporting in release builds: debug assertions cost nothing and never act.
#include "inc/util.hpp"
#include "NeoFOAM/core/error.hpp"
ENTRY(c33_release)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3), evals = 0;
    NF_DEBUG_ASSERT((evals++, a < b), "message");
    NF_DEBUG_ASSERT_THROW((evals++, a < b), "message");
    NF_DEBUG_ASSERT_EQUAL(a, b);
    NF_DEBUG_ASSERT_EQUAL_THROW(a, b);
    sym_assert(evals == 0, "debug assertions are not evaluated in release builds");
    bool ok = a < b;
    if (!ok) sym_expect_termination(2, "refused");
    NF_ASSERT((evals++, a < b), "message " << a);
    sym_assert(ok && evals == 1, "assertions act in release builds too");
    sym_reach("passed");
}

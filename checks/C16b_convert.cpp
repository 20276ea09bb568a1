// conversion of whole systems (a template no other code instantiates)
#include "inc/nf.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
using NF::localIdx;
ENTRY(c16_convert_system)
{
    Executor e = symExec();
    std::vector<localIdx> col {1, 0, 1}, row {0, 1, 3};
    auto a = symScalars("a", 3), b = symScalars("b", 2);
    NF::la::LinearSystem<scalar, localIdx> ls(
        NF::la::CSRMatrix<scalar, localIdx>(Field<scalar>(e, a), Field<localIdx>(e, col), Field<localIdx>(e, row)), Field<scalar>(e, b)
    );
    auto c = NF::la::convertLinearSystem<scalar, localIdx, scalar, int>(ls);
    sym_assert(c.exec() == e && c.matrix().nRows() == 2, "a converted system is on the same executor");
    eqAll(host(c.matrix().values()), a, "conversion keeps the values");
    eqAll(host(c.rhs()), b, "conversion keeps the right-hand side");
    auto cc = host(c.matrix().colIdxs()), cr = host(c.matrix().rowPtrs());
    for (size_t k = 0; k < 3; k++) sym_assert((localIdx)cc[k] == col[k] && (localIdx)cr[k] == row[k], "conversion keeps the pattern");
    sym_reach("end");
}
// another value type
ENTRY(c16_convert_values)
{
    Executor e = symExec();
    std::vector<localIdx> col {1, 0, 1}, row {0, 1, 3};
    auto a = symScalars("a", 3), b = symScalars("b", 2);
    NF::la::LinearSystem<scalar, localIdx> ls(
        NF::la::CSRMatrix<scalar, localIdx>(Field<scalar>(e, a), Field<localIdx>(e, col), Field<localIdx>(e, row)), Field<scalar>(e, b)
    );
    auto c = NF::la::convertLinearSystem<scalar, localIdx, float, int>(ls);
    sym_assert(c.exec() == e && c.matrix().nRows() == 2, "a converted system is on the same executor");
    auto v = host(c.matrix().values());
    auto r = host(c.rhs());
    sym_assert(v.size() == 3 && r.size() == 2, "sizes of a converted system");
    for (size_t k = 0; k < 3; k++) eq((float)a[k], v[k], "conversion keeps the values");
    for (size_t k = 0; k < 2; k++) eq((float)b[k], r[k], "conversion keeps the right-hand side");
    auto cc = host(c.matrix().colIdxs()), cr = host(c.matrix().rowPtrs());
    for (size_t k = 0; k < 3; k++) sym_assert((localIdx)cc[k] == col[k] && (localIdx)cr[k] == row[k], "conversion keeps the pattern");
    sym_reach("end");
}

// The PETSc back end: what it hands to the library and what it returns.
#include "inc/nf.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
namespace NeoFOAM::finiteVolume::cellCentred {}
#include "NeoFOAM/linearAlgebra/petsc.hpp"
using NF::localIdx;
using NF::Dictionary;
namespace la = NeoFOAM::la;
template class NeoFOAM::RuntimeSelectionFactory<NeoFOAM::la::SolverFactory, NeoFOAM::Parameters<const NeoFOAM::Executor&, const NeoFOAM::Dictionary&>>::Register<NeoFOAM::la::petsc::petscSolver>;
namespace
{
struct Sys
{
    size_t n;
    std::vector<localIdx> col, row;
    std::vector<scalar> v, b;
    std::vector<std::vector<scalar>> a;
};
Sys symSys(size_t n, size_t maxPerRow, bool symmetric)
{
    Sys s;
    s.n = n;
    s.a.assign(n, std::vector<scalar>(n, 0.0));
    s.row.push_back(0);
    std::vector<std::vector<int>> at(n, std::vector<int>(n, 0));
    if (symmetric)
    {
        for (size_t i = 0; i < n; i++)
            for (size_t j = i; j < n; j++)
                if (sym_choose("stored", 0, 1)) { at[i][j] = at[j][i] = 1; s.a[i][j] = s.a[j][i] = sym_f64("a"); }
    }
    for (size_t r = 0; r < n; r++)
    {
        if (symmetric)
        {
            bool back = n > 1 && sym_choose("reversed", 0, 1);
            for (size_t q = 0; q < n; q++)
            {
                size_t c = back ? n - 1 - q : q;
                if (at[r][c]) { s.col.push_back((localIdx)c); s.v.push_back(s.a[r][c]); }
            }
        }
        else
        {
            size_t k = (size_t)sym_choose("entries", 0, (int)maxPerRow), b = s.col.size();
            for (size_t j = 0; j < k; j++)
            {
                localIdx c = (localIdx)sym_choose("column", 0, (int)n - 1);
                for (size_t i = b; i < s.col.size(); i++) sym_assume(s.col[i] != c);
                s.col.push_back(c);
                s.v.push_back(sym_f64("a"));
                s.a[r][c] = s.v.back();
            }
        }
        s.row.push_back((localIdx)s.col.size());
    }
    s.b = symScalars("b", n);
    return s;
}
la::LinearSystem<scalar, localIdx> mk(const Executor& e, const Sys& s)
{
    la::CSRMatrix<scalar, localIdx> m(Field<scalar>(e, s.v), Field<localIdx>(e, s.col), Field<localIdx>(e, s.row));
    return la::LinearSystem<scalar, localIdx>(m, Field<scalar>(e, s.b));
}
void solveAndCompare(const Executor& e, const Sys& s, const la::Solver& solver)
{
    auto ls = mk(e, s);
    Field<scalar> x(e, symScalars("guess", s.n));
    nfPetsc.answer = symScalars("answer", s.n);
    int before = nfPetsc.solves;
    solver.solve(ls, x);
    sym_assert(nfPetsc.solves == before + 1, "a system is solved once");
    sym_assert(nfPetsc.rows == (int)s.n && nfPetsc.cols == (int)s.n, "the system has its size");
    eqAll(nfPetsc.b, s.b, "the right-hand side is handed over");
    eqAll(host(x), nfPetsc.answer, "the solution is handed back");
    sym_assert(x.exec() == e, "the solution stays where it was");
    eqAll(host(ls.matrix().values()), s.v, "the system is not changed");
    eqAll(host(ls.matrix().colIdxs()), s.col, "the system is not changed");
    eqAll(host(ls.matrix().rowPtrs()), s.row, "the system is not changed");
    eqAll(host(ls.rhs()), s.b, "the system is not changed");
    sym_assert(nfPetsc.live == 0, "matrices, vectors and solvers are freed");
}
// a solver or a copy of one that is gone
la::Solver make(const Executor& e)
{
    Dictionary d;
    d.insert("solver", std::string("Petsc"));
    la::Solver s(e, d);
    if (sym_choose("copied", 0, 1)) return la::Solver(s);
    return s;
}
}
#undef ENTRY
#define ENTRY(name)                                                                                                                        \
    static void body_##name();                                                                                                             \
    extern "C" void harness_##name()                                                                                                       \
    {                                                                                                                                      \
        sym_mem_space_mode(1);                                                                                                             \
        body_##name();                                                                                                                     \
    }                                                                                                                                      \
    static void body_##name()
// one or two systems with one solver
ENTRY(c34_symmetric)
{
    Executor e = symExec();
    auto solver = make(e);
    int rounds = (int)sym_choose("rounds", 1, 2);
    for (int i = 0; i < rounds; i++)
    {
        auto s = symSys((size_t)sym_choose("rows", 1, rounds == 2 ? 2 : TIER(2, 3)), 0, true);
        solveAndCompare(e, s, solver);
        for (size_t r = 0; r < s.n; r++)
            for (size_t c = 0; c < s.n; c++) eq(nfPetsc.a[r][c], s.a[r][c], "the matrix is handed over");
    }
    sym_reach("end");
}
// unsymmetric systems, up to the orientation (see c34_orientation)
ENTRY(c34_any)
{
    Executor e = symExec();
    auto solver = make(e);
    auto s = symSys((size_t)sym_choose("rows", 1, TIER(2, 3)), 2, false);
    solveAndCompare(e, s, solver);
    int straight = 1, turned = 1;
    for (size_t r = 0; r < s.n; r++)
        for (size_t c = 0; c < s.n; c++)
        {
            straight &= (int)(nfPetsc.a[r][c] == s.a[r][c]);
            turned &= (int)(nfPetsc.a[c][r] == s.a[r][c]);
        }
    sym_assert((straight | turned) != 0, "the matrix or its transpose is handed over");
    sym_reach("end");
}
ENTRY(c34_orientation)
{
    Executor e = symExec();
    auto solver = make(e);
    Sys s = symSys(2, 2, false);
    solveAndCompare(e, s, solver);
    eq(nfPetsc.a[0][1], s.a[0][1], "an entry above the diagonal is at its row and column");
    eq(nfPetsc.a[1][0], s.a[1][0], "an entry below the diagonal is at its row and column");
    sym_reach("end");
}

// CSR matrices and linear systems.
#include "inc/nf.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
using NF::localIdx;
template<class T, class I> using Mtx = NF::la::CSRMatrix<T, I>;
template<class T, class I> using Sys = NF::la::LinearSystem<T, I>;
namespace
{
template<class I> struct Shape
{
    size_t n;
    std::vector<I> col, row; // distinct columns in each row, in any order
};
template<class I> Shape<I> symShape(size_t nRows, size_t nCols, size_t maxPerRow)
{
    Shape<I> s;
    s.n = nRows;
    s.row.push_back(0);
    for (size_t r = 0; r < nRows; r++)
    {
        size_t k = (size_t)sym_choose("entries", 0, (int)maxPerRow), b = s.col.size();
        for (size_t j = 0; j < k; j++)
        {
            I c = (I)sym_i64("column", 0, (int)nCols - 1);
            for (size_t i = b; i < s.col.size(); i++) sym_assume(s.col[i] != c);
            s.col.push_back(c);
        }
        s.row.push_back((I)s.col.size());
    }
    return s;
}
double times(double a, double x) { return a * x; }
template<class T> T zeroOf() { return NF::zero<T>(); }
}
// the stored entries are found, others are refused
ENTRY(c16_entry)
{
    Executor e = symExec("exec", 0, 1);
    auto s = symShape<localIdx>(2, 3, TIER(2, 3));
    auto v = symScalars("a", s.col.size());
    Mtx<scalar, localIdx> m(Field<scalar>(e, v), Field<localIdx>(e, s.col), Field<localIdx>(e, s.row));
    sym_assert(m.nRows() == 2 && m.nNonZeros() == v.size() && m.exec() == e, "sizes of a matrix");
    auto mv = m.view();
    const auto& cm = m;
    auto cv = cm.view();
    localIdx i = (localIdx)sym_choose("i", 0, 1), j = (localIdx)sym_i64("j", 0, 2);
    bool has = false;
    size_t at = 0;
    for (size_t k = s.row[i]; k < s.row[i + 1]; k++)
        if (s.col[k] == j) { has = true; at = k; }
    if (!has) sym_expect_termination(2, "refused");
    double& x = mv.entry(i, j);
    sym_assert(has, "an entry that is not stored is refused");
    eq(x, v[at], "entry of a matrix");
    eq(mv.entry((localIdx)at), v[at], "entry of a matrix by offset");
    eq(cv.entry(i, j), v[at], "entry of a matrix");
    double w = sym_f64("w");
    x = w;
    auto h = host(m.values());
    for (size_t k = 0; k < h.size(); k++) eq(h[k], k == at ? w : v[k], "writing an entry changes this entry only");
    sym_reach("found");
}
// copies to any executor keep everything
template<class T> void copies()
{
    Executor e = symExec(), o = symExec("other");
    auto s = symShape<localIdx>((size_t)sym_choose("rows", 0, 2), 3, 2);
    auto v = symVals<T>("a", s.col.size());
    auto b = symVals<T>("b", s.n);
    Mtx<T, localIdx> m(Field<T>(e, v), Field<localIdx>(e, s.col), Field<localIdx>(e, s.row));
    auto c = m.copyToExecutor(o);
    auto h = m.copyToHost();
    sym_assert(c.exec() == o, "a copy is on the executor it was made for");
    sym_assert(h.exec() == Executor(NF::SerialExecutor {}), "a host copy is on the host");
    NF::fill(m.values(), zeroOf<T>());
    eqAll(host(c.values()), v, "a copy keeps the values");
    eqAll(host(c.colIdxs()), s.col, "a copy keeps the columns");
    eqAll(host(c.rowPtrs()), s.row, "a copy keeps the rows");
    eqAll(host(h.values()), v, "a copy keeps the values");
    eqAll(host(h.colIdxs()), s.col, "a copy keeps the columns");
    eqAll(host(h.rowPtrs()), s.row, "a copy keeps the rows");
    Sys<T, localIdx> ls(c, Field<T>(o, b));
    sym_assert(ls.exec() == o, "executor of a system");
    auto hs = ls.copyToHost();
    Sys<T, localIdx> cp(ls);
    ls.reset();
    eqAll(host(hs.matrix().values()), v, "a copy of a system is independent");
    eqAll(host(hs.rhs()), b, "a copy of a system is independent");
    eqAll(host(cp.matrix().values()), v, "a copy of a system is independent");
    eqAll(host(cp.rhs()), b, "a copy of a system is independent");
    eqAll(host(ls.matrix().values()), std::vector<T>(v.size(), zeroOf<T>()), "a reset system is zero");
    eqAll(host(ls.rhs()), std::vector<T>(b.size(), zeroOf<T>()), "a reset system is zero");
    eqAll(host(ls.matrix().colIdxs()), s.col, "a reset keeps the pattern");
    eqAll(host(ls.matrix().rowPtrs()), s.row, "a reset keeps the pattern");
    Mtx<T, localIdx> none(e);
    Sys<T, localIdx> nsys(e);
    sym_assert(none.nRows() == 0 && none.nNonZeros() == 0 && none.exec() == e && nsys.exec() == e && nsys.rhs().size() == 0, "an empty matrix");
    sym_reach("end");
}
ENTRY(c16_copy_scalar) { copies<scalar>(); }
ENTRY(c16_copy_vector) { copies<Vector>(); }
// inconsistent parts are refused
ENTRY(c16_refuse)
{
    Executor e = symExec(), o = symExec("other"), q = symExec("third");
    size_t n = (size_t)sym_choose("rhs", 0, 3);
    bool same = e == o && o == q && n == 2;
    if (!same) sym_expect_termination(2, "refused");
    std::vector<scalar> v {sym_f64("a"), sym_f64("a")};
    std::vector<localIdx> c {0, 1}, r {0, 1, 2};
    Mtx<scalar, localIdx> m(Field<scalar>(e, v), Field<localIdx>(o, c), Field<localIdx>(q, r));
    sym_assert(e == o && o == q, "a matrix spread over executors is refused");
    Sys<scalar, localIdx> ls(m, Field<scalar>(e, n, 0.0));
    sym_assert(n == 2, "a right-hand side of another size is refused");
    sym_reach("accepted");
}
ENTRY(c16_refuse_rhs)
{
    Executor e = symExec(), o = symExec("other");
    if (!(e == o)) sym_expect_termination(2, "refused");
    std::vector<localIdx> c {0, 1}, r {0, 1, 2};
    Mtx<scalar, localIdx> m(Field<scalar>(e, 2, 1.0), Field<localIdx>(e, c), Field<localIdx>(e, r));
    Sys<scalar, localIdx> ls(m, Field<scalar>(o, 2, 0.0));
    sym_assert(e == o, "a system spread over executors is refused");
    sym_reach("accepted");
}
// A x - b
ENTRY(c16_spmv)
{
    Executor e = symExec();
    sym_sched_mode(1);
    size_t n = (size_t)sym_choose("rows", 0, TIER(2, 3));
    auto s = symShape<localIdx>(n, n ? n : 1, n < 2 ? n : 2);
    auto a = symScalars("a", s.col.size()), b = symScalars("b", n), x = symScalars("x", n);
    Sys<scalar, localIdx> ls(Mtx<scalar, localIdx>(Field<scalar>(e, a), Field<localIdx>(e, s.col), Field<localIdx>(e, s.row)), Field<scalar>(e, b));
    Field<scalar> xf(e, x);
    auto r = NF::la::spmv(ls, xf);
    sym_assert(r.exec() == e, "the residual is on the executor of the system");
    auto h = host(r);
    sym_assert(h.size() == n, "size of the residual");
    for (size_t i = 0; i < n; i++)
    {
        double sum = 0;
        for (size_t k = s.row[i]; k < s.row[i + 1]; k++)
            for (size_t j = 0; j < n; j++)
                if (s.col[k] == j) sum += times(a[k], x[j]);
        eq(h[i], sum - b[i], "the residual is A x - b");
    }
    eqAll(host(xf), x, "computing the residual changes nothing else");
    eqAll(host(ls.rhs()), b, "computing the residual changes nothing else");
    eqAll(host(ls.matrix().values()), a, "computing the residual changes nothing else");
    sym_reach("end");
}
// other index types
ENTRY(c16_convert)
{
    Executor e = symExec();
    auto s = symShape<localIdx>((size_t)sym_choose("rows", 1, 2), 3, 2);
    auto a = symScalars("a", s.col.size());
    auto b = symScalars("b", s.n);
    const Mtx<scalar, localIdx> m(Field<scalar>(e, a), Field<localIdx>(e, s.col), Field<localIdx>(e, s.row));
    auto c = NF::la::convert<scalar, localIdx, scalar, int>(e, m.view());
    sym_assert(c.exec() == e && c.nRows() == (int)s.n && c.nNonZeros() == (int)a.size(), "sizes of a converted matrix");
    eqAll(host(c.values()), a, "conversion keeps the values");
    auto cc = host(c.colIdxs()), cr = host(c.rowPtrs());
    sym_assert(cc.size() == s.col.size() && cr.size() == s.row.size(), "sizes of a converted matrix");
    for (size_t k = 0; k < cc.size(); k++) sym_assert((localIdx)cc[k] == s.col[k], "conversion keeps the columns");
    for (size_t k = 0; k < cr.size(); k++) sym_assert((localIdx)cr[k] == s.row[k], "conversion keeps the rows");
    sym_reach("end");
}
// many rows: positions beyond the small integer types
ENTRY(c16_long)
{
    Executor e = symExec("exec", 0, 1);
    const size_t n = 66000;
    std::vector<localIdx> col, row {0};
    std::vector<scalar> a, b(n, 0.5), x(n, 2.0);
    for (size_t i = 0; i < n; i++)
    {
        col.push_back((localIdx)(n - 1 - i));
        a.push_back(1.0 + (double)(i % 11) * 0x1p-40);
        row.push_back((localIdx)col.size());
    }
    size_t at[3] = {300, 65540, n - 1};
    for (auto i : at)
    {
        a[i] = sym_f64("a");
        b[i] = sym_f64("b");
        x[n - 1 - i] = sym_f64("x");
    }
    const Mtx<scalar, localIdx> m(Field<scalar>(e, a), Field<localIdx>(e, col), Field<localIdx>(e, row));
    auto c = NF::la::convert<scalar, localIdx, scalar, int>(e, m.view());
    eqAll(host(c.values()), a, "conversion keeps the values");
    auto cc = host(c.colIdxs()), cr = host(c.rowPtrs());
    sym_assert(cc.size() == n && cr.size() == n + 1 && c.nRows() == (int)n && c.nNonZeros() == (int)n, "sizes of a converted matrix");
    for (size_t k = 0; k < n; k++) sym_assert((localIdx)cc[k] == col[k] && (localIdx)cr[k + 1] == row[k + 1], "conversion keeps the pattern");
    Sys<scalar, localIdx> ls(m, Field<scalar>(e, b));
    auto h = ls.copyToHost();
    eqAll(host(h.matrix().values()), a, "a copy keeps the values");
    eqAll(host(h.matrix().colIdxs()), col, "a copy keeps the columns");
    eqAll(host(h.matrix().rowPtrs()), row, "a copy keeps the rows");
    eqAll(host(h.rhs()), b, "a copy keeps the right-hand side");
    Field<scalar> xf(e, x);
    auto r = host(NF::la::spmv(ls, xf));
    for (size_t i = 0; i < n; i++) eq(r[i], a[i] * x[n - 1 - i] - b[i], "the residual is A x - b");
    auto v = ls.matrix().view();
    for (auto i : at) eq(v.entry((localIdx)i, col[i]), a[i], "entry of a matrix");
    ls.reset();
    eqAll(host(ls.rhs()), std::vector<scalar>(n, 0.0), "a reset system is zero");
    eqAll(host(ls.matrix().values()), std::vector<scalar>(n, 0.0), "a reset system is zero");
    sym_reach("end");
}

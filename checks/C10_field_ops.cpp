// Field operations: element-wise, on every executor, for every length and range.
#include "inc/nf.hpp"
namespace
{
struct Rng { size_t b, e; bool whole; };
Rng symRange(size_t n)
{
    if (sym_choose("whole", 0, 1)) return {0, 0, true};
    size_t e = (size_t)sym_choose("e", 1, (int)n), b = (size_t)sym_choose("b", 0, (int)e);
    return {b, e, false};
}
template<class F> bool mismatch(F&& f)
{
    try { f(); }
    catch (const NF::DimensionMismatch&) { return true; }
    return false;
}
}
// fill, map, setField on whole fields and ranges
ENTRY(c10_range)
{
    sym_sched_mode(1);
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, TIER(3, 4));
    size_t k = n + (size_t)sym_choose("more", 0, 1); // the source may be longer
    auto x = symScalars("x", n), y = symScalars("y", k);
    scalar v = sym_f64("v");
    Field<scalar> f(e, x), g(e, y);
    Rng r = n ? symRange(n) : Rng {0, 0, true};
    int op = (int)sym_choose("op", 0, 3);
    std::pair<size_t, size_t> range = r.whole ? std::pair<size_t, size_t> {0, 0} : std::pair<size_t, size_t> {r.b, r.e};
    if (op == 0) { if (r.whole) NF::fill(f, v); else NF::fill(f, v, range); }
    if (op == 1) { if (r.whole) NF::setField(f, g.view()); else NF::setField(f, g.view(), range); }
    auto gv = g.view();
    if (op == 2) { auto k = KOKKOS_LAMBDA(const size_t i) { return gv[i] * 3.0; }; if (r.whole) NF::map(f, k); else NF::map(f, k, range); }
    if (op == 3) { f.apply(KOKKOS_LAMBDA(const size_t i) { return gv[i] - 1.0; }); r = {0, n, true}; }
    auto h = host(f);
    for (size_t i = 0; i < n; i++)
    {
        bool in = r.whole || (i >= r.b && i < r.e);
        scalar w = op == 0 ? v : op == 1 ? y[i] : op == 2 ? y[i] * 3.0 : y[i] - 1.0;
        eq(h[i], in ? w : x[i], "exactly the elements of the range are set");
    }
    eqAll(host(g), y, "operands are unchanged");
    sym_reach("end");
}
// arithmetic; operands of different lengths are refused and nothing is changed
ENTRY(c10_arith)
{
    sym_sched_mode(1);
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, 3), k = (size_t)sym_choose("k", 0, 3);
    auto x = symScalars("x", n), y = symScalars("y", k);
    scalar s = sym_f64("s");
    Field<scalar> f(e, x), g(e, y);
    int op = (int)sym_choose("op", 0, 9);
    bool len = n == k;
    std::vector<scalar> w = x;
    for (size_t i = 0; i < n && i < k; i++)
    {
        if (op == 0 || op == 3 || op == 6) w[i] = x[i] + y[i];
        if (op == 1 || op == 4 || op == 7) w[i] = x[i] - y[i];
        if (op == 2 || op == 5) w[i] = x[i] * y[i];
    }
    if (op == 8) for (auto& z : w) z = z * s;
    if (op == 9) for (auto& z : w) z = s;
    bool ref = false;
    switch (op)
    {
    case 0: ref = mismatch([&] { NF::add(f, g); }); break;
    case 1: ref = mismatch([&] { NF::sub(f, g); }); break;
    case 2: ref = mismatch([&] { NF::mul(f, g); }); break;
    case 3: ref = mismatch([&] { f += g; }); break;
    case 4: ref = mismatch([&] { f -= g; }); break;
    case 5: ref = mismatch([&] { f *= g; }); break;
    case 6: ref = mismatch([&] { auto r = f + g; eqAll(host(f), x, "operands are unchanged"); sym_assert(r.exec() == e, "the result is on the executor of the operands"); eqAll(host(r), w, "element-wise result"); }); break;
    case 7: ref = mismatch([&] { auto r = f - g; eqAll(host(f), x, "operands are unchanged"); eqAll(host(r), w, "element-wise result"); }); break;
    case 8: len = true; NF::scalarMul(f, s); break;
    case 9: len = true; f = s; break;
    }
    sym_assert(ref == !len, "operands of different lengths are refused");
    eqAll(host(f), len && op != 6 && op != 7 ? w : x, "element-wise result");
    eqAll(host(g), y, "operands are unchanged");
    sym_reach(ref ? "refused" : "end");
}
ENTRY(c10_products)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, 2);
    auto x = symScalars("x", n), y = symScalars("y", n);
    auto u = symVectors("u", n), v = symVectors("v", n);
    scalar s = sym_f64("s");
    Field<scalar> f(e, x), g(e, y);
    Field<Vector> a(e, u), b(e, v);
    auto p = f * g;
    auto q = f * s;
    auto c = a + b;
    auto d = a - b;
    auto m = a * s;
    f *= s;
    a *= s;
    b += d;
    for (size_t i = 0; i < n; i++)
    {
        eq(host(p)[i], x[i] * y[i], "product of fields");
        eq(host(q)[i], x[i] * s, "product with a number");
        eq(host(f)[i], x[i] * s, "product with a number in place");
        for (size_t j = 0; j < 3; j++)
        {
            eq(host(c)[i][j], u[i][j] + v[i][j], "sum of vector fields");
            eq(host(d)[i][j], u[i][j] - v[i][j], "difference of vector fields");
            eq(host(m)[i][j], u[i][j] * s, "vector field times number");
            eq(host(a)[i][j], u[i][j] * s, "vector field times number in place");
            eq(host(b)[i][j], u[i][j], "b + (a - b) is a");
        }
    }
    eqAll(host(g), y, "operands are unchanged");
    sym_assert(p.size() == n && q.size() == n && c.size() == n && d.size() == n && m.size() == n, "sizes");
    sym_assert(p.exec() == e && m.exec() == e, "results are on the executor of the operands");
    // an operand may be the field itself
    Field<scalar> t(e, x);
    t += t;
    for (size_t i = 0; i < n; i++) eq(host(t)[i], x[i] + x[i], "a field added to itself");
    const Field<scalar> t0(t);
    auto tt = t * t;
    for (size_t i = 0; i < n; i++) eq(host(tt)[i], host(t0)[i] * host(t0)[i], "a field times itself");
    eqAll(host(t), host(t0), "a field times itself stays as it is");
    auto t2 = t + t, t3 = t - t;
    for (size_t i = 0; i < n; i++) { eq(host(t2)[i], 2.0 * host(t0)[i], "a field plus itself"); eq(host(t3)[i], 0.0, "a field minus itself"); }
    eqAll(host(t), host(t0), "a field as both operands stays as it is");
    t = t;
    eqAll(host(t), host(t0), "a field assigned to itself");
    sym_assert(NF::equal(t, t), "a field equals itself");
    t *= t;
    for (size_t i = 0; i < n; i++) eq(host(t)[i], host(t0)[i] * host(t0)[i], "a field times itself in place");
    t -= t;
    for (size_t i = 0; i < n; i++) eq(host(t)[i], 0.0, "a field subtracted from itself");
    sym_reach("end");
}
// comparison: equal exactly when every element and the length agree
ENTRY(c10_equal)
{
    Executor e = symExec("e"), o = symExec("o");
    size_t n = (size_t)sym_choose("n", 0, 2), k = (size_t)sym_choose("k", 0, 2);
    auto x = symScalars("x", n), y = symScalars("y", k);
    scalar s = sym_f64("s");
    Field<scalar> f(e, x), g(o, y);
    bool same = n == k, all = true;
    for (size_t i = 0; i < n && i < k; i++) same = same && x[i] == y[i];
    for (auto& z : x) all = all && z == s;
    sym_assert(NF::equal(f, g) == same, "fields are equal exactly when length and elements agree, on any executors");
    sym_assert(NF::equal(f, s) == all, "a field is uniform exactly when every element is the value");
    sym_assert(NF::equal(f, NF::View<scalar>(y.data(), k)) == same, "a field equals host data exactly when length and elements agree");
    auto [hf, hg] = NF::copyToHosts(f, g);
    eqAll(host(hf), x, "copies to the host");
    eqAll(host(hg), y, "copies to the host");
    auto [vf, vg] = NF::spans(hf, hg);
    sym_assert(vf.data() == hf.data() && vg.data() == hg.data() && vf.size() == n && vg.size() == k, "views of several fields");
    sym_reach(same ? "same" : "different");
}
// long fields
ENTRY(c10_long)
{
    sym_sched_mode(0);
    Executor e = symExec(), o = symExec("o");
    const size_t lens[] = {256, 257, 1100};
    const size_t n = lens[sym_choose("length", 0, 2)];
    const size_t marks[] = {0, 255, n - 1};
    const size_t m = marks[sym_choose("mark", 0, 2)];
    scalar s = sym_f64("s"), t = sym_f64("t");
    std::vector<scalar> x(n), y(n);
    for (size_t i = 0; i < n; i++) { x[i] = (scalar)i; y[i] = (scalar)(i % 7); }
    x[m] = s;
    y[m] = t;
    Field<scalar> f(e, x), g(e, y), f2(o, x);
    auto all = [&](const Field<scalar>& r, auto want, const char* what) {
        auto hr = r.copyToHost();
        auto h = hr.view();
        bool ok = h.size() == n;
        for (size_t i = 0; i < n && ok; i++)
            if (i != m) ok = h[i] == want(x[i], y[i]);
        sym_assert(ok, what);
        eq(h[m], want(s, t), what);
    };
    switch (sym_choose("op", 0, 6))
    {
    case 0: f += g; all(f, [](scalar a, scalar b) { return a + b; }, "sum of long fields"); break;
    case 1: f -= g; all(f, [](scalar a, scalar b) { return a - b; }, "difference of long fields"); break;
    case 2: { auto r = f * g; all(r, [](scalar a, scalar b) { return a * b; }, "product of long fields"); break; }
    case 3: f *= 3.0; all(f, [](scalar a, scalar) { return a * 3.0; }, "long field times number"); break;
    case 4:
    {
        sym_assert(NF::equal(f, f2), "long fields with the same elements are equal");
        x[m] = t;
        Field<scalar> f3(o, x);
        sym_assert(NF::equal(f, f3) == (s == t), "long fields are equal exactly when every element agrees");
        std::vector<scalar> z(n, 2.0);
        z[m] = t;
        Field<scalar> f4(e, z);
        sym_assert(NF::equal(f4, 2.0) == (t == 2.0), "a long field is uniform exactly when every element is the value");
        break;
    }
    case 5:
    {
        NF::fill(f, t, {m, n});
        auto h = host(f);
        bool ok = true;
        for (size_t i = 0; i < m; i++) ok = ok && h[i] == x[i];
        sym_assert(ok, "filling a part of a long field keeps the rest");
        eq(h[m], t, "filling a part of a long field");
        eq(h[n - 1], t, "filling a part of a long field");
        break;
    }
    case 6:
    {
        NF::setField(f, g.view(), {0, m + 1});
        auto h = host(f);
        bool ok = true;
        for (size_t i = 0; i < n; i++) if (i != m) ok = ok && h[i] == (i < m ? y[i] : x[i]);
        sym_assert(ok, "setting a part of a long field");
        eq(h[m], t, "setting a part of a long field");
        break;
    }
    }
    sym_reach("end");
}

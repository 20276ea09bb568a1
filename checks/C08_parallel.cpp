// parallelFor / parallelReduce / parallelScan: same meaning on every executor and schedule.
#include "inc/nf.hpp"
#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/operations/sum.hpp"
namespace
{
struct Rng { size_t b, e; };
Rng symRange(int n)
{
    size_t b = (size_t)sym_choose("begin", 0, n);
    size_t e = (size_t)sym_choose("end", 0, n);
    return {b, e};
}
}
// every index of the range exactly once, nothing else
ENTRY(c08_for_range)
{
    sym_sched_mode(2);
    Executor exec = symExec();
    const int n = TIER(3, 4);
    Rng r = symRange(n);
    Field<int> count(exec, (size_t)n + 1, 0);
    auto v = count.view();
    size_t off = (size_t)sym_choose("form", 0, 1);
    auto kernel = KOKKOS_LAMBDA(const size_t i) { v[i] = v[i] + 1 + 10 * (int)i; };
    if (off) NF::parallelFor(exec, {r.b, r.e}, kernel, "named");
    else std::visit([&](const auto& e) { NF::parallelFor(e, {r.b, r.e}, kernel); }, exec);
    auto h = host(count);
    for (size_t i = 0; i <= (size_t)n; i++)
        sym_assert(h[i] == (i >= r.b && i < r.e ? 1 + 10 * (int)i : 0), "each index of the range is visited exactly once and no other");
    sym_reach("end");
}
// field form: every element receives the kernel's value for its index
ENTRY(c08_for_field)
{
    sym_sched_mode(2);
    Executor exec = symExec();
    size_t n = (size_t)sym_choose("n", 0, TIER(3, 4));
    auto x = symScalars("x", n);
    Field<scalar> in(exec, x), out(exec, n, 0.0);
    auto v = in.view();
    NF::parallelFor(out, KOKKOS_LAMBDA(const size_t i) { return 2.0 * v[i] + 1.0; });
    auto h = host(out);
    for (size_t i = 0; i < n; i++) eq(h[i], 2.0 * x[i] + 1.0, "every element receives its value");
    eqAll(host(in), x, "operands are unchanged");
    sym_reach("end");
}
// reductions: the result is the reduction over the range, whatever the variable held before
ENTRY(c08_reduce)
{
    sym_sched_mode(1);
    Executor exec = symExec();
    bool whole = sym_choose("whole", 0, 1);
    const int n = whole ? sym_choose("n", 0, TIER(3, 5)) : TIER(3, 5);
    auto x = symScalars("x", (size_t)n);
    Field<scalar> f(exec, x);
    auto v = f.view();
    Rng r = whole ? Rng {0, (size_t)n} : symRange(n);
    int op = (int)sym_choose("op", 0, 2);
    scalar res = sym_f64("before");
    scalar want = op == 0 ? 0.0 : op == 1 ? std::numeric_limits<scalar>::lowest() : std::numeric_limits<scalar>::max();
    for (size_t i = r.b; i < r.e; i++)
    {
        if (op == 0) want += x[i];
        else if (op == 1) want = want < x[i] ? x[i] : want;
        else want = x[i] < want ? x[i] : want;
    }
    if (op == 0)
    {
        auto k = KOKKOS_LAMBDA(const size_t i, scalar& s) { s += v[i]; };
        if (whole) NF::parallelReduce(f, k, res);
        else NF::parallelReduce(exec, {r.b, r.e}, k, res);
    }
    else if (op == 1)
    {
        Kokkos::Max<scalar> red(res);
        auto k = KOKKOS_LAMBDA(const size_t i, scalar& s) { if (s < v[i]) s = v[i]; };
        if (whole) NF::parallelReduce(f, k, red);
        else NF::parallelReduce(exec, {r.b, r.e}, k, red);
    }
    else
    {
        Kokkos::Min<scalar> red(res);
        auto k = KOKKOS_LAMBDA(const size_t i, scalar& s) { if (v[i] < s) s = v[i]; };
        if (whole) NF::parallelReduce(f, k, red);
        else NF::parallelReduce(exec, {r.b, r.e}, k, red);
    }
    eq(res, want, "a reduction yields the reduction over its range, on every executor");
    sym_reach("end");
}
// prefix sums: every partial result and the total
ENTRY(c08_scan)
{
    sym_sched_mode(1);
    Executor exec = symExec();
    const int n = TIER(4, 6);
    auto x = symScalars("x", (size_t)n);
    Field<scalar> f(exec, x), pre(exec, (size_t)n, -1.0);
    auto v = f.view();
    auto p = pre.view();
    Rng r = symRange(n);
    bool ret = sym_choose("ret", 0, 1);
    scalar total = sym_f64("before");
    auto k = KOKKOS_LAMBDA(const size_t i, scalar& up, const bool final) {
        if (final) p[i] = up;
        up += v[i];
    };
    if (ret) NF::parallelScan(exec, {r.b, r.e}, k, total);
    else NF::parallelScan(exec, {r.b, r.e}, k);
    auto h = host(pre);
    scalar acc = 0;
    for (size_t i = 0; i < (size_t)n; i++)
    {
        bool in = i >= r.b && i < r.e;
        eq(h[i], in ? acc : -1.0, "a scan yields the sum of the elements before, inside its range only");
        if (in) acc += x[i];
    }
    if (ret) eq(total, acc, "a scan returns the total");
    sym_reach("end");
}
ENTRY(c08_sum)
{
    sym_sched_mode(1);
    Executor exec = symExec();
    size_t n = (size_t)sym_choose("n", 0, TIER(3, 5));
    auto x = symScalars("x", n);
    Field<scalar> f(exec, x);
    scalar s = sym_f64("before"), want = 0;
    NF::SumKernel k {};
    std::visit([&](const auto& e) { k(e, f, s); }, exec);
    for (double y : x) want += y;
    eq(s, want, "the sum of a field, on every executor");
    sym_reach("end");
}
// equality of executors is equality of their kind
ENTRY(c08_executors)
{
    Executor a = symExec("a"), b = symExec("b");
    sym_assert((a == b) == (a.index() == b.index()) && (a != b) == (a.index() != b.index()), "executors compare by kind");
    sym_reach("end");
}

// long ranges: the same beyond every small limit, far from zero
ENTRY(c08_long)
{
    sym_sched_mode(0);
    Executor exec = symExec();
    const size_t lens[] = {257, 1100, 66000};
    const size_t n = lens[sym_choose("length", 0, 2)];
    scalar s = sym_f64("s");
    const int op = (int)sym_choose("op", 0, 4);
    const size_t mark = n - 1;
    if (op == 0) // the first index is far away
    {
        const size_t base[] = {0, (size_t)1 << 16, ((size_t)1 << 31) + 7, ((size_t)1 << 32) + 3};
        const size_t b = base[sym_choose("base", 0, 3)];
        Field<int> count(exec, n, 0);
        auto v = count.view();
        NF::parallelFor(exec, {b, b + n}, KOKKOS_LAMBDA(const size_t i) { v[i - b] = v[i - b] + 1; });
        auto h = host(count);
        bool once = true;
        for (size_t i = 0; i < n; i++) once = once && h[i] == 1;
        sym_assert(once, "each index of a long range is visited exactly once");
    }
    else if (op == 1)
    {
        Field<int> f(exec, n, 0);
        NF::parallelFor(f, KOKKOS_LAMBDA(const size_t i) { return (int)(i % 1000) + 1; });
        auto h = host(f);
        bool ok = true;
        for (size_t i = 0; i < n; i++) ok = ok && h[i] == (int)(i % 1000) + 1;
        sym_assert(ok, "every element of a long field receives its value");
    }
    else if (op == 2)
    {
        long total = sym_i64("before", -5, 5);
        const size_t b = sym_choose("tail", 0, 1) ? n - 3 : 0;
        NF::parallelReduce(exec, {b, n}, KOKKOS_LAMBDA(const size_t i, long& t) { t += (long)i; }, total);
        sym_assert(total == (long)(n * (n - 1) / 2) - (long)(b ? (b * (b - 1) / 2) : 0), "a long reduction");
        Field<int> f(exec, n, 1);
        auto v = f.view();
        long total2 = sym_i64("before2", -5, 5);
        NF::parallelReduce(f, KOKKOS_LAMBDA(const size_t i, long& t) { t += v[i]; }, total2);
        sym_assert(total2 == (long)n, "a long reduction over a field");
    }
    else if (op == 3)
    {
        Field<long> pre(exec, n, -1L);
        auto p = pre.view();
        auto k = KOKKOS_LAMBDA(const size_t i, long& up, const bool final) {
            up += (long)i;
            if (final) p[i] = up;
        };
        long total = 0;
        if (sym_choose("ret", 0, 1)) NF::parallelScan(exec, {0, n}, k, total);
        else { NF::parallelScan(exec, {0, n}, k); total = (long)(n * (n - 1) / 2); }
        auto h = host(pre);
        bool ok = total == (long)(n * (n - 1) / 2);
        for (size_t i = 0; i < n; i++) ok = ok && h[i] == (long)(i * (i + 1) / 2);
        sym_assert(ok, "every partial sum of a long scan");
    }
    else
    {
        if (n > 2000) { sym_reach("end"); return; }
        std::vector<scalar> x(n, 1.0);
        x[mark] = s;
        Field<scalar> f(exec, x);
        scalar t = 5;
        NF::SumKernel k {};
        std::visit([&](const auto& e) { k(e, f, t); }, exec);
        eq(t, (scalar)(n - 1) + s, "the sum of a long field");
    }
    sym_reach("end");
}

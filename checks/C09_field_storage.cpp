// Field: owned storage on one executor.
#include "inc/nf.hpp"
namespace
{
template<class T> T symT(const char* nm);
template<> scalar symT<scalar>(const char* nm) { return sym_f64(nm); }
template<> Vector symT<Vector>(const char* nm) { return symVector(nm); }
template<> int symT<int>(const char* nm) { return (int)sym_i64(nm, 0, 100); }
template<class T> std::vector<T> symTs(const char* nm, size_t n)
{
    std::vector<T> r;
    for (size_t i = 0; i < n; i++) r.push_back(symT<T>(nm));
    return r;
}
template<class T> void history(int steps)
{
    Executor ea = symExec("exec");
    std::vector<T> m;
    {
        Field<T> f(ea, (size_t)0);
        for (int s = 0; s < steps; s++)
        {
            switch (sym_choose("op", 0, 5))
            {
            case 0: // resize keeps the common part; new elements are set afterwards
            {
                size_t n = (size_t)sym_choose("n", 0, 3), old = m.size();
                f.resize(n);
                sym_assert(f.size() == n, "resize sets the size");
                m.resize(n);
                if (n > old)
                {
                    T v = symT<T>("fill");
                    NF::fill(f, v, {old, n});
                    for (size_t i = old; i < n; i++) m[i] = v;
                }
                break;
            }
            case 1: // assignment from a field of any length on the same executor
            {
                auto x = symTs<T>("x", (size_t)sym_choose("len", 0, 3));
                Field<T> g(ea, x);
                f = g;
                m = x;
                NF::fill(g, T {});
                break;
            }
            case 2: // uniform assignment
            {
                T v = symT<T>("v");
                f = v;
                for (auto& y : m) y = v;
                break;
            }
            case 3: // copies are independent
            {
                Field<T> g(f);
                NF::fill(f, T {});
                eqAll(host(g), m, "a copy has the contents");
                f = g;
                break;
            }
            case 4: // through another executor and back
            {
                Executor eb = symExec("other");
                Field<T> g(eb, f);
                sym_assert(g.exec() == eb && g.size() == f.size(), "a copy lives on the executor asked for");
                Field<T> h = g.copyToExecutor(ea);
                NF::fill(f, T {});
                eqAll(host(g), m, "copying to another executor keeps every element");
                f = h;
                break;
            }
            case 5: // moving takes the storage over
            {
                Field<T> g(std::move(f));
                sym_assert(f.size() == 0 && f.empty() && f.data() == nullptr, "a moved-from field is empty");
                eqAll(host(g), m, "moving keeps every element");
                sym_assert(g.exec() == ea, "moving keeps the executor");
                f.resize(g.size());
                f = g;
                break;
            }
            }
            sym_assert(f.exec() == ea, "a field never changes its executor");
        }
        sym_assert(f.size() == m.size() && f.ssize() == (NF::label)m.size() && f.empty() == m.empty(), "size");
        sym_assert(f.range().first == 0 && f.range().second == m.size(), "range");
        sym_assert(f.view().size() == m.size() && f.view().data() == f.data(), "the view covers the field");
        eqAll(host(f), m, "a field holds the values last stored");
    }
    sym_assert(nfk_live() == 0, "every block of memory is released");
    sym_reach("end");
}
}
ENTRY(c09_history_scalar) { history<scalar>(TIER(3, 4)); }
ENTRY(c09_history_vector) { history<Vector>(TIER(2, 3)); }
ENTRY(c09_history_int) { history<int>(TIER(2, 3)); }
// every way of building a field
ENTRY(c09_construct)
{
    {
        Executor e = symExec();
        size_t n = (size_t)sym_choose("n", 0, 4);
        auto x = symScalars("x", n);
        scalar v = sym_f64("v");
        Field<scalar> a(e, x), b(e, x.data(), n), c(e, n, v), d(e, n), k(a);
        Executor o = symExec("o");
        Field<scalar> g(o, a);
        Field<scalar> g2(o, a.data(), n, e);
        eqAll(host(a), x, "from a vector");
        eqAll(host(b), x, "from memory");
        eqAll(host(c), std::vector<scalar>(n, v), "uniform");
        eqAll(host(k), x, "copy");
        eqAll(host(g), x, "copy on another executor");
        eqAll(host(g2), x, "from memory of another executor");
        std::vector<scalar> roomy;
        roomy.reserve(n + 5);
        for (auto& y : x) roomy.push_back(y);
        Field<scalar> m(e, std::move(roomy));
        sym_assert(m.size() == n, "the size of a field from a temporary vector");
        eqAll(host(m), x, "from a temporary vector with spare capacity");
        sym_assert(d.size() == n && a.exec() == e && g.exec() == o && k.exec() == e, "size and executor");
        NF::fill(a, v);
        eqAll(host(k), x, "a copy is independent");
        Field<scalar> h(NF::SerialExecutor {}, n);
        k.copyToHost(h);
        eqAll(host(h), x, "copy into a host field");
        Field<scalar> hh = k.copyToHost();
        sym_assert(hh.exec() == Executor(NF::SerialExecutor {}), "a host copy is on the host");
        size_t b0 = n ? (size_t)sym_choose("b", 0, (int)n) : 0, e0 = (size_t)sym_choose("e", (int)b0, (int)n);
        auto w = hh.view({b0, e0});
        const Field<scalar>& ch = hh;
        auto cw = ch.view({b0, e0});
        sym_assert(w.size() == e0 - b0 && cw.size() == e0 - b0, "a view of a range has its length");
        for (size_t i = b0; i < e0; i++) { eq(w[i - b0], x[i], "a view of a range"); eq(cw[i - b0], x[i], "a view of a range"); }
    }
    sym_assert(nfk_live() == 0, "every block of memory is released");
    sym_reach("end");
}
// assigning across executors is refused
ENTRY(c09_refuse)
{
    Executor a = symExec("a"), b = symExec("b");
    Field<scalar> x(a, (size_t)2, 1.0), y(b, (size_t)2, 2.0);
    if (!(a == b)) sym_expect_termination(2, "refused");
    x = y;
    sym_assert(a == b, "assignment across executors is refused");
    eqAll(host(x), host(y), "assignment");
    sym_reach("assigned");
}

// long fields
ENTRY(c09_long)
{
    {
        Executor e = symExec(), o = symExec("o");
        const size_t lens[] = {257, 1100, 40000, 66000};
        const size_t n = lens[sym_choose("length", 0, 3)];
        const int mark = (int)sym_i64("mark", 0, 1000);
        std::vector<int> x(n);
        for (size_t i = 0; i < n; i++) x[i] = (int)i;
        x[n - 1] = mark;
        x[255] = mark;
        Field<int> a(e, x);
        sym_assert(a.size() == n && a.ssize() == (NF::label)n && a.range().second == n && a.view().size() == n, "the length of a long field");
        auto same = [&](const Field<int>& f, size_t m, const char* what) {
            auto hf = f.copyToHost();
            auto h = hf.view();
            bool ok = h.size() == m;
            for (size_t i = 0; i < m && ok; i++) if (i != n - 1 && i != 255) ok = h[i] == (int)i;
            sym_assert(ok && (m < 256 || h[255] == mark) && (m < n || h[n - 1] == mark), what);
        };
        switch (sym_choose("op", 0, 5))
        {
        case 0: same(a, n, "a long field holds its values"); break;
        case 1:
        {
            Field<int> b = a.copyToExecutor(o);
            same(b, n, "copying a long field keeps every element");
            break;
        }
        case 2:
        {
            Field<int> b(o, a);
            same(b, n, "a long copy on another executor keeps every element");
            break;
        }
        case 3:
        {
            Field<int> b(e, (size_t)2, 0);
            b = a;
            same(b, n, "assigning a long field keeps every element");
            break;
        }
        case 4:
        {
            a.resize(n - 100);
            same(a, n - 100, "shrinking keeps the common elements");
            a.resize(n + 100);
            const Field<int>& ca = a;
            auto h = ca.copyToHost();
            bool ok = h.size() == n + 100;
            for (size_t i = 0; i < n - 100 && ok; i++) if (i != 255) ok = h.view()[i] == (int)i;
            sym_assert(ok, "growing keeps the common elements");
            break;
        }
        case 5:
        {
            Field<int> b(e, n, mark);
            b = 7;
            NF::fill(b, 9, {n - 1, n});
            auto h = host(b);
            bool ok = true;
            for (size_t i = 0; i + 1 < n; i++) ok = ok && h[i] == 7;
            sym_assert(ok && h[n - 1] == 9, "filling a long field");
            break;
        }
        }
    }
    sym_assert(nfk_live() == 0, "every block of memory is released");
    sym_reach("end");
}
// copying into a host field of any length: it is refused or the field becomes the copy
ENTRY(c09_into)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, 2), m = (size_t)sym_choose("m", 0, 3);
    auto x = symScalars("x", n);
    Field<scalar> a(e, x), h(NF::SerialExecutor {}, m, -1.0);
    if (m != n) sym_expect_termination(2, "refused");
    a.copyToHost(h);
    sym_assert(h.size() == n && h.exec() == Executor(NF::SerialExecutor {}), "a host field becomes the copy");
    eqAll(host(h), x, "copy into a host field");
    eqAll(host(a), x, "the source is unchanged");
    sym_reach("copied");
}
// memory taken from an executor directly
template<class T> static void rawMemory()
{
    Executor e = symExec("exec", 0, 2);
    size_t n = (size_t)sym_choose("n", 1, 3), m = (size_t)sym_choose("m", 1, 4);
    bool typed = sym_choose("typed", 0, 1) == 1;
    auto x = symTs<T>("x", 4);
    auto src = Field<T>(e, x);
    auto in = src.view();
    std::visit(
        [&](const auto& ex)
        {
            T* p = nullptr;
            if constexpr (requires { ex.template alloc<T>(n); ex.template realloc<T>(p, m); })
            {
                if (typed) p = ex.template alloc<T>(n);
            }
            else typed = false;
            if (!typed) p = (T*)ex.alloc(n * sizeof(T));
            if constexpr (requires { ex.createKokkosView(p, n)(n); })
            {
                auto v = ex.createKokkosView(p, n);
                NF::parallelFor(ex, {0, n}, KOKKOS_LAMBDA(const size_t i) { v(i) = in[i]; });
            }
            else NF::parallelFor(ex, {0, n}, KOKKOS_LAMBDA(const size_t i) { p[i] = in[i]; });
            if constexpr (requires { ex.template alloc<T>(n); ex.template realloc<T>(p, m); })
            {
                if (typed) p = ex.template realloc<T>(p, m);
            }
            if (!typed) p = (T*)ex.realloc(p, m * sizeof(T));
            NF::parallelFor(ex, {n < m ? n : m, m}, KOKKOS_LAMBDA(const size_t i) { p[i] = in[i]; });
            Field<T> out(e, m);
            auto o = out.view();
            NF::parallelFor(ex, {0, m}, KOKKOS_LAMBDA(const size_t i) { o[i] = p[i]; });
            auto h = host(out);
            x.resize(m);
            eqAll(h, x, "a block keeps what is written");
            ex.free(p);
        },
        e
    );
    sym_reach("freed");
}
ENTRY(c09_block_scalar)
{
    rawMemory<scalar>();
    sym_assert(nfk_live() == 0, "every block of memory is released");
    sym_reach("end");
}
ENTRY(c09_block_vector)
{
    rawMemory<Vector>();
    sym_assert(nfk_live() == 0, "every block of memory is released");
    sym_reach("end");
}

// View: a non-owning window on consecutive elements, bounds checked in debug builds.
#define NF_DEBUG 1
#include <Kokkos_Core.hpp>
#include "inc/util.hpp"
#include "NeoFOAM/core/view.hpp"
using NeoFOAM::View;

// every index into a view of every length: in range yields the element, out of range stops the
// program (debug builds)
ENTRY(c07_checked)
{
    int n = (int)sym_choose("n", 0, TIER(4, 6));
    std::vector<int> d;
    for (int i = 0; i < n; i++) d.push_back((int)sym_i64("d", 0, 1000));
    View<int> v(d.data(), (size_t)n);
    View<const int> c = std::span<const int>(d.data(), (size_t)n);
    sym_assert(v.size() == (size_t)n && c.size() == (size_t)n, "a view has the length it was given");
    size_t i = (size_t)sym_i64("i", INT64_MIN, INT64_MAX); // every 64-bit index
    bool in = i < (size_t)n;
    bool viaConst = sym_choose("const", 0, 1);
    if (!in) sym_expect_termination(2, "refused");
    int x = -1;
    try { x = viaConst ? c[i] : v[i]; }
    catch (...) { sym_assert(false, "an access does not throw"); }
    sym_assert(in, "an index out of range is refused");
    sym_assert(x == d[i], "an index in range yields the element");
    if (!viaConst) { v[i] = -5; sym_assert(d[i] == -5 && c[i] == -5, "a view writes through"); }
    for (int j = 0; j < n; j++) if ((size_t)j != i) sym_assert(d[(size_t)j] >= 0, "no other element is written");
    sym_reach("element");
}
// with abort switched off the first bad index is recorded instead
ENTRY(c07_record)
{
    int n = (int)sym_choose("n", 1, 4);
    std::vector<int> d((size_t)n + 8, 7);
    View<int> v(d.data(), (size_t)n);
    v.abort = false;
    size_t first = 0;
    for (int k = 0; k < 3; k++)
    {
        size_t i = (size_t)sym_i64("i", INT64_MIN, INT64_MAX);
        (void)&v[i];
        if (i >= (size_t)n && first == 0) first = i;
        sym_assert(v.failureIndex == first, "the first index out of range is recorded");
    }
    // told to abort again, the next one ends the program
    v.abort = true;
    size_t i = (size_t)sym_i64("i", INT64_MIN, INT64_MAX);
    if (i >= (size_t)n) sym_expect_termination(2, "refused");
    try { (void)&v[i]; }
    catch (...) { sym_assert(false, "an access does not throw"); }
    sym_assert(i < (size_t)n, "an index out of range is refused");
    sym_assert(v.failureIndex == first, "the first index out of range is recorded");
    sym_reach(first ? "recorded" : "clean");
}
// ways of building a view; sub-views
ENTRY(c07_build)
{
    std::vector<double> d;
    for (int i = 0; i < 4; i++) d.push_back(sym_f64("d"));
    std::span<double> s(d);
    View<double> a(s);
    View<double> b(d.data(), d.data() + 3);
    View<double> e;
    sym_assert(a.size() == 4 && a.data() == d.data(), "view of a span");
    sym_assert(b.size() == 3 && b.data() == d.data(), "view of a range");
    sym_assert(e.empty() && e.size() == 0, "an empty view");
    int o = (int)sym_choose("o", 0, 4), n = (int)sym_choose("n", 0, 4 - o);
    View<double> sub = a.subspan((size_t)o, (size_t)n);
    sym_assert(sub.size() == (size_t)n, "length of a sub-view");
    for (int i = 0; i < n; i++) sym_assert_eq(sub[(size_t)i], d[(size_t)(o + i)], "elements of a sub-view");
    double sum = 0, want = 0;
    for (double x : a) sum += x;
    for (double x : d) want += x;
    sym_assert_eq(sum, want, "iteration visits the elements");
    sym_reach("end");
}
// any number of elements of different sizes: an address is handed out for exactly the indices in range
namespace
{
struct Wide { double x[5]; };
template<class T> void anyLength(bool record)
{
    T one {};
    size_t n = (size_t)sym_i64("n", 0, INT64_MAX / (int64_t)sizeof(T));
    size_t i = (size_t)sym_i64("i", INT64_MIN, INT64_MAX);
    View<T> v(&one, n);
    if (sym_choose("span", 0, 1)) v = View<T>(std::span<T>(&one, n));
    sym_assert(v.size() == n, "a view has the length it was given");
    v.abort = !record;
    bool in = i < n;
    if (!in && !record) sym_expect_termination(2, "refused");
    T* p = &v[i];
    if (in) sym_assert((char*)p == (char*)&one + i * sizeof(T), "an index in range refers to the element at that position");
    sym_assert(in || record, "an index out of range is refused");
    sym_assert(v.failureIndex == (in ? 0 : i), "exactly an index out of range is recorded");
    sym_reach(in ? "element" : "recorded");
}
}
ENTRY(c07_any)
{
    bool record = sym_choose("record", 0, 1);
    switch (sym_choose("type", 0, 2))
    {
    case 0: anyLength<int>(record); break;
    case 1: anyLength<char>(record); break;
    case 2: anyLength<Wide>(record); break;
    }
}

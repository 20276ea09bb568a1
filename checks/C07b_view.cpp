// View in release builds (element types differ from those of C07_view.cpp).
#include <Kokkos_Core.hpp>
#include "inc/util.hpp"
#include "NeoFOAM/core/view.hpp"
ENTRY(c07_release)
{
    int n = (int)sym_choose("n", 1, 4);
    std::vector<long> d;
    for (int i = 0; i < n; i++) d.push_back((long)sym_i64("d", 0, 1000));
    NeoFOAM::View<long> v(d.data(), (size_t)n);
    NeoFOAM::View<const long> c = std::span<const long>(d.data(), (size_t)n);
    size_t i = (size_t)sym_i64("i", 0, n - 1);
    sym_assert(v[i] == d[i] && c[i] == d[i], "an index in range yields the element");
    v[i] = -5;
    for (size_t j = 0; j < (size_t)n; j++) sym_assert((d[j] == -5) == (j == i) && c[j] == d[j], "a view writes through to that element only");
    sym_assert(v.failureIndex == 0, "no failure is recorded");
    sym_reach("end");
}

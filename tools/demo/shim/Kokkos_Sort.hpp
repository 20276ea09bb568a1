#pragma once
#include <Kokkos_Core.hpp>
#include <algorithm>
namespace Kokkos
{
template<class T, class... P> inline void sort(const View<T, P...>& v) { std::sort(v.data(), v.data() + v.size()); }
template<class E, class T, class... P> inline void sort(const E&, const View<T, P...>& v) { sort(v); }
}

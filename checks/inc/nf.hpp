// Helpers of the harnesses that use fields and executors.
#pragma once
#include <Kokkos_Core.hpp>
#include "util.hpp"
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/fields/field.hpp"
namespace NF = NeoFOAM;
using NF::Executor;
using NF::Field;
using NF::scalar;
using NF::Vector;

inline Executor symExec(const char* nm = "exec", int lo = 0, int hi = 2)
{
#ifdef NF_GPU_ONLY
    if (hi == 2 && std::string(nm) == "exec") return NF::GPUExecutor {};
#endif
    int k = (int)sym_choose(nm, lo, hi);
    if (k == 0) return NF::SerialExecutor {};
    if (k == 1) return NF::CPUExecutor {};
    return NF::GPUExecutor {};
}
template<class T> inline std::vector<T> host(const Field<T>& f)
{
    auto h = f.copyToHost();
    auto v = h.view();
    std::vector<T> r;
    for (size_t i = 0; i < v.size(); i++) r.push_back(v[i]);
    return r;
}
// long lists: a few arbitrary values among many given ones
inline bool longFree(size_t i) { return i == 3 || i == 260; }
inline double longValue(size_t i, size_t j) { return 0.25 * (double)(1 + (i * 5 + j * 3) % 13); }
inline std::vector<scalar> symScalars(const char* nm, size_t n)
{
    std::vector<scalar> r;
    for (size_t i = 0; i < n; i++) r.push_back(n < 200 || longFree(i) ? sym_f64(nm) : longValue(i, 0));
    return r;
}
// the same, also with negative ones
inline std::vector<scalar> symSigned(const char* nm, size_t n)
{
    auto r = symScalars(nm, n);
    for (size_t i = 0; n >= 200 && i < n; i++)
        if (!longFree(i) && i % 3 == 1) r[i] = -r[i];
    return r;
}
inline Vector symVector(const char* nm)
{
    double a = sym_f64(nm), b = sym_f64(nm), c = sym_f64(nm);
    return Vector(a, b, c);
}
inline std::vector<Vector> symVectors(const char* nm, size_t n)
{
    std::vector<Vector> r;
    for (size_t i = 0; i < n; i++) r.push_back(n < 200 || longFree(i) ? symVector(nm) : Vector(longValue(i, 0), longValue(i, 1), longValue(i, 2)));
    return r;
}
inline void eq(double a, double b, const char* m) { sym_assert_eq(a, b, m); }
inline void eq(const Vector& a, const Vector& b, const char* m)
{
    for (size_t i = 0; i < 3; i++) sym_assert_eq(a[i], b[i], m);
}
inline void eq(int a, int b, const char* m) { sym_assert(a == b, m); }
inline void eq(unsigned a, unsigned b, const char* m) { sym_assert(a == b, m); }
inline void eq(size_t a, size_t b, const char* m) { sym_assert(a == b, m); }
inline void eq(int64_t a, int64_t b, const char* m) { sym_assert(a == b, m); }
template<class T> inline void eqAll(const std::vector<T>& a, const std::vector<T>& b, const char* m)
{
    sym_assert(a.size() == b.size(), m);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) eq(a[i], b[i], m);
}
template<class T> T symVal(const char* nm);
template<> inline scalar symVal<scalar>(const char* nm) { return sym_f64(nm); }
template<> inline Vector symVal<Vector>(const char* nm) { return symVector(nm); }
template<class T> inline std::vector<T> symVals(const char* nm, size_t n)
{
    if constexpr (std::is_same_v<T, scalar>) return symScalars(nm, n);
    if constexpr (std::is_same_v<T, Vector>) return symVectors(nm, n);
    std::vector<T> r;
    for (size_t i = 0; i < n; i++) r.push_back(symVal<T>(nm));
    return r;
}

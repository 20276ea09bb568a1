// Environment model of Kokkos (https://github.com/kokkos/kokkos), which is not installed here.
//
// It models the documented behaviour of the part of the Kokkos API that NeoFOAM uses, and a little
// more. Parallel constructs hand their iterations to nfk_parfor (lib/sym.h): the symbolic executor
// runs them as concurrent tasks in an order it treats as nondeterministic and reports conflicting
// accesses; the native runtime replays a recorded order.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <complex>
#include <concepts>
#include <cstdint>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <unordered_map>
#include <variant>
#include <vector>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include "sym.h"

#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_IF_ON_HOST(CODE) { KOKKOS_IMPL_STRIP_PARENS(CODE) }
#define KOKKOS_IF_ON_DEVICE(CODE)
#define KOKKOS_IMPL_STRIP_PARENS(X) KOKKOS_IMPL_ESC(KOKKOS_IMPL_ISH X)
#define KOKKOS_IMPL_ISH(...) KOKKOS_IMPL_ISH __VA_ARGS__
#define KOKKOS_IMPL_ESC(...) KOKKOS_IMPL_ESC_(__VA_ARGS__)
#define KOKKOS_IMPL_ESC_(...) KOKKOS_IMPL_NULL##__VA_ARGS__
#define KOKKOS_IMPL_NULLKOKKOS_IMPL_ISH
#define KOKKOS_ENABLE_SERIAL
#define KOKKOS_VERSION 40500

namespace Kokkos
{

// ---- memory and execution spaces --------------------------------------------------------------
struct HostSpace { static constexpr int id = 0; static constexpr const char* name() { return "Host"; } };
struct NfDeviceSpace { static constexpr int id = 1; static constexpr const char* name() { return "Device"; } };

template<unsigned F> struct MemoryTraits {};
enum : unsigned { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8 };
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryManaged = MemoryTraits<0>;
struct LayoutRight {};
struct LayoutLeft {};
struct DefaultLayout {};

struct Serial
{
    using execution_space = Serial;
    using memory_space = HostSpace;
    using size_type = size_t;
    static constexpr int id = 0;
    static const char* name() { return "Serial"; }
    void fence(const std::string& = "") const {}
    int concurrency() const { return 1; }
    friend bool operator==(const Serial&, const Serial&) { return true; }
    friend bool operator!=(const Serial&, const Serial&) { return false; }
};
// a thread-parallel host backend
struct NfHostParallel
{
    using execution_space = NfHostParallel;
    using memory_space = HostSpace;
    using size_type = size_t;
    static constexpr int id = 1;
    static const char* name() { return "HostParallel"; }
    void fence(const std::string& = "") const {}
    int concurrency() const { return 4; }
    friend bool operator==(const NfHostParallel&, const NfHostParallel&) { return true; }
    friend bool operator!=(const NfHostParallel&, const NfHostParallel&) { return false; }
};
// a parallel backend with a memory of its own
struct NfDevice
{
    using execution_space = NfDevice;
    using memory_space = NfDeviceSpace;
    using size_type = size_t;
    static constexpr int id = 2;
    static const char* name() { return "Device"; }
    void fence(const std::string& = "") const {}
    int concurrency() const { return 4; }
    friend bool operator==(const NfDevice&, const NfDevice&) { return true; }
    friend bool operator!=(const NfDevice&, const NfDevice&) { return false; }
};
using DefaultHostExecutionSpace = NfHostParallel;
using DefaultExecutionSpace = NfDevice;
using SharedSpace = HostSpace;

inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
struct ScopeGuard { template<class... A> ScopeGuard(A&&...) {} };
inline void fence(const std::string& = "") {}
inline int device_id() { return 0; }
[[noreturn]] inline void abort(const char*) { std::abort(); }
template<class... A> inline void printf(const char*, A...) {}

// ---- raw memory -------------------------------------------------------------------------------
template<class S> struct NfMemId { static constexpr int value = S::memory_space::id; };
template<> struct NfMemId<HostSpace> { static constexpr int value = 0; };
template<> struct NfMemId<NfDeviceSpace> { static constexpr int value = 1; };

// A zero-byte request is answered with a null pointer, as in Kokkos.
template<class S = DefaultExecutionSpace> inline void* kokkos_malloc(const std::string&, size_t n)
{
    return n == 0 ? nullptr : nfk_malloc(n, NfMemId<S>::value);
}
template<class S = DefaultExecutionSpace> inline void* kokkos_malloc(size_t n)
{
    return n == 0 ? nullptr : nfk_malloc(n, NfMemId<S>::value);
}
template<class S = DefaultExecutionSpace> inline void kokkos_free(void* p)
{
    if (p != nullptr) nfk_free(p, NfMemId<S>::value);
}
template<class S = DefaultExecutionSpace> inline void* kokkos_realloc(void* p, size_t n)
{
    // Kokkos looks up the allocation record of p: reallocating nothing is an error there
    if (p == nullptr) throw std::runtime_error("kokkos_realloc of a pointer that is not tracked");
    // like Kokkos: the new block exists (and has to be freed) also when its size is zero
    void* q = nfk_malloc(n, NfMemId<S>::value);
    size_t old = nfk_size(p);
    if (q != nullptr) nfk_memcpy(q, p, old < n ? old : n);
    nfk_free(p, NfMemId<S>::value);
    return q;
}

// ---- policies ---------------------------------------------------------------------------------
struct NfNone {};
template<class A = NfNone, class... P> struct NfFirst { using type = A; };
template<class... Props> class RangePolicy
{
    template<class A> struct IsExec { static constexpr bool value = requires { A::concurrency; } || std::is_same_v<A, Serial> || std::is_same_v<A, NfHostParallel> || std::is_same_v<A, NfDevice>; };
    template<class... P> struct Pick { using type = DefaultExecutionSpace; };
    template<class A, class... P> struct Pick<A, P...>
    {
        using type = std::conditional_t<IsExec<A>::value, A, typename Pick<P...>::type>;
    };
    size_t b_ = 0, e_ = 0;

public:

    using execution_space = typename Pick<Props...>::type;
    using index_type = size_t;
    using member_type = size_t;
    RangePolicy() = default;
    RangePolicy(size_t b, size_t e) : b_(b), e_(e < b ? b : e) {}
    RangePolicy(const execution_space&, size_t b, size_t e) : RangePolicy(b, e) {}
    size_t begin() const { return b_; }
    size_t end() const { return e_; }
};
struct IndexType_ {};
template<class T> struct IndexType {};
template<class T> struct Schedule {};

// ---- reducers ---------------------------------------------------------------------------------
template<class T> struct reduction_identity
{
    static constexpr T sum() { return T(); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
    static constexpr T land() { return T(1); }
    static constexpr T lor() { return T(0); }
};
#define NF_REDUCER(NAME, INIT, JOIN)                                                               \
    template<class Scalar, class Space = HostSpace> struct NAME                                    \
    {                                                                                              \
        using reducer = NAME<Scalar, Space>;                                                       \
        using value_type = std::remove_cv_t<Scalar>;                                               \
        value_type* ref_;                                                                          \
        NAME(value_type& v) : ref_(&v) {}                                                          \
        void join(value_type& dest, const value_type& src) const { JOIN; }                         \
        void init(value_type& v) const { v = reduction_identity<value_type>::INIT(); }             \
        value_type& reference() const { return *ref_; }                                            \
        bool references_scalar() const { return true; }                                            \
    };
NF_REDUCER(Sum, sum, dest += src)
NF_REDUCER(Prod, prod, dest *= src)
NF_REDUCER(Max, max, if (dest < src) dest = src)
NF_REDUCER(Min, min, if (src < dest) dest = src)
NF_REDUCER(LAnd, land, dest = dest && src)
NF_REDUCER(LOr, lor, dest = dest || src)
#undef NF_REDUCER
template<class T> struct is_reducer { static constexpr bool value = requires { typename T::reducer; }; };
template<class T> inline constexpr bool is_reducer_v = is_reducer<T>::value;

// ---- parallel constructs ----------------------------------------------------------------------
// The functor is copied for the parallel region, as every Kokkos back end does. For the device
// the copy lives in device memory.
template<class F> struct NfFunctorCopy
{
    F* f;
    F* host = nullptr;
    int space;
    NfFunctorCopy(const F& src, int execId) : space(execId == 2 ? 1 : 0)
    {
        f = static_cast<F*>(nfk_malloc(sizeof(F), space));
        if constexpr (std::is_trivially_copyable_v<F>) nfk_memcpy(f, &src, sizeof(F));
        else if (space == 0) new (f) F(src);
        else
        {
            // the device gets the bytes of a copy made by the host
            host = static_cast<F*>(nfk_malloc(sizeof(F), 0));
            new (host) F(src);
            nfk_memcpy(f, host, sizeof(F));
        }
    }
    ~NfFunctorCopy()
    {
        if constexpr (!std::is_trivially_copyable_v<F>)
        {
            if (space == 0) f->~F();
            else host->~F();
        }
        nfk_free(f, space);
        if (host != nullptr) nfk_free(host, 0);
    }
    NfFunctorCopy(const NfFunctorCopy&) = delete;
};

template<class... P, class F>
inline void parallel_for(const std::string&, const RangePolicy<P...>& policy, const F& f)
{
    constexpr int id = RangePolicy<P...>::execution_space::id;
    if (policy.begin() >= policy.end()) return;
    if constexpr (id == 0)
    {
        for (size_t i = policy.begin(); i < policy.end(); ++i) f(i);
    }
    else
    {
        NfFunctorCopy<F> copy(f, id);
        nfk_parfor(
            [](void* c, size_t i) { (*static_cast<const F*>(c))(i); }, copy.f, policy.begin(),
            policy.end(), id
        );
    }
}
template<class... P, class F> inline void parallel_for(const RangePolicy<P...>& p, const F& f)
{
    parallel_for(std::string(), p, f);
}
template<class F> inline void parallel_for(size_t n, const F& f)
{
    parallel_for(std::string(), RangePolicy<DefaultExecutionSpace>(0, n), f);
}
template<class F> inline void parallel_for(const std::string& s, size_t n, const F& f)
{
    parallel_for(s, RangePolicy<DefaultExecutionSpace>(0, n), f);
}

// Two teams share the range at an arbitrary point; each starts from the reducer's identity.
template<class F, class R> struct NfReduceCtx
{
    const F* f;
    typename R::value_type partial[2];
    size_t b, m, e;
    static void run(void* c, size_t t)
    {
        auto* x = static_cast<NfReduceCtx*>(c);
        size_t lo = t == 0 ? x->b : x->m, hi = t == 0 ? x->m : x->e;
        for (size_t i = lo; i < hi; ++i) (*x->f)(i, x->partial[t]);
    }
};
template<class... P, class F, class R>
inline void nfReduce(const RangePolicy<P...>& policy, const F& f, const R& red)
{
    constexpr int id = RangePolicy<P...>::execution_space::id;
    typename R::value_type acc;
    red.init(acc);
    if constexpr (id == 0)
    {
        for (size_t i = policy.begin(); i < policy.end(); ++i) f(i, acc);
    }
    else if (policy.begin() < policy.end())
    {
        NfFunctorCopy<F> copy(f, id);
        using Ctx = NfReduceCtx<F, R>;
        Ctx* c = new (nfk_malloc(sizeof(Ctx), 2)) Ctx {};
        c->f = copy.f;
        c->b = policy.begin();
        c->e = policy.end();
        c->m = nfk_split(c->b, c->e);
        red.init(c->partial[0]);
        red.init(c->partial[1]);
        nfk_parfor(&Ctx::run, c, 0, 2, id + 16);
        red.join(acc, c->partial[0]);
        red.join(acc, c->partial[1]);
        c->~Ctx();
        nfk_free(c, 2);
    }
    red.reference() = acc;
}
template<class... P, class F, class T>
inline void parallel_reduce(const std::string&, const RangePolicy<P...>& p, const F& f, T&& value)
{
    using U = std::remove_cvref_t<T>;
    if constexpr (is_reducer<U>::value) nfReduce(p, f, value);
    else nfReduce(p, f, Sum<U>(value));
}
template<class... P, class F, class T>
inline void parallel_reduce(const RangePolicy<P...>& p, const F& f, T&& value)
{
    parallel_reduce(std::string(), p, f, std::forward<T>(value));
}

template<class M> struct NfScanValue;
template<class C, class I, class T, class B> struct NfScanValue<void (C::*)(I, T&, B) const> { using type = T; };
template<class C, class I, class T, class B> struct NfScanValue<void (C::*)(I, T&, B)> { using type = T; };
template<class F, class T> struct NfScanCtx
{
    const F* f;
    T total[2];
    size_t b, m, e;
    bool final;
    static void run(void* c, size_t t)
    {
        auto* x = static_cast<NfScanCtx*>(c);
        size_t lo = t == 0 ? x->b : x->m, hi = t == 0 ? x->m : x->e;
        for (size_t i = lo; i < hi; ++i) (*x->f)(i, x->total[t], x->final);
    }
};
template<class T, class... P, class F> inline T nfScan(const RangePolicy<P...>& p, const F& f)
{
    constexpr int id = RangePolicy<P...>::execution_space::id;
    if constexpr (id == 0)
    {
        T acc {};
        for (size_t i = p.begin(); i < p.end(); ++i) f(i, acc, true);
        return acc;
    }
    else
    {
        if (p.begin() >= p.end()) return T {};
        NfFunctorCopy<F> copy(f, id);
        using Ctx = NfScanCtx<F, T>;
        Ctx* c = new (nfk_malloc(sizeof(Ctx), 2)) Ctx {};
        c->f = copy.f;
        c->b = p.begin();
        c->e = p.end();
        c->m = nfk_split(c->b, c->e);
        c->total[0] = T {};
        c->total[1] = T {};
        c->final = false;
        nfk_parfor(&Ctx::run, c, 0, 2, id + 16);
        c->total[1] = c->total[0];
        c->total[0] = T {};
        c->final = true;
        nfk_parfor(&Ctx::run, c, 0, 2, id + 16);
        T r = c->total[1];
        nfk_free(c, 2);
        return r;
    }
}
template<class... P, class F>
inline void parallel_scan(const std::string&, const RangePolicy<P...>& p, const F& f)
{
    using T = typename NfScanValue<decltype(&F::operator())>::type;
    (void)nfScan<T>(p, f);
}
template<class... P, class F, class T>
inline void parallel_scan(const std::string&, const RangePolicy<P...>& p, const F& f, T& result)
{
    using V = typename NfScanValue<decltype(&F::operator())>::type;
    result = nfScan<V>(p, f);
}

// ---- atomics ----------------------------------------------------------------------------------
#ifdef NF_TSAN
// race-confirmation build: atomic accesses are visible to ThreadSanitizer as relaxed atomics
template<class T, class F> inline T nfRmw(T* p, F f)
{
    T old, nv;
    using W = std::conditional_t<sizeof(T) % 8 == 0, uint64_t, std::conditional_t<sizeof(T) % 4 == 0, uint32_t, uint8_t>>;
    constexpr size_t n = sizeof(T) / sizeof(W);
    W w[n];
    for (size_t i = 0; i < n; i++) w[i] = __atomic_load_n(reinterpret_cast<const W*>(p) + i, __ATOMIC_RELAXED);
    std::memcpy((void*)&old, w, sizeof(T));
    nv = f(old);
    std::memcpy(w, (const void*)&nv, sizeof(T));
    for (size_t i = 0; i < n; i++) __atomic_store_n(reinterpret_cast<W*>(p) + i, w[i], __ATOMIC_RELAXED);
    return old;
}
#else
template<class T, class F> inline T nfRmw(T* p, F f)
{
    nfk_atomic_begin(p);
    T old = *p;
    *p = f(old);
    nfk_atomic_end(p);
    return old;
}
#endif
#define NF_RMW(NAME, EXPR)                                                                         \
    template<class T> inline T atomic_fetch_##NAME(T* p, const std::type_identity_t<T>& v)         \
    {                                                                                              \
        return nfRmw(p, [&](const T& old) { return T(EXPR); });                                    \
    }                                                                                              \
    template<class T> inline T atomic_##NAME##_fetch(T* p, const std::type_identity_t<T>& v)       \
    {                                                                                              \
        T old = atomic_fetch_##NAME(p, v);                                                         \
        return T(EXPR);                                                                            \
    }                                                                                              \
    template<class T> inline void atomic_##NAME(T* p, const std::type_identity_t<T>& v)            \
    {                                                                                              \
        (void)atomic_fetch_##NAME(p, v);                                                           \
    }
NF_RMW(add, T(old + v))
NF_RMW(sub, T(old - v))
NF_RMW(max, old < v ? v : old)
NF_RMW(min, v < old ? v : old)
#undef NF_RMW
template<class T> inline void atomic_increment(T* p) { (void)atomic_fetch_add(p, T(1)); }
template<class T> inline void atomic_decrement(T* p) { (void)atomic_fetch_sub(p, T(1)); }
template<class T> inline void atomic_inc(T* p) { (void)atomic_fetch_add(p, T(1)); }
template<class T> inline void atomic_dec(T* p) { (void)atomic_fetch_sub(p, T(1)); }
template<class T> inline T atomic_exchange(T* p, const std::type_identity_t<T>& v)
{
    return nfRmw(p, [&](const T&) { return v; });
}
template<class T> inline void atomic_assign(T* p, const std::type_identity_t<T>& v) { (void)atomic_exchange(p, v); }
template<class T> inline void atomic_store(T* p, const std::type_identity_t<T>& v) { (void)atomic_exchange(p, v); }
template<class T> inline T atomic_load(const T* p)
{
    return nfRmw(const_cast<T*>(p), [&](const T& old) { return old; });
}
template<class T>
inline T atomic_compare_exchange(T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v)
{
    return nfRmw(p, [&](const T& old) { return old == c ? v : old; });
}
template<class T>
inline bool atomic_compare_exchange_strong(T* p, const std::type_identity_t<T>& c, const std::type_identity_t<T>& v)
{
    return atomic_compare_exchange(p, c, v) == c;
}

// ---- views (rank 1) ---------------------------------------------------------------------------
template<class T, class... Props> class View
{
    static_assert(std::is_pointer_v<T>, "this model covers rank-1 views");
    template<class A> static constexpr int memOf()
    {
        if constexpr (std::is_same_v<A, HostSpace>) return 0;
        else if constexpr (std::is_same_v<A, NfDeviceSpace>) return 1;
        else if constexpr (std::is_same_v<A, Serial> || std::is_same_v<A, NfHostParallel>) return 0;
        else if constexpr (std::is_same_v<A, NfDevice>) return 1;
        else return -1;
    }
    template<class... P> struct Pick { static constexpr int value = 1; };
    template<class A, class... P> struct Pick<A, P...>
    {
        static constexpr int value = memOf<A>() >= 0 ? memOf<A>() : Pick<P...>::value;
    };

public:

    using value_type = std::remove_pointer_t<T>;
    using non_const_value_type = std::remove_const_t<value_type>;
    using memory_space = std::conditional_t<Pick<Props...>::value == 1, NfDeviceSpace, HostSpace>;
    static constexpr int space = Pick<Props...>::value;

    View() = default;
    View(value_type* p, size_t n) : p_(p), n_(n) {}
    explicit View(const std::string&, size_t n = 0) : n_(n)
    {
        auto* q = static_cast<non_const_value_type*>(n == 0 ? nullptr : nfk_malloc(n * sizeof(value_type), space));
        if (q) { non_const_value_type z {}; for (size_t i = 0; i < n; ++i) nfk_memcpy(q + i, &z, sizeof(z)); }
        p_ = q;
        own_ = std::shared_ptr<void>(q, [](void* x) { if (x) nfk_free(x, space); });
    }
    template<class T2, class... P2> View(const View<T2, P2...>& o) : p_(o.data()), n_(o.size()), own_(o.own_) {}
    value_type* data() const { return p_; }
    size_t size() const { return n_; }
    size_t extent(int) const { return n_; }
    bool is_allocated() const { return p_ != nullptr; }
    value_type& operator()(size_t i) const { return p_[i]; }
    value_type& operator[](size_t i) const { return p_[i]; }

    value_type* p_ = nullptr;
    size_t n_ = 0;
    std::shared_ptr<void> own_;
};
template<class T1, class... P1, class T2, class... P2>
inline void deep_copy(const View<T1, P1...>& dst, const View<T2, P2...>& src)
{
    if (dst.size() != src.size()) throw std::runtime_error("Kokkos::deep_copy: extents differ");
    using V = typename View<T1, P1...>::value_type;
    if (dst.size() != 0) nfk_copy(dst.data(), View<T1, P1...>::space, src.data(), View<T2, P2...>::space, dst.size() * sizeof(V));
}
template<class T1, class... P1>
inline void deep_copy(const View<T1, P1...>& dst, const typename View<T1, P1...>::value_type& v)
{
    using V = typename View<T1, P1...>::value_type;
    for (size_t i = 0; i < dst.size(); ++i) nfk_memcpy(dst.data() + i, &v, sizeof(V));
}
template<class E, class T1, class... P1, class B>
    requires requires { E::id; }
inline void deep_copy(const E&, const View<T1, P1...>& dst, const B& src) { deep_copy(dst, src); }
template<class T, class... P> using NfHostView = View<T, HostSpace>;
template<class T, class... P> inline View<T, HostSpace> create_mirror_view_and_copy(const HostSpace&, const View<T, P...>& v)
{
    View<T, HostSpace> r("", v.size());
    deep_copy(r, v);
    return r;
}
template<class T, class... P> inline View<T, P...> subview(const View<T, P...>& v, std::pair<size_t, size_t> r)
{
    View<T, P...> s(v.data() + r.first, r.second - r.first);
    s.own_ = v.own_;
    return s;
}

// ---- utilities --------------------------------------------------------------------------------
template<class A, class B> struct pair
{
    using first_type = A;
    using second_type = B;
    A first;
    B second;
    constexpr pair() : first(), second() {}
    constexpr pair(const A& a, const B& b) : first(a), second(b) {}
    template<class U, class V> constexpr pair(const pair<U, V>& o) : first(o.first), second(o.second) {}
    template<class U, class V> constexpr pair(const std::pair<U, V>& o) : first(o.first), second(o.second) {}
    friend constexpr bool operator==(const pair& a, const pair& b) { return a.first == b.first && a.second == b.second; }
};
template<class A, class B> constexpr pair<A, B> make_pair(A a, B b) { return pair<A, B>(a, b); }
template<class T, size_t N> struct Array
{
    T m_[N];
    constexpr T& operator[](size_t i) { return m_[i]; }
    constexpr const T& operator[](size_t i) const { return m_[i]; }
    static constexpr size_t size() { return N; }
};
using std::sqrt;
using std::cbrt;
using std::pow;
using std::fabs;
using std::abs;
using std::exp;
using std::log;
using std::sin;
using std::cos;
using std::tan;
using std::floor;
using std::ceil;
using std::fmax;
using std::fmin;
using std::hypot;
using std::isnan;
using std::isfinite;
template<class T> constexpr const T& max(const T& a, const T& b) { return a < b ? b : a; }
template<class T> constexpr const T& min(const T& a, const T& b) { return b < a ? b : a; }
template<class T> constexpr const T& clamp(const T& v, const T& lo, const T& hi) { return v < lo ? lo : hi < v ? hi : v; }
template<class T> constexpr void kokkos_swap(T& a, T& b) { T t = a; a = b; b = t; }
namespace Experimental
{
template<class T> struct finite_max { static constexpr T value = std::numeric_limits<T>::max(); };
template<class T> struct finite_min { static constexpr T value = std::numeric_limits<T>::lowest(); };
template<class T> struct infinity { static constexpr T value = std::numeric_limits<T>::infinity(); };
}
} // namespace Kokkos

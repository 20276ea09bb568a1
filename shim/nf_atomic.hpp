// Force-included where std::atomic objects are to be interleaved: every operation becomes a
// scheduling point of the execution model (lib/sym.h), in the symbolic and in the native build.
#pragma once
#include <any>
#include <atomic>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_map>
#include <vector>
#include "sym.h"
namespace std
{
template<class T> class nf_atomic
{
    mutable T v_ {};
#ifdef NF_TSAN
    template<class F> T rmw(F f) const
    {
        T o = __atomic_load_n(&v_, __ATOMIC_SEQ_CST), n;
        do n = f(o);
        while (!__atomic_compare_exchange_n(&v_, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST));
        return o;
    }
#else
    template<class F> T rmw(F f) const
    {
        nfk_atomic_begin(&v_);
        T o = v_;
        v_ = f(o);
        nfk_atomic_end(&v_);
        return o;
    }
#endif

public:

    using value_type = T;
    nf_atomic() = default;
    constexpr nf_atomic(T v) : v_(v) {}
    nf_atomic(const nf_atomic&) = delete;
    nf_atomic& operator=(const nf_atomic&) = delete;
    static constexpr bool is_always_lock_free = true;
    bool is_lock_free() const { return true; }
    T load(memory_order = memory_order_seq_cst) const { return rmw([](T o) { return o; }); }
    void store(T v, memory_order = memory_order_seq_cst) { rmw([v](T) { return v; }); }
    T exchange(T v, memory_order = memory_order_seq_cst) { return rmw([v](T) { return v; }); }
    T fetch_add(T v, memory_order = memory_order_seq_cst) { return rmw([v](T o) { return T(o + v); }); }
    T fetch_sub(T v, memory_order = memory_order_seq_cst) { return rmw([v](T o) { return T(o - v); }); }
    T fetch_and(T v, memory_order = memory_order_seq_cst) { return rmw([v](T o) { return T(o & v); }); }
    T fetch_or(T v, memory_order = memory_order_seq_cst) { return rmw([v](T o) { return T(o | v); }); }
    T fetch_xor(T v, memory_order = memory_order_seq_cst) { return rmw([v](T o) { return T(o ^ v); }); }
    bool compare_exchange_strong(T& e, T v, memory_order = memory_order_seq_cst, memory_order = memory_order_seq_cst)
    {
        T want = e;
        T o = rmw([&](T x) { return x == want ? v : x; });
        e = o;
        return o == want;
    }
    bool compare_exchange_weak(T& e, T v, memory_order a = memory_order_seq_cst, memory_order b = memory_order_seq_cst) { return compare_exchange_strong(e, v, a, b); }
    operator T() const { return load(); }
    T operator=(T v) { store(v); return v; }
    T operator++() { return fetch_add(1) + 1; }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return fetch_sub(1) - 1; }
    T operator--(int) { return fetch_sub(1); }
    T operator+=(T v) { return fetch_add(v) + v; }
    T operator-=(T v) { return fetch_sub(v) - v; }
};
// a critical section is one scheduling point
class nf_mutex
{
    int held_ = 0;

public:

    constexpr nf_mutex() = default;
    nf_mutex(const nf_mutex&) = delete;
    nf_mutex& operator=(const nf_mutex&) = delete;
#ifdef NF_TSAN
    void lock() { while (__atomic_exchange_n(&held_, 1, __ATOMIC_ACQUIRE)) {} }
    bool try_lock() { return !__atomic_exchange_n(&held_, 1, __ATOMIC_ACQUIRE); }
    void unlock() { __atomic_store_n(&held_, 0, __ATOMIC_RELEASE); }
#else
    void lock() { nfk_atomic_begin(&held_); }
    bool try_lock() { lock(); return true; }
    void unlock() { nfk_atomic_end(&held_); }
#endif
    void lock_shared() { lock(); }
    bool try_lock_shared() { return try_lock(); }
    void unlock_shared() { unlock(); }
};
using nf_atomic_int = nf_atomic<int>;
using nf_atomic_uint = nf_atomic<unsigned>;
using nf_atomic_long = nf_atomic<long>;
using nf_atomic_ulong = nf_atomic<unsigned long>;
using nf_atomic_size_t = nf_atomic<size_t>;
}
#define atomic nf_atomic
#define atomic_int nf_atomic_int
#define atomic_uint nf_atomic_uint
#define atomic_long nf_atomic_long
#define atomic_ulong nf_atomic_ulong
#define atomic_size_t nf_atomic_size_t
#define mutex nf_mutex
#define shared_mutex nf_mutex

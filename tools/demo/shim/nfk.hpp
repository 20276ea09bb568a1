// what the Kokkos stand-in needs, for small demonstration programs: everything is host memory,
// parallel loops run on threads of their own (or one after the other with NF_DEMO_SERIAL)
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <vector>
inline std::map<const void*, size_t>& nfkBlocks() { static auto* m = new std::map<const void*, size_t>; return *m; }
inline std::recursive_mutex& nfkMutex() { static auto* m = new std::recursive_mutex; return *m; }
inline void* nfk_malloc(size_t n, int)
{
    std::lock_guard<std::recursive_mutex> g(nfkMutex());
    void* p = std::malloc(n ? n : 1);
    std::memset(p, 0x5A, n);
    nfkBlocks()[p] = n;
    return p;
}
inline void nfk_free(void* p, int)
{
    std::lock_guard<std::recursive_mutex> g(nfkMutex());
    if (nfkBlocks().erase(p) == 0) std::abort();
    std::free(p);
}
inline size_t nfk_size(const void* p) { std::lock_guard<std::recursive_mutex> g(nfkMutex()); return nfkBlocks().at(p); }
inline void nfk_memcpy(void* d, const void* s, size_t n) { std::memcpy(d, s, n); }
inline size_t nfk_split(size_t lo, size_t hi) { return (lo + hi) / 2; }
inline void nfk_atomic_begin(const void*) { nfkMutex().lock(); }
inline void nfk_atomic_end(const void*) { nfkMutex().unlock(); }
inline void nfk_parfor(void (*fn)(void*, size_t), void* c, size_t b, size_t e, int)
{
#ifdef NF_DEMO_THREADS
    std::vector<std::thread> ts;
    for (size_t i = b; i < e; i++) ts.emplace_back([=] { fn(c, i); });
    for (auto& t : ts) t.join();
#else
    for (size_t i = b; i < e; i++) fn(c, i);
#endif
}

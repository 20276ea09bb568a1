// Interface between harnesses / environment models and the two back ends:
//  * the symbolic executor (engine/symex.cpp), which intercepts these calls in the LLVM IR, and
//  * the native replay runtime (lib/sym_native.cpp), which feeds a recorded counterexample to the
//    same harness compiled to machine code.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C"
{
    // --- inputs -------------------------------------------------------------------------------
    // arbitrary integer in [lo, hi]; stays symbolic until the code needs a concrete value
    int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
    // arbitrary integer in [lo, hi], split into one path per value at once
    int64_t sym_choose(const char* name, int64_t lo, int64_t hi);
    // arbitrary real number
    double sym_f64(const char* name);

    // --- obligations --------------------------------------------------------------------------
    void sym_assume(bool c);
    void sym_assert(bool c, const char* msg);
    void sym_assert_eq(double a, double b, const char* msg); // a == b over the reals
    void sym_assert_le(double a, double b, const char* msg); // a <= b over the reals
    void sym_reach(const char* name);                        // reachability witness
    void sym_observe_i(const char* name, int64_t v);         // compared with the native run
    void sym_observe_f(const char* name, double v);
    // 0: process termination is a violation; 1: exit()/abort()/terminate() ends the path as success;
    // 2: as 1, but exit(0) is a violation
    void sym_expect_termination(int on, const char* witness);

    // --- execution model ----------------------------------------------------------------------
    // 0 ascending, 1 ascending or descending, 2 every order of iterations,
    // 3 every interleaving of the iterations at atomic operations
    // +16: reductions and scans are split in the middle instead of everywhere
    // (kernels without atomic operations run in one order: their iterations commute or race)
    void sym_sched_mode(int mode);
    int sym_native(void); // 1 in the native runtime
    void sym_hash_mode(int mode); // 0 constant, 1 arbitrary value per distinct input
    void sym_index_mode(int on); // 0: one path per value of a symbolic index, 1 (default): one path
    void sym_mem_space_mode(int on); // 1: host code touching device memory is a violation

    void nfk_parfor(void (*fn)(void*, size_t), void* ctx, size_t begin, size_t end, int space);
    void nfk_atomic_begin(const void* addr);
    void nfk_atomic_end(const void* addr);
    void* nfk_malloc(size_t n, int space);
    void nfk_free(void* p, int space);
    size_t nfk_size(const void* p);
    size_t nfk_live(void); // number of blocks allocated and not freed
    void nfk_memcpy(void* d, const void* s, size_t n); // may cross memory spaces
    // a copy between memory of the given spaces (0 host, 1 device)
    void nfk_copy(void* d, int dspace, const void* s, int sspace, size_t n);
    size_t nfk_split(size_t lo, size_t hi);            // arbitrary value in [lo, hi]
}

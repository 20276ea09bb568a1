// Native side of lib/sym.h: runs one harness entry on recorded inputs and a recorded schedule.
//   replay ENTRY INPUTFILE
// Input file lines:  i NAME VALUE | f NAME VALUE | s K | p FILLBYTE | race
// Output lines:      OBS i|f NAME VALUE, REACH NAME, and a final
//                    RESULT ok | assume | diverged | violation <text> | terminated
#include "sym.h"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace
{
struct In { char k; std::string n; long long i; double f; };
std::vector<In> ins;
size_t nextIn = 0;
std::vector<int> sched;
size_t nextSched = 0;
int mode = 0, termOn = 0, fillByte = 0xA5, raceMode = 0;
bool memSpace = false;
bool finished = false, divergedFlag = false;
thread_local bool onDevice = false;
int tolScale = 1;

[[noreturn]] void finish(const char* what, const std::string& text = "")
{
    finished = true;
    printf("RESULT %s %s\n", what, text.c_str());
    fflush(stdout);
    _exit(strcmp(what, "violation") == 0 ? 42 : 0);
}
const In* take(char k, const char* n)
{
    if (nextIn < ins.size() && ins[nextIn].k == k && ins[nextIn].n == n) return &ins[nextIn++];
    divergedFlag = true;
    return nullptr;
}
int takeSched(int dflt)
{
    if (nextSched < sched.size()) return sched[nextSched++];
    return dflt;
}
void atExit(int status, void*)
{
    if (finished) return;
    if (termOn == 2 && status == 0) finish("violation", "the process ends with a success status");
    if (termOn) finish("terminated", "expected");
    finish("violation", "the process terminates (exit)");
}
void onAbort(int)
{
    if (finished) _exit(43);
    if (termOn) finish("terminated", "expected");
    finish("violation", "the process terminates (abort)");
}
// Everything the host allocates comes from one region that is out of reach while the device runs.
char* arena = nullptr;
size_t arenaUsed = 0;
constexpr size_t arenaSize = size_t(1) << 30;
void* arenaAlloc(size_t n)
{
    if (arena == nullptr)
    {
        void* q = mmap(nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (q == MAP_FAILED) abort();
        arena = (char*)q;
    }
    n = (n + 31) / 16 * 16;
    if (arenaUsed + n > arenaSize) abort();
    char* p = arena + arenaUsed;
    arenaUsed += n;
    return p;
}
void openArena(bool open)
{
    if (arena != nullptr) mprotect(arena, arenaSize, open ? PROT_READ | PROT_WRITE : PROT_NONE);
}
#ifdef NF_SEGV
static struct { void (*fn)(void*, size_t); void* ctx; size_t b, n; uintptr_t lo, hi; } dv;
#endif
void onSegv(int, siginfo_t* si, void*)
{
    openArena(true);
#ifdef NF_SEGV
    if (dv.hi) mprotect((void*)dv.lo, dv.hi - dv.lo, PROT_READ | PROT_WRITE);
#endif
    char b[64];
    snprintf(b, 64, "invalid memory access at %p", si->si_addr);
    finish("violation", b);
}

// ---- memory of the two spaces: device pages are only accessible while a kernel runs there -----
struct Blk { size_t n, map; int space; };
std::map<char*, Blk>& blocks() { static auto* m = new std::map<char*, Blk>; return *m; }
std::mutex bm;
void protect(bool open)
{
    if (!memSpace) return;
    for (auto& b : blocks())
        if (b.second.map) mprotect((void*)((uintptr_t)b.first / 4096 * 4096), b.second.map, open ? PROT_READ | PROT_WRITE : PROT_NONE);
}
}

extern "C"
{
int64_t sym_i64(const char* n, int64_t lo, int64_t hi)
{
    auto* x = take('i', n);
    int64_t v = x ? x->i : lo;
    if (v < lo || v > hi) { divergedFlag = true; v = lo; }
    return v;
}
int64_t sym_choose(const char* n, int64_t lo, int64_t hi) { return sym_i64(n, lo, hi); }
double sym_f64(const char* n)
{
    auto* x = take('f', n);
    return x ? x->f : 0.5;
}
void sym_assume(bool c) { if (!c) finish("assume"); }
void sym_assert(bool c, const char* msg) { if (!c) finish("violation", msg); }
void sym_assert_eq(double a, double b, const char* msg)
{
    if (a == b) return;
    double s = 1.0 + std::fabs(a) + std::fabs(b);
    if (!(std::fabs(a - b) <= 1e-9 * s))
    {
        char t[128];
        snprintf(t, 128, " (%.12g vs %.12g)", a, b);
        finish("violation", std::string(msg) + t);
    }
}
void sym_assert_le(double a, double b, const char* msg)
{
    double s = 1.0 + std::fabs(a) + std::fabs(b);
    if (!(a <= b + 1e-9 * s))
    {
        char t[128];
        snprintf(t, 128, " (%.12g vs %.12g)", a, b);
        finish("violation", std::string(msg) + t);
    }
}
void sym_reach(const char* n) { printf("REACH %s\n", n); }
void sym_observe_i(const char* n, int64_t v) { printf("OBS i %s %lld\n", n, (long long)v); }
void sym_observe_f(const char* n, double v) { printf("OBS f %s %.17g\n", n, v); }
void sym_expect_termination(int on, const char*) { termOn = on; }
void sym_sched_mode(int m) { mode = m & 15; }
int sym_native(void) { return 1; }
int hashModeN = -1;
void sym_hash_mode(int m) { hashModeN = m; }
void sym_index_mode(int) {}
void sym_mem_space_mode(int on) { memSpace = on; if (!on) { memSpace = true; protect(true); memSpace = false; } }

static struct
{
    std::mutex m;
    std::condition_variable cv;
    int turn = -1; // thread allowed to run
    std::vector<char> done, waiting;
} tk;
static thread_local int myId = -1;
static thread_local int parSpace = 0;

#ifdef NF_SEGV
// The device has a stack of its own; what the host's functions have on theirs is out of reach too.
static void* deviceMain(void*)
{
    openArena(false);
    mprotect((void*)dv.lo, dv.hi - dv.lo, PROT_NONE);
    for (size_t i = 0; i < dv.n; i++) dv.fn(dv.ctx, dv.b + i);
    mprotect((void*)dv.lo, dv.hi - dv.lo, PROT_READ | PROT_WRITE);
    openArena(true);
    return nullptr;
}
__attribute__((noinline)) static void waitForDevice()
{
    pthread_t t;
    if (pthread_create(&t, nullptr, deviceMain, nullptr) != 0) abort();
    pthread_join(t, nullptr);
}
__attribute__((noinline)) static void onDeviceThread(void (*fn)(void*, size_t), void* ctx, size_t b, size_t n)
{
    volatile char pad[3 * 4096];
    pad[0] = 0;
    static uintptr_t top = 0;
    if (top == 0)
    {
        pthread_attr_t at;
        void* base;
        size_t size;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &base, &size);
        pthread_attr_destroy(&at);
        top = (uintptr_t)base + size;
    }
    dv = {fn, ctx, b, n, ((uintptr_t)pad + 2 * 4096 - 1) / 4096 * 4096, top / 4096 * 4096};
    waitForDevice();
    pad[1] = 0;
}
#endif

void nfk_parfor(void (*fn)(void*, size_t), void* ctx, size_t b, size_t e, int space)
{
    if (e <= b) return;
    size_t n = e - b;
    bool dev = (space & 15) == 2;
    if (dev) { protect(true); }
    if (raceMode)
    {
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; i++) ts.emplace_back([=] { fn(ctx, b + i); });
        for (auto& t : ts) t.join();
    }
    else if (mode <= 1)
    {
        int rev = mode == 1 && n > 1 ? takeSched(0) : 0;
#ifdef NF_SEGV
        if (dev && memSpace && rev == 0) onDeviceThread(fn, ctx, b, n);
        else
#endif
        for (size_t i = 0; i < n; i++) fn(ctx, b + (rev ? n - 1 - i : i));
    }
    else if (mode == 2)
    {
        std::vector<size_t> left;
        for (size_t i = 0; i < n; i++) left.push_back(i);
        while (!left.empty())
        {
            size_t k = left.size() > 1 ? (size_t)takeSched(0) : 0;
            if (k >= left.size()) k = 0;
            size_t i = left[k];
            left.erase(left.begin() + (long)k);
            fn(ctx, b + i);
        }
    }
    else
    {
        tk.done.assign(n, 0);
        tk.waiting.assign(n, 0);
        tk.turn = -1;
        std::vector<std::thread> ts;
        auto grant = [&](int i)
        {
            std::unique_lock<std::mutex> l(tk.m);
            tk.waiting[i] = 0;
            tk.turn = i;
            tk.cv.notify_all();
            tk.cv.wait(l, [&] { return tk.done[i] || tk.waiting[i]; });
            tk.turn = -1;
        };
        for (size_t i = 0; i < n; i++)
            ts.emplace_back([&, i]
                {
                    myId = (int)i;
                    {
                        std::unique_lock<std::mutex> l(tk.m);
                        tk.cv.wait(l, [&] { return tk.turn == (int)i; });
                    }
                    fn(ctx, b + i);
                    std::unique_lock<std::mutex> l(tk.m);
                    tk.done[i] = 1;
                    tk.turn = -1;
                    tk.cv.notify_all();
                });
        for (size_t i = 0; i < n; i++) grant((int)i); // up to the first atomic operation
        for (;;)
        {
            std::vector<int> en;
            for (size_t i = 0; i < n; i++) if (!tk.done[i]) en.push_back((int)i);
            if (en.empty()) break;
            int k = takeSched(en[0]);
            if (k < 0 || k >= (int)n || tk.done[k]) { divergedFlag = true; k = en[0]; }
            grant(k);
        }
        for (auto& t : ts) t.join();
    }
    if (dev) protect(false);
}
static thread_local int atomicDepth = 0;
void nfk_atomic_begin(const void*)
{
    if (atomicDepth++) return;
    if (mode == 3 && !raceMode && myId >= 0)
    {
        std::unique_lock<std::mutex> l(tk.m);
        tk.waiting[myId] = 1;
        tk.turn = -1;
        tk.cv.notify_all();
        tk.cv.wait(l, [&] { return tk.turn == myId; });
    }
}
void nfk_atomic_end(const void*) { atomicDepth--; }
void* nfk_malloc(size_t n, int space)
{
    std::lock_guard<std::mutex> g(bm);
    char* p;
    Blk k {n, 0, space};
    if (space == 1 && memSpace)
    {
        k.map = (n + 4095) / 4096 * 4096;
        char* q = (char*)mmap(nullptr, k.map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memset(q, fillByte, k.map);
        p = q + (k.map - n) / 16 * 16;
        mprotect(q, k.map, PROT_NONE);
    }
    else
    {
#ifdef NF_SEGV
        p = space == 0 ? (char*)arenaAlloc(n) : (char*)malloc(n);
#else
        p = (char*)malloc(n);
#endif
        memset(p, fillByte, n);
    }
    blocks()[p] = k;
    return p;
}
void nfk_free(void* p, int space)
{
    std::lock_guard<std::mutex> g(bm);
    auto it = blocks().find((char*)p);
    if (it == blocks().end()) finish("violation", "freeing an address that is not an allocation");
    if (it->second.space != space) finish("violation", "freeing memory of another memory space");
    Blk k = it->second;
    blocks().erase(it);
    if (k.map) munmap((void*)((uintptr_t)p / 4096 * 4096), k.map);
#ifdef NF_SEGV
    else if (space == 0) memset(p, 0xDD, k.n);
    else free(p);
#else
    else free(p);
#endif
}
size_t nfk_live(void) { return blocks().size(); }
size_t nfk_size(const void* p)
{
    std::lock_guard<std::mutex> g(bm);
    auto it = blocks().find((char*)p);
    return it == blocks().end() ? 0 : it->second.n;
}
void nfk_memcpy(void* d, const void* s, size_t n)
{
    protect(true);
    memmove(d, s, n);
    protect(false);
}
void nfk_copy(void* d, int ds, const void* s, int ss, size_t n)
{
    if (memSpace && n)
    {
        auto where = [](const void* a)
        {
            std::lock_guard<std::mutex> g(bm);
            auto it = blocks().upper_bound((char*)a);
            if (it == blocks().begin()) return 0;
            --it;
            return (char*)a < it->first + it->second.n && it->second.space == 1 ? 1 : 0;
        };
        if (where(d) != ds || where(s) != ss) finish("violation", "a copy between memory spaces is told the wrong space");
    }
    nfk_memcpy(d, s, n);
}
size_t nfk_split(size_t lo, size_t hi) { size_t k = (size_t)takeSched((int)((hi - lo) / 2)); return lo + k > hi ? hi : lo + k; }
const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=44:allocator_may_return_null=1:handle_segv=1:handle_abort=0:detect_stack_use_after_return=1:max_malloc_fill_size=65536:malloc_fill_byte=165"; }
const char* __tsan_default_options() { return "exitcode=45:halt_on_error=1:report_signal_unsafe=0"; }
}

#ifdef NF_SEGV
void* operator new(size_t n) { void* p = arenaAlloc(n); memset(p, fillByte, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void*) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*, size_t) noexcept {}
#endif

// arbitrary hash values are an input of the harnesses that ask for them
#ifdef NF_HASH_INPUT
namespace std
{
size_t _Hash_bytes(const void* p, size_t n, size_t)
{
    if (hashModeN == 0) return 42;
    static std::map<std::string, size_t> memo;
    std::string k((const char*)p, n);
    auto it = memo.find(k);
    if (it != memo.end()) return it->second;
    size_t h = 0;
    if (nextIn < ins.size() && ins[nextIn].n == "hash") h = (size_t)ins[nextIn++].i;
    else { h = 1469598103934665603ull; for (char c : k) h = (h ^ (unsigned char)c) * 1099511628211ull; }
    memo[k] = h;
    return h;
}
}
#endif

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r");
    if (!f) return 2;
    char line[4096], nm[2048];
    while (fgets(line, sizeof line, f))
    {
        In x {};
        int k;
        if (sscanf(line, "i %2047s %lld", nm, &x.i) == 2) { x.k = 'i'; x.n = nm; ins.push_back(x); }
        else if (sscanf(line, "f %2047s %lf", nm, &x.f) == 2) { x.k = 'f'; x.n = nm; ins.push_back(x); }
        else if (sscanf(line, "s %d", &k) == 1) sched.push_back(k);
        else if (sscanf(line, "p %d", &k) == 1) fillByte = k;
        else if (strncmp(line, "race", 4) == 0) raceMode = 1;
    }
    fclose(f);
    std::string en = std::string("harness_") + argv[1];
    auto* fn = (void (*)())dlsym(RTLD_DEFAULT, en.c_str());
    if (!fn) { printf("RESULT missing %s\n", en.c_str()); return 2; }
    on_exit(atExit, nullptr);
    signal(SIGABRT, onAbort);
#ifdef NF_SEGV
    struct sigaction sa {};
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
#endif
    try { fn(); }
    catch (const std::exception& e) { if (!termOn) finish("violation", std::string("uncaught exception: ") + e.what()); else finish("terminated"); }
    catch (...) { if (!termOn) finish("violation", "uncaught exception"); else finish("terminated"); }
    if (raceMode) { finished = true; printf("RESULT ok race-run\n"); fflush(stdout); return 0; }
    finish(divergedFlag ? "diverged" : "ok");
}

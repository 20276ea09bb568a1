// Model of the part of MPI that the code under test uses. Several ranks live in one process: a
// communicator handle names the rank that holds it. A message is read from the sender's memory
// and written to the receiver's at one arbitrary moment between posting and completion.
#pragma once
#include <complex>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <utility>
#include <vector>
#include <cstdio>
inline void sym_assert(bool c, const char* m) { if (!c) { std::printf("%s\n", m); std::exit(7); } }
// a test finds a message under way as long as this says so
inline int (*nfDelay)() = nullptr;
inline int sym_choose(const char*, int, int) { return nfDelay ? nfDelay() : 0; }
typedef int MPI_Comm;
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_SUCCESS 0
#define MPI_IN_PLACE ((void*)1)
#define MPI_STATUS_IGNORE ((void*)0)
#define MPI_THREAD_MULTIPLE 3
enum MPI_Op { MPI_OP_NULL, MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_MAXLOC, MPI_MINLOC };
enum MPI_Datatype
{
    MPI_DATATYPE_NULL, MPI_CHAR, MPI_WCHAR, MPI_SHORT, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_UNSIGNED_SHORT, MPI_UNSIGNED, MPI_UNSIGNED_LONG,
    MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_CXX_BOOL, MPI_CXX_FLOAT_COMPLEX, MPI_CXX_DOUBLE_COMPLEX, MPI_CXX_LONG_DOUBLE_COMPLEX
};
namespace mpimodel
{
inline int ranks = 1;
struct Msg
{
    bool send;
    int self, peer, tag;
    MPI_Datatype type;
    char* buf;
    size_t bytes;
    bool done = false, moved = false;
    Msg* match = nullptr;
};
inline std::vector<Msg*> posted;   // every message, in the order of posting
inline int delays = 0;             // how many tests may still find a message under way
inline int active = 0;             // messages posted and not completed
inline int tests = 0;
inline bool early = false;         // messages are transferred as soon as both ends are posted
struct Reduce { void* buf; int count; MPI_Datatype type; MPI_Op op; MPI_Comm comm; int calls = 0; };
inline Reduce last;
inline size_t typeSize(MPI_Datatype t)
{
    switch (t)
    {
    case MPI_CHAR: return 1;
    case MPI_CXX_BOOL: return sizeof(bool);
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2;
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: return 4;
    case MPI_CXX_FLOAT_COMPLEX: case MPI_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: return 8;
    case MPI_CXX_DOUBLE_COMPLEX: case MPI_LONG_DOUBLE: return 16;
    default: return 32;
    }
}
// reductions: the contributions of the other ranks
inline void (*combine)(Reduce&) = nullptr;
inline void reset(int n) { ranks = n; posted.clear(); delays = 0; active = 0; tests = 0; last = Reduce {}; combine = nullptr; early = false; }
inline void deliver(Msg* m)
{
    auto *s = m->send ? m : m->match, *r = m->send ? m->match : m;
    if (s->moved) return;
    s->moved = r->moved = true;
    std::memcpy(r->buf, s->buf, s->bytes);
}
inline void pair(Msg* m)
{
    for (auto* o : posted)
        if (o != m && !o->match && o->send != m->send && o->peer == m->self && o->self == m->peer && o->tag == m->tag)
        {
            o->match = m;
            m->match = o;
            auto *s = m->send ? m : o, *r = m->send ? o : m;
            sym_assert(s->bytes <= r->bytes && s->type == r->type, "a message fits the receiver's buffer");
            if (early) deliver(m);
            return;
        }
}
inline int post(bool send, const void* b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, Msg** r)
{
    sym_assert(n >= 0 && t != MPI_DATATYPE_NULL && c != MPI_COMM_NULL && peer >= 0 && peer < ranks, "a valid message");
    sym_assert(tag >= 0 && tag <= 32767, "a valid tag");
    sym_assert(*r == nullptr, "a request in use is not used again");
    auto* m = new Msg {send, c - 1, peer, tag, t, (char*)b, (size_t)n * typeSize(t)};
    posted.push_back(m);
    active++;
    *r = m;
    pair(m);
    return MPI_SUCCESS;
}
}
typedef mpimodel::Msg* MPI_Request;
#define MPI_REQUEST_NULL ((MPI_Request)0)
inline int MPI_Init(int*, char***) { return MPI_SUCCESS; }
inline int MPI_Init_thread(int*, char***, int, int* p) { *p = MPI_THREAD_MULTIPLE; return MPI_SUCCESS; }
inline int MPI_Finalize() { return MPI_SUCCESS; }
[[noreturn]] inline int MPI_Abort(MPI_Comm, int e) { std::exit(e); }
inline int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c - 1; return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int* n) { *n = mpimodel::ranks; return MPI_SUCCESS; }
inline int MPI_Isend(const void* b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request* r) { return mpimodel::post(true, b, n, t, peer, tag, c, r); }
inline int MPI_Irecv(void* b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c, MPI_Request* r) { return mpimodel::post(false, b, n, t, peer, tag, c, r); }
// a message is transferred when one of its ends is found complete
inline int MPI_Test(MPI_Request* r, int* flag, void*)
{
    mpimodel::tests++;
    auto* m = *r;
    if (!m) { *flag = 1; return MPI_SUCCESS; }
    *flag = 0;
    if (!m->match) return MPI_SUCCESS;
    if (!m->match->done && mpimodel::delays > 0 && sym_choose("delay", 0, 1))
    {
        mpimodel::delays--;
        return MPI_SUCCESS;
    }
    mpimodel::deliver(m);
    m->done = true;
    mpimodel::active--;
    *r = nullptr;
    *flag = 1;
    return MPI_SUCCESS;
}
inline int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    sym_assert(in == MPI_IN_PLACE, "a reduction works in place");
    int k = mpimodel::last.calls;
    mpimodel::last = {out, n, t, op, c, k + 1};
    if (mpimodel::combine) mpimodel::combine(mpimodel::last);
    return MPI_SUCCESS;
}

// Buffers and operations of the communication between processes (debug build: misuse is reported).
#include "inc/nf.hpp"
#include "NeoFOAM/core/mpi/environment.hpp"
#include "NeoFOAM/core/mpi/operators.hpp"
#include "NeoFOAM/core/mpi/halfDuplexCommBuffer.hpp"
#include "NeoFOAM/core/mpi/fullDuplexCommBuffer.hpp"
using namespace NeoFOAM::mpi;
namespace
{
template<class F> void withType(int k, F&& f)
{
    switch (k)
    {
    case 0: f((char)0); break;
    case 1: f((int)0); break;
    case 2: f((double)0); break;
    case 3: f(Vector()); break;
    }
}
constexpr size_t sizes[] = {1, 4, 8, 24};
template<class T> T value(const char* n);
template<> char value<char>(const char* n) { return (char)sym_i64(n, 0, 100); }
template<> int value<int>(const char* n) { return (int)sym_i64(n, -1000, 1000); }
template<> double value<double>(const char* n) { return sym_f64(n); }
template<> Vector value<Vector>(const char* n) { return symVector(n); }
void same(char a, char b, const char* m) { sym_assert(a == b, m); }
template<class T> void same(const T& a, const T& b, const char* m) { eq(a, b, m); }
template<class T> std::vector<std::vector<T>> fillAll(HalfDuplexCommBuffer& b, const std::vector<size_t>& n)
{
    std::vector<std::vector<T>> r;
    for (size_t k = 0; k < n.size(); k++)
    {
        auto s = b.get<T>(k);
        sym_assert(s.size() == n[k], "every rank has the number of elements asked for");
        std::vector<T> v;
        for (size_t i = 0; i < n[k]; i++)
        {
            v.push_back(value<T>("v"));
            s[i] = v.back();
        }
        r.push_back(v);
    }
    return r;
}
template<class T> void holds(const HalfDuplexCommBuffer& b, const std::vector<std::vector<T>>& v, const char* m)
{
    for (size_t k = 0; k < v.size(); k++)
    {
        auto s = b.get<T>(k);
        sym_assert(s.size() == v[k].size(), "every rank has the number of elements asked for");
        for (size_t i = 0; i < v[k].size(); i++) same(s[i], v[k][i], m);
    }
}
std::vector<size_t> symSizes(int ranks)
{
    std::vector<size_t> r;
    for (int i = 0; i < ranks; i++) r.push_back(i == 1 ? (size_t)TIER(1, sym_choose("size", 0, 1)) : (size_t)sym_choose("size", 0, i ? 1 : 2));
    return r;
}
}
// any history of sizing, naming, using and finishing: every rank has its own elements
ENTRY(c29_layout)
{
    int ranks = (int)sym_choose("ranks", 1, TIER(2, 3));
    mpimodel::reset(ranks);
    MPIEnvironment env((MPI_Comm)sym_choose("rank", 1, ranks));
    auto n = symSizes(ranks);
    HalfDuplexCommBuffer b(env, n);
    sym_assert(!b.isCommInit() && b.getCommName() == "unassigned", "a new buffer is idle");
    int ops = ranks < 3 ? TIER(2, 3) : 2;
    for (int o = 0; o < ops; o++)
    {
        if (sym_choose("resize", 0, 1))
        {
            n = symSizes(ranks);
            withType((int)sym_choose("sizeType", 0, 1) * 2, [&]<class T>(T) { b.setCommRankSize<T>(n); });
        }
        withType((int)sym_choose("type", TIER(1, 0), 3), [&]<class T>(T)
            {
                b.initComm<T>("name");
                sym_assert(b.isCommInit() && b.getCommName() == "name", "a named buffer is in use");
                sym_assert(b.isComplete(), "nothing is under way");
                auto v = fillAll<T>(b, n);
                holds(b, v, "elements of different ranks are different");
                b.finaliseComm();
                sym_assert(!b.isCommInit() && b.getCommName() == "unassigned", "a finished buffer is idle");
            });
    }
    sym_assert(mpimodel::posted.empty(), "nothing is sent unasked");
    sym_reach("end");
}
// sending: one message per rank with elements, read and written only until it is complete
ENTRY(c29_exchange)
{
    const int R = (int)sym_choose("ranks", 1, TIER(2, 3));
    mpimodel::reset(R);
        mpimodel::early = sym_choose("early", 0, 1);
    int type = TIER((int)sym_choose("type", 0, 1) * 2 + 1, (int)sym_choose("type", 0, 3));
    // n[a][b]: elements from a to b
    std::vector<std::vector<size_t>> n(R, std::vector<size_t>(R));
    for (auto& x : n) for (auto& y : x) y = (size_t)sym_choose("count", 0, R < 3 ? 2 : 1);
    withType(type, [&]<class T>(T)
        {
            std::vector<FullDuplexCommBuffer> b;
            for (int r = 0; r < R; r++)
            {
                std::vector<size_t> in;
                for (int q = 0; q < R; q++) in.push_back(n[q][r]);
                b.push_back(FullDuplexCommBuffer(MPIEnvironment(r + 1), n[r], in));
                sym_assert(!b.back().isCommInit(), "a new buffer is idle");
            }
            std::vector<std::vector<std::vector<T>>> v(R, std::vector<std::vector<T>>(R));
            for (int round = 0; round < 2; round++)
            {
                mpimodel::delays = round ? 0 : TIER(1, 2);
                size_t before = mpimodel::posted.size(), want = 0;
                for (int r = 0; r < R; r++)
                {
                    b[r].template initComm<T>("exchange");
                    sym_assert(b[r].isCommInit(), "a named buffer is in use");
                    for (int q = 0; q < R; q++)
                    {
                        auto s = b[r].template getSend<T>(q);
                        auto in = b[r].template getReceive<T>(q);
                        sym_assert(s.size() == n[r][q] && in.size() == n[q][r], "sizes of the buffers");
                        v[r][q].clear();
                        for (auto& x : s) { v[r][q].push_back(value<T>("v")); x = v[r][q].back(); }
                        want += (n[r][q] != 0) + (n[q][r] != 0);
                    }
                    b[r].startComm();
                }
                sym_assert(mpimodel::posted.size() - before == want, "one message per rank with elements, at both ends");
                for (int i = 0; i < R; i++)
                {
                    int r = round ? R - 1 - i : i;
                    if (!i && !round && sym_choose("poll", 0, 1))
                    {
                        bool done = b[r].isComplete();
                        bool open = false;
                        for (auto* m : mpimodel::posted) open |= m->self == r && !m->done;
                        sym_assert(done == !open, "complete when every message is");
                    }
                    b[r].waitComplete();
                    for (auto* m : mpimodel::posted) sym_assert(m->self != r || m->done, "waiting ends when every message is complete");
                    sym_assert(b[r].isComplete(), "complete stays complete");
                    const auto& c = b[r];
                    for (int q = 0; q < R; q++)
                    {
                        auto in = c.template getReceive<T>(q);
                        sym_assert(in.size() == v[q][r].size(), "number of received elements");
                        for (size_t k = 0; k < in.size(); k++) same(in[k], v[q][r][k], "every rank receives what was sent to it");
                        auto s = c.template getSend<T>(q);
                        for (size_t k = 0; k < s.size(); k++) same(s[k], v[r][q][k], "sending leaves the elements as they are");
                    }
                    b[r].finaliseComm();
                    sym_assert(!b[r].isCommInit(), "a finished buffer is idle");
                }
            }
            sym_assert(mpimodel::active == 0, "every message is completed");
        });
    sym_reach("end");
}
// misuse is reported
ENTRY(c29_refuse)
{
    mpimodel::reset(2);
    MPIEnvironment env(1);
    std::vector<size_t> n {1, 0};
    HalfDuplexCommBuffer b(env, n);
    int what = (int)sym_choose("what", 0, 12);
    auto refuse = [] { sym_expect_termination(2, "refused"); };
    if (what >= 6) b.initComm<int>("x");
    switch (what)
    {
    case 0: refuse(); (void)b.get<char>(0); break;
    case 1: refuse(); (void)std::as_const(b).get<char>(0); break;
    case 2: refuse(); b.send(); break;
    case 3: refuse(); b.receive(); break;
    case 4: refuse(); b.finaliseComm(); break;
    case 5: refuse(); if (sym_choose("wait", 0, 1)) b.waitComplete(); else (void)b.isComplete(); break;
    case 6: refuse(); b.initComm<int>("y"); break;
    case 7: refuse(); (void)b.get<double>(0); break;
    case 8: refuse(); b.setCommRankSize<int>(n); break;
    case 9: refuse(); (void)std::as_const(b).get<char>(0); break;
    case 10: b.send(); refuse(); if (sym_choose("again", 0, 1)) b.send(); else b.receive(); break;
    case 11: b.receive(); refuse(); b.finaliseComm(); break;
    case 12:
        b.finaliseComm();
        refuse();
        n.resize((size_t)sym_choose("ranks", 0, 1) ? 3 : 1, 1);
        b.setCommRankSize<int>(n);
        break;
    }
    sym_assert(false, "misuse of a buffer is reported");
}
// names become valid tags, the same on every rank
ENTRY(c29_tag)
{
    sym_hash_mode(1);
    std::string a = symText("name", 1), b = symText("other", 1);
    int x = bufferHash(a), y = bufferHash(b);
    sym_assert(x >= 10 && x <= 32767 && y >= 10 && y <= 32767, "a tag is positive, not reserved and not beyond MPI's limit");
    sym_assert(a != b || x == y, "the same name has the same tag");
    // long names
    size_t n = (size_t)sym_choose("length", 0, 5);
    const size_t lengths[6] = {15, 16, 64, 65, 200, 3000};
    std::string c(lengths[n], 'n'), d(lengths[n], 'n');
    x = bufferHash(c);
    y = bufferHash(d);
    sym_assert(x >= 10 && x <= 32767, "a tag is positive, not reserved and not beyond MPI's limit");
    sym_assert(x == y, "the same name has the same tag");
    sym_reach("end");
}
namespace
{
template<class T> void typed(MPI_Datatype want)
{
    sym_assert(getType<T>() == want, "datatype of a type");
    // element counts, not bytes
    mpimodel::reset(2);
    T out[2] = {}, in[2] = {};
    MPI_Request s = MPI_REQUEST_NULL, r = MPI_REQUEST_NULL;
    isend<T>(out, 2, 1, 11, 1, &s);
    irecv<T>(in, 2, 0, 11, 2, &r);
    sym_assert(mpimodel::posted.size() == 2, "one message at each end");
    auto &a = *mpimodel::posted[0], &b = *mpimodel::posted[1];
    sym_assert(a.send && a.self == 0 && a.peer == 1 && a.tag == 11 && a.buf == (char*)out && a.bytes == 2 * sizeof(T) && a.type == want, "what is sent");
    sym_assert(!b.send && b.self == 1 && b.peer == 0 && b.tag == 11 && b.buf == (char*)in && b.bytes == 2 * sizeof(T) && b.type == want, "what is received");
    sym_assert(s != MPI_REQUEST_NULL && r != MPI_REQUEST_NULL && NeoFOAM::mpi::test(&r) && NeoFOAM::mpi::test(&s) && NeoFOAM::mpi::test(&s), "a matched message completes");
    T v {};
    allReduce(v, ReduceOp::Max, 2);
    sym_assert(mpimodel::last.calls == 1 && mpimodel::last.buf == &v && mpimodel::last.count == 1 && mpimodel::last.type == want && mpimodel::last.comm == 2 && mpimodel::last.op == MPI_MAX, "what is reduced");
}
}
ENTRY(c29_types)
{
    switch (sym_choose("type", 0, 16))
    {
    case 0: typed<char>(MPI_CHAR); break;
    case 1: typed<wchar_t>(MPI_WCHAR); break;
    case 2: typed<short>(MPI_SHORT); break;
    case 3: typed<int>(MPI_INT); break;
    case 4: typed<long>(MPI_LONG); break;
    case 5: typed<long long>(MPI_LONG_LONG); break;
    case 6: typed<unsigned short>(MPI_UNSIGNED_SHORT); break;
    case 7: typed<unsigned>(MPI_UNSIGNED); break;
    case 8: typed<unsigned long>(MPI_UNSIGNED_LONG); break;
    case 9: typed<unsigned long long>(MPI_UNSIGNED_LONG_LONG); break;
    case 10: typed<float>(MPI_FLOAT); break;
    case 11: typed<double>(MPI_DOUBLE); break;
    case 12: typed<long double>(MPI_LONG_DOUBLE); break;
    case 13: typed<bool>(MPI_CXX_BOOL); break;
    case 14: typed<std::complex<float>>(MPI_CXX_FLOAT_COMPLEX); break;
    case 15: typed<std::complex<double>>(MPI_CXX_DOUBLE_COMPLEX); break;
    case 16: typed<std::complex<long double>>(MPI_CXX_LONG_DOUBLE_COMPLEX); break;
    }
    sym_reach("end");
}
ENTRY(c29_reduce)
{
    const MPI_Op ops[] = {MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_MAXLOC, MPI_MINLOC};
    const ReduceOp in[] = {ReduceOp::Max, ReduceOp::Min, ReduceOp::Sum, ReduceOp::Prod, ReduceOp::Land, ReduceOp::Band, ReduceOp::Lor, ReduceOp::Bor, ReduceOp::Maxloc, ReduceOp::Minloc};
    mpimodel::reset((int)sym_choose("ranks", 1, 3));
    int k = (int)sym_choose("op", 0, 10);
    if (k == 10)
    {
        sym_expect_termination(2, "refused");
        (void)getOp(static_cast<ReduceOp>(sym_choose("invalid", 10, 20)));
        sym_assert(false, "an unknown operation is refused");
    }
    sym_assert(getOp(in[k]) == ops[k], "operation of a reduction");
    MPI_Comm c = (MPI_Comm)sym_choose("comm", 1, mpimodel::ranks);
    // vectors are reduced by component
    Vector v = symVector("v"), w = v;
    allReduce(v, in[k], c);
    sym_assert(mpimodel::last.calls == 1 && mpimodel::last.buf == v.data() && mpimodel::last.count == 3 && mpimodel::last.type == MPI_DOUBLE && mpimodel::last.op == ops[k] && mpimodel::last.comm == c, "what is reduced of a vector");
    eq(v, w, "a reduction does nothing else");
    double s = sym_f64("s"), others = sym_f64("others");
    static double contribution;
    contribution = others;
    mpimodel::combine = [](mpimodel::Reduce& r)
    {
        double& x = *(double*)r.buf;
        if (r.op == MPI_MAX) x = x > contribution ? x : contribution;
        if (r.op == MPI_MIN) x = x < contribution ? x : contribution;
        if (r.op == MPI_SUM) x += contribution;
        if (r.op == MPI_PROD) x *= contribution;
    };
    double x = s;
    allReduce(x, in[k], c);
    double want = s;
    if (k == 0) want = s > others ? s : others;
    if (k == 1) want = s < others ? s : others;
    if (k == 2) want = s + others;
    if (k == 3) want = s * others;
    eq(x, want, "the result of a reduction is in place");
    sym_reach("reduced");
}
// the library is started once and ended once, with the arguments of the program
ENTRY(c29_life)
{
    mpimodel::reset(2);
    mpimodel::life = {};
    char name[] = "program";
    char* argv[] = {name, nullptr};
    {
        MPIInit init(1, argv);
        auto& l = mpimodel::life;
        sym_assert(l.inits == 1 && l.finals == 0 && l.argc == 1 && l.argv == argv, "the library is started once, with the arguments");
        MPIEnvironment a, b(a);
    }
    sym_assert(mpimodel::life.inits == 1 && mpimodel::life.finals == 1, "the library is ended once");
    sym_reach("end");
}
// environments know their rank and size
ENTRY(c29_environment)
{
    int R = (int)sym_choose("ranks", 1, 4);
    mpimodel::reset(R);
    int r = (int)sym_choose("rank", 0, R);
    if (r == R)
    {
        sym_expect_termination(2, "refused");
        MPIEnvironment e((MPI_Comm)MPI_COMM_NULL);
        sym_assert(false, "an environment without communicator is refused");
    }
    MPIEnvironment e(r + 1), d, c(e);
    sym_assert(e.rank() == (size_t)r && e.sizeRank() == (size_t)R && e.comm() == r + 1, "rank and size");
    sym_assert(c.rank() == (size_t)r && c.sizeRank() == (size_t)R && c.comm() == r + 1, "a copied environment");
    sym_assert(d.rank() == 0 && d.sizeRank() == (size_t)R && d.comm() == MPI_COMM_WORLD, "the default environment");
    sym_reach("end");
}
// large buffers and many ranks
ENTRY(c29_long)
{
    bool many = sym_choose("many", 0, 1);
    const int ranks = many ? 70 : 4;
    mpimodel::reset(ranks);
    MPIEnvironment env((MPI_Comm)1);
    auto sizes = [&](int k)
    {
        std::vector<size_t> n;
        if (many) for (int i = 0; i < ranks; i++) n.push_back((size_t)((i * 5 + k) % 9));
        else n = k == 0 ? std::vector<size_t> {290, 0, 70, 3} : k == 1 ? std::vector<size_t> {3, 300, 0, 17} : std::vector<size_t> {0, 1, 0, 1};
        return n;
    };
    auto n = sizes(0);
    HalfDuplexCommBuffer b(env, n);
    for (int use = 0; use < 3; use++)
    {
        if (use && sym_choose("resize", 0, 1))
        {
            n = sizes((int)sym_choose("sizes", 0, 2));
            b.setCommRankSize<double>(n);
        }
        withType((int)sym_choose("type", 1, 3), [&]<class T>(T)
            {
                b.initComm<T>("name");
                for (int r = 0; r < ranks; r++)
                {
                    auto s = b.get<T>((size_t)r);
                    sym_assert(s.size() == n[(size_t)r], "every rank has the number of elements asked for");
                    for (size_t i = 0; i < s.size(); i++)
                    {
                        if constexpr (std::is_same_v<T, Vector>) s[i] = Vector((double)r, (double)i, (double)use);
                        else s[i] = (T)(r * 1000 + (int)i * 2 + use);
                    }
                }
                const auto& c = b;
                for (int r = 0; r < ranks; r++)
                {
                    auto s = c.get<T>((size_t)r);
                    for (size_t i = 0; i < s.size(); i++)
                    {
                        if constexpr (std::is_same_v<T, Vector>) same(s[i], Vector((double)r, (double)i, (double)use), "elements of different ranks are different");
                        else same(s[i], (T)(r * 1000 + (int)i * 2 + use), "elements of different ranks are different");
                    }
                }
                b.finaliseComm();
            });
    }
    sym_reach("end");
}

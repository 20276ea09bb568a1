// Exchange of field values between processes.
#include "inc/nf.hpp"
#include "NeoFOAM/mesh/unstructured/communicator.hpp"
using NF::Communicator;
using NF::CommMap;
using NF::label;
namespace
{
template<class T> T value(const char* n) { return symVal<T>(n); }
template<> int value<int>(const char* n) { return (int)sym_i64(n, -1000, 1000); }
struct Plan
{
    int R;
    size_t n;
    // from[a][b]: cells of a that go to b; to[b][a]: cells of b that receive them
    std::vector<std::vector<std::vector<int>>> from, to;
    Communicator make(int r) const
    {
        CommMap s((size_t)R), d((size_t)R);
        for (int q = 0; q < R; q++)
        {
            for (int i : from[r][q]) s[q].push_back({.local_idx = (label)i});
            for (int i : to[r][q]) d[q].push_back({.local_idx = (label)i});
        }
        return Communicator(NF::mpi::MPIEnvironment(r + 1), s, d);
    }
};
// any exchange of at most k values between each two ranks; no cell receives twice
Plan symPlan(int R, size_t n, int k)
{
    Plan p {R, n, {}, {}};
    p.from.assign(R, std::vector<std::vector<int>>(R));
    p.to = p.from;
    for (int a = 0; a < R; a++)
        for (int b = 0; b < R; b++)
        {
            int c = (int)sym_choose("count", 0, k);
            for (int i = 0; i < c; i++)
            {
                p.from[a][b].push_back((int)sym_choose("from", 0, (int)n - 1));
                int t = (int)sym_choose("to", 0, (int)n - 1);
                for (int q = 0; q < R; q++) for (int u : p.to[b][q]) sym_assume(u != t);
                p.to[b][a].push_back(t);
            }
        }
    return p;
}
// a fixed, asymmetric exchange
Plan somePlan(int R, size_t n)
{
    Plan p {R, n, {}, {}};
    p.from.assign(R, std::vector<std::vector<int>>(R));
    p.to = p.from;
    for (int a = 0; a < R; a++)
    {
        int b = (a + 1) % R;
        p.from[a][b] = {2, 0};
        p.to[b][a] = {0, 1};
        if (a == 0) { p.from[a][a] = {1}; p.to[a][a] = {2}; }
    }
    return p;
}
template<class T> struct Comm
{
    std::string nm;
    std::vector<Field<T>> f;
    std::vector<std::vector<T>> start, want;
    Comm(const std::string& nm_, const Executor& e, const Plan& p) : nm(nm_)
    {
        for (int r = 0; r < p.R; r++)
        {
            std::vector<T> v;
            for (size_t i = 0; i < p.n; i++)
            {
                if constexpr (std::is_same_v<T, scalar>)
                {
                    if (i > 9 && i != 260)
                    { // long fields: given values
                        v.push_back((double)(r + 1) * 1000 + (double)i);
                        continue;
                    }
                }
                v.push_back(value<T>("cell"));
            }
            start.push_back(v);
            f.push_back(Field<T>(e, v));
        }
    }
    void begin(std::vector<Communicator>& c, int r)
    {
        c[r].startComm(f[r], nm);
        eqAll(host(f[r]), start[r], "starting an exchange leaves the field as it is");
    }
    // values written meanwhile
    void touch(int r, size_t i)
    {
        auto v = start[r];
        v[i] = value<T>("written");
        want = want.empty() ? start : want;
        want[r][i] = v[i];
        f[r] = Field<T>(f[r].exec(), v);
    }
    void end(std::vector<Communicator>& c, int r, const Plan& p)
    {
        if (want.empty()) want = start;
        c[r].finaliseComm(f[r], nm);
        auto x = want[r];
        for (int q = 0; q < p.R; q++)
            for (size_t k = 0; k < p.to[r][q].size(); k++) x[(size_t)p.to[r][q][k]] = start[q][(size_t)p.from[q][r][k]];
        eqAll(host(f[r]), x, "received cells have the sender's value, all others are as they were");
    }
};
std::vector<Communicator> all(const Plan& p)
{
    std::vector<Communicator> c;
    c.reserve((size_t)p.R);
    for (int r = 0; r < p.R; r++) c.push_back(p.make(r));
    return c;
}
template<class T> void exchange()
{
    Executor e = symExec();
    const int R = (int)sym_choose("ranks", 1, 2);
    mpimodel::reset(R);
    mpimodel::early = sym_choose("early", 0, 1);
    auto p = symPlan(R, TIER(2, 3), R == 1 ? 2 : 1);
    auto c = all(p);
    Comm<T> x("x", e, p);
    for (int r = 0; r < R; r++) x.begin(c, r);
    x.touch(0, 0);
    for (int i = 0; i < R; i++) x.end(c, i, p);
    sym_assert(mpimodel::active == 0, "every message is completed");
    sym_reach("end");
}
}
ENTRY(c30_scalar) { exchange<scalar>(); }
ENTRY(c30_vector) { exchange<Vector>(); }
ENTRY(c30_int) { exchange<int>(); }
// three ranks, arbitrary order, delays and polling
ENTRY(c30_ranks)
{
    Executor e = NF::SerialExecutor {};
    const int R = 3;
    mpimodel::reset(R);
    mpimodel::delays = TIER(1, 2);
    mpimodel::early = sym_choose("early", 0, 1);
    auto p = somePlan(R, 3);
    auto c = all(p);
    Comm<scalar> x("x", e, p);
    int first = (int)sym_choose("first", 0, R - 1), dir = (int)sym_choose("direction", 1, 2);
    for (int i = 0; i < R; i++) x.begin(c, (first + dir * i) % R);
    int last = (int)sym_choose("last", 0, R - 1), back = (int)sym_choose("back", 1, 2);
    for (int i = 0; i < R; i++)
    {
        int r = (last + back * i) % R;
        if (sym_choose("poll", 0, 1))
        {
            bool done = c[r].isComplete("x");
            bool open = false;
            for (auto* m : mpimodel::posted) open |= m->self == r && !m->done;
            sym_assert(done == !open, "an exchange is complete when all its messages are");
        }
        x.end(c, r, p);
    }
    sym_assert(mpimodel::active == 0, "every message is completed");
    sym_reach("end");
}
// several exchanges under way at the same time, of different types, finished in any order, and again afterwards
ENTRY(c30_concurrent)
{
    Executor e = symExec("exec", 0, TIER(0, 2));
    const int R = 2, N = TIER(2, 3);
    sym_hash_mode(sym_choose("sameTags", 0, 1) ? 0 : -1);
    mpimodel::reset(R);
    mpimodel::early = sym_choose("early", 0, 1);
    auto p = somePlan(R, 3);
    auto c = all(p);
    for (int round = 0; round < 2; round++)
    {
        Comm<scalar> x("a", e, p), z("c", e, p);
        Comm<Vector> y("b", e, p);
        if (round) std::swap(x.nm, y.nm);
        auto begin = [&](int k, int r) { if (k == 0) x.begin(c, r); if (k == 1) y.begin(c, r); if (k == 2) z.begin(c, r); };
        auto end = [&](int k, int r) { if (k == 0) x.end(c, r, p); if (k == 1) y.end(c, r, p); if (k == 2) z.end(c, r, p); };
        bool swapped = sym_choose("ranksSwapped", 0, 1);
        for (int i = 0; i < R; i++)
            for (int k = 0; k < N; k++) begin(k, swapped ? R - 1 - i : i);
        std::vector<int> todo;
        for (int k = 0; k < N; k++) todo.push_back(k);
        // each rank in its own order
        for (int r = 0; r < R; r++)
        {
            auto t = todo;
            while (t.size())
            {
                size_t k = (size_t)sym_choose("which", 0, (int)t.size() - 1);
                end(t[k], r);
                t.erase(t.begin() + (long)k);
            }
        }
        sym_assert(mpimodel::active == 0, "every message is completed");
    }
    sym_reach("end");
}
// exchanges that follow each other on the same communicator
ENTRY(c30_again)
{
    Executor e = symExec("exec", 0, TIER(0, 2));
    const int R = 2;
    mpimodel::reset(R);
    auto p = somePlan(R, 3);
    auto c = all(p);
    if (sym_choose("copied", 0, 1))
    { // communicators are copied before use
        Communicator d;
        d = c[0];
        c[0] = d;
    }
    for (int k = 0; k < TIER(3, 4); k++)
    {
        std::string nm = sym_choose("name", 0, 1) ? "a" : "b";
        auto go = [&](auto x)
        {
            for (int r = 0; r < R; r++) x.begin(c, r);
            for (int r = R; r-- > 0;) x.end(c, r, p);
        };
        switch (sym_choose("type", 0, 2))
        {
        case 0: go(Comm<scalar>(nm, e, p)); break;
        case 1: go(Comm<Vector>(nm, e, p)); break;
        case 2: go(Comm<int>(nm, e, p)); break;
        }
    }
    sym_reach("end");
}
// many exchanges under way at the same time, some already complete, and long ones
ENTRY(c30_many)
{
    Executor e = NF::SerialExecutor {};
    const int R = 2, N = 9;
    mpimodel::reset(R);
    mpimodel::early = sym_choose("early", 0, 1);
    Plan p {R, 300, {}, {}};
    p.from.assign(R, std::vector<std::vector<int>>(R));
    p.to = p.from;
    for (int a = 0; a < R; a++)
    {
        int b = 1 - a, n = a ? 290 : 3;
        for (int i = 0; i < n; i++) p.from[a][b].push_back((i * 7) % 300), p.to[b][a].push_back((i * 11) % 300);
    }
    auto c = all(p);
    bool back = sym_choose("back", 0, 1);
    for (int round = 0; round < 2; round++)
    {
        std::vector<Comm<scalar>> x;
        for (int k = 0; k < N; k++)
        {
            x.emplace_back("exchange" + std::to_string(k), e, p);
            for (int r = 0; r < R; r++) x.back().begin(c, r);
            for (int j = 0; j <= k; j++) sym_assert(c[0].isComplete("exchange" + std::to_string(j)) && c[1].isComplete("exchange" + std::to_string(j)), "an exchange is complete when all its messages are");
        }
        for (int k = 0; k < N; k++)
            for (int r = 0; r < R; r++) x[(size_t)(back ? N - 1 - k : k)].end(c, r, p);
        sym_assert(mpimodel::active == 0, "every message is completed");
    }
    sym_reach("end");
}

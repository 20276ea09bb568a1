// The Ginkgo back end: what it hands to the library and what it returns.
#include "inc/nf.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
using NF::localIdx;
using NF::Dictionary;
namespace la = NeoFOAM::la;
using Node = gko::config::pnode;
using Tag = Node::tag_t;
template class NeoFOAM::RuntimeSelectionFactory<NeoFOAM::la::SolverFactory, NeoFOAM::Parameters<const NeoFOAM::Executor&, const NeoFOAM::Dictionary&>>::Register<NeoFOAM::la::ginkgo::GinkgoSolver>;
namespace
{
struct Expect
{
    Tag tag;
    std::string s;
    int64_t i = 0;
    double d = 0;
};
// the entry of one kind; false if there is no such configuration value
bool put(Dictionary& d, const std::string& key, int kind, Expect& x)
{
    switch (kind)
    {
    case 0: x = {Tag::string, symText("text", 1)}; d.insert(key, x.s); return true;
    case 1: x = {Tag::string, "a literal"}; d.insert(key, "a literal"); return true;
    case 2: { int v = (int)sym_i64("int", INT32_MIN, INT32_MAX); x = {Tag::integer, "", v}; d.insert(key, v); return true; }
    case 3: { unsigned v = (unsigned)sym_i64("unsigned", 0, UINT32_MAX); x = {Tag::integer, "", (int64_t)v}; d.insert(key, v); return true; }
    case 4: { double v = sym_f64("real"); x = {Tag::real, "", 0, v}; d.insert(key, v); return true; }
    case 5: { float v = 0.25f * (float)sym_choose("quarters", -3, 3); x = {Tag::real, "", 0, (double)v}; d.insert(key, v); return true; }
    case 6: d.insert(key, std::vector<int> {1, 2}); return false;
    default: d.insert(key, (size_t)3); return false;
    }
}
void same(const Node& n, const Expect& x)
{
    sym_assert(n.tag == x.tag, "an entry keeps its type");
    sym_assert(n.str == x.s, "an entry keeps its text");
    sym_assert(n.num == x.i, "an entry keeps its number");
    eq(n.real, x.d, "an entry keeps its number");
}
}
#undef ENTRY
#define ENTRY(name)                                                                                                                        \
    static void body_##name();                                                                                                             \
    extern "C" void harness_##name()                                                                                                       \
    {                                                                                                                                      \
        sym_mem_space_mode(1);                                                                                                             \
        body_##name();                                                                                                                     \
    }                                                                                                                                      \
    static void body_##name()
ENTRY(c35_config)
{
    Dictionary d;
    std::map<std::string, Expect> want;
    std::map<std::string, std::map<std::string, Expect>> deep;
    bool ok = true;
    int n = (int)sym_choose("entries", 0, TIER(2, 3));
    const char* names[] = {"a", "b", "a key that is longer than the small buffer"};
    for (int i = 0; i < n; i++)
    {
        int kind = (int)sym_choose("kind", 0, 8);
        if (kind < 8)
        {
            ok = put(d, names[i], kind, want[names[i]]) && ok;
            continue;
        }
        Dictionary sub;
        deep[names[i]];
        if (sym_choose("filled", 0, 1)) ok = put(sub, "a", (int)sym_choose("subKind", 2, 7), deep[names[i]]["a"]) && ok;
        d.insert(names[i], sub);
    }
    bool threw = false;
    Node r;
    try { r = la::ginkgo::parse(d); }
    catch (const NF::NeoFOAMException&) { threw = true; }
    sym_assert(threw == !ok, "an entry without configuration value is refused");
    if (threw) { sym_reach("refused"); return; }
    sym_assert(r.tag == Tag::map && r.map->size() == (size_t)n, "a configuration has the entries of the dictionary");
    for (auto& [k, x] : want)
    {
        sym_assert(r.map->count(k) == 1, "a configuration has the entries of the dictionary");
        same(r.map->at(k), x);
    }
    for (auto& [k, x] : deep)
    {
        sym_assert(r.map->count(k) == 1 && r.map->at(k).tag == Tag::map && r.map->at(k).map->size() == x.size(), "a configuration is nested like the dictionary");
        for (auto& [q, y] : x) same(r.map->at(k).map->at(q), y);
    }
    sym_reach("end");
}
ENTRY(c35_solve)
{
    Executor e = symExec();
    size_t blocks = nfk_live();
    {
        Dictionary d;
        d.insert("solver", std::string("Ginkgo"));
        d.insert("iterations", 7);
        auto first = std::make_unique<la::Solver>(e, d);
        // a copy works also when the original is gone
        la::Solver solver = sym_choose("copied", 0, 1) ? la::Solver(*first) : la::Solver(std::move(*first));
        first.reset();
        sym_assert(gko::nfGinkgo.made >= 1 && gko::nfGinkgo.config.map->at("iterations").num == 7, "a solver gets its configuration");
        int rounds = (int)sym_choose("rounds", 1, 2);
        for (int q = 0; q < rounds; q++)
        {
            size_t n = (size_t)sym_choose("rows", 1, rounds == 2 ? 2 : TIER(2, 3));
            std::vector<localIdx> col, row {0};
            for (size_t r = 0; r < n; r++)
            {
                size_t k = (size_t)sym_choose("entries", 0, 2), b = col.size();
                for (size_t j = 0; j < k; j++)
                {
                    localIdx c = (localIdx)sym_i64("column", 0, (int)n - 1);
                    for (size_t i = b; i < col.size(); i++) sym_assume(col[i] != c);
                    col.push_back(c);
                }
                row.push_back((localIdx)col.size());
            }
            auto v = symScalars("a", col.size()), b = symScalars("b", n), g = symScalars("guess", n);
            la::CSRMatrix<scalar, localIdx> m(Field<scalar>(e, v), Field<localIdx>(e, col), Field<localIdx>(e, row));
            la::LinearSystem<scalar, localIdx> ls(m, Field<scalar>(e, b));
            Field<scalar> x(e, g);
            auto& s = gko::nfGinkgo;
            s.answer = symScalars("answer", n);
            solver.solve(ls, x);
            sym_assert(s.solves == q + 1, "a system is solved once");
            sym_assert(s.rows == n && s.cols == n, "the system has its size");
            eqAll(s.values, v, "the matrix is handed over");
            sym_assert(s.colIdx.size() == col.size() && s.rowPtr.size() == row.size(), "the matrix is handed over");
            for (size_t i = 0; i < col.size(); i++) sym_assert(s.colIdx[i] == (int)col[i], "the matrix is handed over");
            for (size_t i = 0; i < row.size(); i++) sym_assert(s.rowPtr[i] == (int)row[i], "the matrix is handed over");
            eqAll(s.b, b, "the right-hand side is handed over");
            eqAll(s.guess, g, "the solver starts from the field");
            eqAll(host(x), s.answer, "the solution is handed back");
            eqAll(host(ls.matrix().values()), v, "the system is not changed");
            eqAll(host(ls.matrix().colIdxs()), col, "the system is not changed");
            eqAll(host(ls.matrix().rowPtrs()), row, "the system is not changed");
            eqAll(host(ls.rhs()), b, "the system is not changed");
        }
    }
    sym_assert(nfk_live() == blocks, "nothing is left behind");
    sym_reach("end");
}

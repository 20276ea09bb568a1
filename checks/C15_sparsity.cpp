// SparsityPattern: rows, columns and offsets match the connections of the mesh.
#include "inc/fvmesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include <optional>
namespace
{
void checkPattern(const fvcc::SparsityPattern& sp, const Topo& t, const Executor& e)
{
    auto row = host(sp.rowPtrs()), col = host(sp.colIdxs());
    auto oo = host(sp.ownerOffset()), no = host(sp.neighbourOffset()), dof = host(sp.diagOffset());
    size_t nnz = t.nCells + 2 * t.nInt;
    sym_assert(sp.rows() == t.nCells && sp.nnz() == nnz && col.size() == nnz, "a row per cell, an entry per cell and face side");
    sym_assert(row.size() == t.nCells + 1 && row[0] == 0 && row[t.nCells] == nnz, "row starts");
    sym_assert(oo.size() == t.nInt && no.size() == t.nInt && dof.size() == t.nCells, "offsets per face and cell");
    sym_assert(sp.rowPtrs().exec() == e && sp.colIdxs().exec() == e && sp.diagOffset().exec() == e, "the pattern lives on the executor of the mesh");
    // nothing here branches on the connections: they are left to the solver
    std::vector<unsigned> size(t.nCells, 1), lower(t.nCells, 0);
    for (size_t f = 0; f < t.nInt; f++)
        for (size_t c = 0; c < t.nCells; c++)
        {
            size[c] += (unsigned)((t.own[f] == (int)c) | (t.nei[f] == (int)c));
            lower[c] += (unsigned)(t.nei[f] == (int)c);
        }
    for (size_t c = 0; c < t.nCells; c++)
    {
        sym_assert(row[c + 1] == row[c] + size[c], "a row has one entry per face and the diagonal");
        sym_assert((dof[c] == lower[c]) & (dof[c] < size[c]), "the diagonal follows the lower entries");
        sym_assert(pick(col, row[c] + dof[c]) == c, "the diagonal entry is the cell itself");
    }
    for (size_t k = 0; k < nnz; k++)
        for (size_t c = 0; c < t.nCells; c++)
        {
            if (nnz > 200 && !(row[c] <= k && k < row[c + 1])) continue;
            bool in = (row[c] <= k) & (k < row[c + 1]);
            size_t d = row[c] + dof[c];
            sym_assert(!in | ((k < d) & (col[k] < c)) | ((k == d) & (col[k] == c)) | ((k > d) & (col[k] > c)),
                       "lower entries come before the diagonal and upper ones after it");
        }
    std::vector<size_t> at;
    for (size_t c = 0; c < t.nCells; c++) at.push_back(row[c] + dof[c]);
    for (size_t f = 0; f < t.nInt; f++)
    {
        size_t o = (size_t)t.own[f], n = (size_t)t.nei[f];
        sym_assert((oo[f] < pick(size, o)) & (no[f] < pick(size, n)), "offsets stay in their row");
        size_t po = pick(row, o) + oo[f], pn = pick(row, n) + no[f];
        sym_assert(pick(col, po) == n, "the entry of a face in the row of its owner is the neighbour");
        sym_assert(pick(col, pn) == o, "the entry of a face in the row of its neighbour is the owner");
        at.push_back(po);
        at.push_back(pn);
    }
    if (nnz < 24)
    {
        for (size_t i = 0; i < at.size(); i++)
            for (size_t j = 0; j < i; j++) sym_assert(at[i] != at[j], "every entry belongs to exactly one cell or face side");
    }
    else
    {
        std::vector<char> hit(nnz, 0);
        for (auto i : at) hit[i]++;
        for (auto h : hit) sym_assert(h == 1, "every entry belongs to exactly one cell or face side");
    }
}
}
ENTRY(c15_any)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    size_t n = (size_t)sym_choose("nCells", 1, TIER(3, 4));
    size_t ni = n < 2 ? 0 : (size_t)sym_choose("nInternal", 0, TIER(3, 4));
    auto t = solverTopo(n, ni, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    fvcc::SparsityPattern sp(m);
    checkPattern(sp, t, e);
    sym_assert(&sp.mesh() == &m, "a pattern knows its mesh");
    sym_sched_mode(16);
    sp.update();
    checkPattern(sp, t, e);
    sym_reach("end");
}
ENTRY(c15_orders)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(2 | 16);
    auto t = solverTopo(3, TIER(2, 3), 1);
    auto m = mkMesh(e, t, plainGeo(t));
    fvcc::SparsityPattern sp(m);
    checkPattern(sp, t, e);
    sym_reach("end");
}
ENTRY(c15_interleaved)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(3 | 16);
    auto t = solverTopo((size_t)sym_choose("nCells", 2, 3), 2, 0);
    auto m = mkMesh(e, t, plainGeo(t));
    fvcc::SparsityPattern sp(m);
    checkPattern(sp, t, e);
    sym_reach("end");
}
// a cell with many faces, as far as the offsets reach
ENTRY(c15_many)
{
    Executor e = symExec("exec", 0, 1);
    size_t k = sym_choose("faces", 0, 1) ? 254 : 40;
    bool star = sym_choose("star", 0, 1);
    Topo t;
    t.nInt = k;
    t.nCells = k + 1;
    // one cell is the owner of all faces, or the neighbour of all faces
    for (size_t f = 0; f < k; f++)
    {
        t.own.push_back(star ? 0 : (int)f);
        t.nei.push_back(star ? (int)f + 1 : (int)k);
    }
    t.offset = {0, 0};
    auto m = mkMesh(e, t, plainGeo(t));
    fvcc::SparsityPattern sp(m);
    checkPattern(sp, t, e);
    sym_reach("end");
}
// created once per mesh, empty systems of it are zero
ENTRY(c15_cached)
{
    Executor e = symExec();
    auto t = solverTopo(3, 2, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto a = fvcc::SparsityPattern::readOrCreate(m);
    auto b = fvcc::SparsityPattern::readOrCreate(m);
    sym_assert(a.get() == b.get() && a, "a pattern is created once per mesh");
    checkPattern(*a, t, e);
    auto t2 = solverTopo(2, 1, 1);
    auto m2 = mkMesh(e, t2, plainGeo(t2));
    auto c = fvcc::SparsityPattern::readOrCreate(m2);
    sym_assert(c.get() != a.get() && &c->mesh() == &m2, "different meshes have different patterns");
    checkPattern(*c, t2, e);
    checkPattern(*a, t, e);
    auto ls = NF::la::createEmptyLinearSystem<scalar, localIdx>(*a);
    auto lv = NF::la::createEmptyLinearSystem<Vector, localIdx>(*a);
    sym_assert(ls.exec() == e && ls.matrix().nRows() == t.nCells && ls.matrix().nNonZeros() == a->nnz() && ls.rhs().size() == t.nCells, "sizes of an empty system");
    for (auto x : host(ls.matrix().values())) eq(x, 0.0, "an empty system is zero");
    for (auto x : host(ls.rhs())) eq(x, 0.0, "an empty system is zero");
    for (auto x : host(lv.matrix().values())) eq(x, Vector(0.0, 0.0, 0.0), "an empty system is zero");
    for (auto x : host(lv.rhs())) eq(x, Vector(0.0, 0.0, 0.0), "an empty system is zero");
    eqAll(host(ls.matrix().colIdxs()), host(a->colIdxs()), "an empty system has the pattern's columns");
    eqAll(host(ls.matrix().rowPtrs()), host(a->rowPtrs()), "an empty system has the pattern's rows");
    sym_reach("end");
}

// a mesh in the place of an earlier one has its own pattern
ENTRY(c15_again)
{
    Executor e = symExec("exec", 0, 1);
    std::optional<UnstructuredMesh> m;
    size_t before = 0;
    for (int i = 0; i < 3; i++)
    {
        auto t = solverTopo(i == 1 ? 2 : 3, i == 2 ? 1 : 2, 1);
        m.emplace(mkMesh(e, t, plainGeo(t)));
        auto a = fvcc::SparsityPattern::readOrCreate(*m);
        sym_assert(a->nnz() != before, "different meshes have different patterns");
        checkPattern(*a, t, e);
        a.reset();
        auto b = fvcc::SparsityPattern::readOrCreate(*m);
        checkPattern(*b, t, e);
        sym_assert(b.get() == fvcc::SparsityPattern::readOrCreate(*m).get(), "a pattern is created once per mesh");
        before = b->nnz();
        m.reset();
    }
    sym_reach("end");
}
// a pattern keeps living in its mesh, also when no one else holds it
ENTRY(c15_kept)
{
    Executor e = symExec("exec", 0, 1);
    auto t = solverTopo(3, 2, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    const fvcc::SparsityPattern* p = fvcc::SparsityPattern::readOrCreate(m).get();
    checkPattern(*p, t, e);
    sym_assert(fvcc::SparsityPattern::readOrCreate(m).get() == p, "a pattern is created once per mesh");
    checkPattern(*p, t, e);
    sym_reach("end");
}

// a copy of a mesh does not hang on the original
ENTRY(c15_copy)
{
    Executor e = symExec("exec", 0, 1);
    auto t = solverTopo(3, 2, 1);
    std::optional<UnstructuredMesh> m;
    m.emplace(mkMesh(e, t, plainGeo(t)));
    bool made = sym_choose("made", 0, 1);
    if (made) fvcc::SparsityPattern::readOrCreate(*m);
    UnstructuredMesh c(*m);
    if (sym_choose("gone", 0, 1)) m.reset();
    auto a = fvcc::SparsityPattern::readOrCreate(c);
    sym_assert(&a->mesh() == &c, "the pattern of a mesh is that of this mesh");
    checkPattern(*a, t, e);
    auto ls = NF::la::createEmptyLinearSystem<scalar, localIdx>(*a);
    sym_assert(ls.exec() == e && ls.rhs().size() == t.nCells, "sizes of an empty system");
    if (m) sym_assert(&fvcc::SparsityPattern::readOrCreate(*m)->mesh() == &*m, "the pattern of a mesh is that of this mesh");
    sym_reach("end");
}

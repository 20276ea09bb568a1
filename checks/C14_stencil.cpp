// CellToFaceStencil: the faces of every cell, whatever the connections and the schedule.
#include "inc/fvmesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include <algorithm>
namespace
{
void checkStencil(const UnstructuredMesh& m, const Topo& t)
{
    fvcc::CellToFaceStencil st(m);
    auto s = st.computeStencil();
    auto v = host(s.values()), o = host(s.segments());
    sym_assert(o.size() == t.nCells + 1 && o[0] == 0, "one segment per cell");
    sym_assert(v.size() == 2 * t.nInt + t.nBnd && o[t.nCells] == v.size(), "one entry per cell side of a face");
    for (size_t c = 0; c < t.nCells; c++)
    {
        sym_assert((o[c] <= o[c + 1]) & (o[c + 1] <= v.size()), "segments are consecutive");
        unsigned want = 0;
        for (size_t f = 0; f < t.nFaces(); f++)
        {
            unsigned has = f < t.nInt ? (unsigned)((t.own[f] == (int)c) | (t.nei[f] == (int)c)) : (unsigned)(t.fc[f - t.nInt] == (int)c);
            unsigned found = 0;
            for (size_t k = 0; k < v.size(); k++) found += (unsigned)((k >= o[c]) & (k < o[c + 1]) & (v[k] == f));
            sym_assert(found == has, "the segment of a cell lists each of its faces once and no other");
            want += has;
        }
        sym_assert(o[c + 1] - o[c] == want, "the segment of a cell lists each of its faces once and no other");
    }
}
}
ENTRY(c14_any)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    size_t n = (size_t)sym_choose("nCells", 1, TIER(3, 4));
    size_t ni = n < 2 ? 0 : (size_t)sym_choose("nInternal", 0, TIER(3, 4));
    size_t nb = (size_t)sym_choose("nBoundary", 0, TIER(1, 2));
    auto t = solverTopo(n, ni, nb);
    auto m = mkMesh(e, t, plainGeo(t));
    checkStencil(m, t);
    sym_reach("end");
}
// several boundary faces of a cell
ENTRY(c14_boundary)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = solverTopo((size_t)sym_choose("nCells", 1, 2), 0, TIER(2, 3));
    auto m = mkMesh(e, t, plainGeo(t));
    checkStencil(m, t);
    sym_reach("end");
}
ENTRY(c14_orders)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(2 | 16);
    auto t = solverTopo(3, TIER(2, 3), TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    checkStencil(m, t);
    sym_reach("end");
}
ENTRY(c14_interleaved)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(3 | 16);
    auto t = solverTopo(2, (size_t)sym_choose("nInternal", 1, TIER(2, 2)), (size_t)sym_choose("nBoundary", 0, TIER(1, 2)));
    auto m = mkMesh(e, t, plainGeo(t));
    checkStencil(m, t);
    sym_reach("end");
}
// the mesh of the library, any length
ENTRY(c14_uniform)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("nCells", 1, TIER(5, 12));
    auto m = NF::create1DUniformMesh(e, n);
    Topo t;
    t.nCells = n;
    t.nInt = n - 1;
    t.nBnd = 2;
    for (size_t i = 0; i + 1 < n; i++) t.own.push_back((int)i), t.nei.push_back((int)i + 1);
    t.fc = {0, (int)n - 1};
    checkStencil(m, t);
    sym_reach("end");
}

// a cell with many faces, and many cells: positions beyond the small integer types
ENTRY(c14_many)
{
    Executor e = symExec("exec", 0, 1);
    size_t k = TIER(300, 400), nb = (size_t)sym_choose("boundary", 0, 1) ? k : 0;
    bool star = sym_choose("star", 0, 1);
    Topo t;
    t.nInt = k;
    t.nCells = k + 1;
    t.nBnd = nb;
    for (size_t f = 0; f < k; f++)
    {
        t.own.push_back(star ? 0 : (int)f);
        t.nei.push_back(star ? (int)f + 1 : (int)k);
    }
    for (size_t f = 0; f < nb; f++) t.fc.push_back(star ? 0 : (int)f);
    t.offset = {0, (localIdx)nb};
    auto m = mkMesh(e, t, plainGeo(t));
    fvcc::CellToFaceStencil st(m);
    auto s = st.computeStencil();
    auto v = host(s.values()), o = host(s.segments());
    sym_assert(o.size() == t.nCells + 1 && o[0] == 0 && v.size() == 2 * k + nb && o[t.nCells] == v.size(), "one entry per cell side of a face");
    std::vector<std::vector<size_t>> want(t.nCells);
    for (size_t f = 0; f < k; f++) want[(size_t)t.own[f]].push_back(f), want[(size_t)t.nei[f]].push_back(f);
    for (size_t f = 0; f < nb; f++) want[(size_t)t.fc[f]].push_back(k + f);
    for (size_t c = 0; c < t.nCells; c++)
    {
        sym_assert(o[c] <= o[c + 1] && o[c + 1] - o[c] == want[c].size(), "the segment of a cell lists each of its faces once and no other");
        std::vector<size_t> has(v.begin() + (long)o[c], v.begin() + (long)o[c + 1]);
        std::sort(has.begin(), has.end());
        for (size_t i = 0; i < has.size(); i++) sym_assert(has[i] == want[c][i], "the segment of a cell lists each of its faces once and no other");
    }
    sym_reach("end");
}

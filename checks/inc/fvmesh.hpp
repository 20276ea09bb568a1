// Symbolic meshes: arbitrary topology (bounded sizes) and arbitrary geometry.
#pragma once
#include "nf.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;
using NF::label;
using NF::localIdx;
using NF::UnstructuredMesh;

struct Topo
{
    size_t nCells = 0, nInt = 0, nBnd = 0;
    std::vector<int> own, nei, fc; // internal faces: owner < neighbour; boundary faces: their cell
    std::vector<localIdx> offset;  // patches
    size_t nFaces() const { return nInt + nBnd; }
};
// long meshes instead of the small ones, for the positions that only they have
inline bool& longMode()
{
    static bool on = false;
    return on;
}
// a chain of cells, closed to a ring by one face, each with a boundary face; 22 patches;
// the first and the last but one cell have many faces
inline Topo longTopo(size_t n = 300)
{
    Topo t;
    t.nCells = n;
    for (size_t i = 0; i + 1 < n; i++) t.own.push_back((int)i), t.nei.push_back((int)i + 1);
    t.own.push_back(0), t.nei.push_back((int)n - 1);
    for (size_t i = 0; i < 24; i++) t.own.push_back(0), t.nei.push_back((int)(40 + i * 9));
    for (size_t i = 0; i < 24; i++) t.own.push_back((int)(30 + i * 10)), t.nei.push_back((int)n - 2);
    t.nInt = t.own.size();
    for (size_t i = 0; i < n; i++) t.fc.push_back((int)((i * 7) % n));
    t.nBnd = n;
    t.offset = {0, (localIdx)(n - 40), (localIdx)(n - 20)};
    for (size_t i = n - 20; i < n; i++) t.offset.push_back((localIdx)(i == n - 8 ? i : i + 1)); // one patch is empty
    return t;
}
// every connection of nInt internal and nBnd boundary faces to nCells cells
inline Topo symTopo(size_t nCells, size_t nInt, size_t nBnd, size_t nPatches = 1)
{
    if (longMode()) return longTopo();
    Topo t;
    t.nCells = nCells;
    t.nInt = nInt;
    t.nBnd = nBnd;
    for (size_t i = 0; i < nInt; i++)
    {
        int o = (int)sym_choose("owner", 0, (int)nCells - 2);
        int n = (int)sym_choose("neighbour", o + 1, (int)nCells - 1);
        t.own.push_back(o);
        t.nei.push_back(n);
    }
    for (size_t i = 0; i < nBnd; i++) t.fc.push_back((int)sym_choose("faceCell", 0, (int)nCells - 1));
    t.offset.push_back(0);
    localIdx at = 0;
    for (size_t p = 0; p + 1 < nPatches; p++)
    {
        at = (localIdx)sym_choose("offset", (int)at, (int)nBnd);
        t.offset.push_back(at);
    }
    t.offset.push_back((localIdx)nBnd);
    return t;
}
// the same with the connections left to the solver (no path per connection)
inline Topo solverTopo(size_t nCells, size_t nInt, size_t nBnd)
{
    Topo t;
    t.nCells = nCells;
    t.nInt = nInt;
    t.nBnd = nBnd;
    for (size_t i = 0; i < nInt; i++)
    {
        int o = (int)sym_i64("owner", 0, (int)nCells - 2);
        int n = (int)sym_i64("neighbour", 1, (int)nCells - 1);
        sym_assume(o < n);
        t.own.push_back(o);
        t.nei.push_back(n);
    }
    for (size_t i = 0; i < nBnd; i++) t.fc.push_back((int)sym_i64("faceCell", 0, (int)nCells - 1));
    t.offset = {0, (localIdx)nBnd};
    return t;
}
// element of a list at a symbolic position
template<class T> inline T pick(const std::vector<T>& v, size_t i) { return v.data()[i]; }
struct Geo
{
    std::vector<scalar> vol, magSf, bMagSf, bWeights, bDeltaCoeffs;
    std::vector<Vector> cc, sf, cf, points, bCf, bCn, bSf, bNf, bDelta;
};
// arbitrary geometry; only what a mesh must fulfil for the operators to be defined is assumed
inline Geo symGeo(const Topo& t)
{
    Geo g;
    g.vol = symScalars("vol", t.nCells);
    for (auto v : g.vol) sym_assume(v > 0);
    g.cc = symVectors("cc", t.nCells);
    g.sf = symVectors("sf", t.nFaces());
    g.cf = symVectors("cf", t.nFaces());
    g.magSf = symScalars("magSf", t.nFaces());
    for (auto v : g.magSf) sym_assume(v > 0);
    g.points = symVectors("pt", 1);
    for (size_t i = 0; i < t.nBnd; i++)
    {
        size_t f = t.nInt + i;
        g.bCf.push_back(g.cf[f]);
        g.bSf.push_back(g.sf[f]);
        g.bMagSf.push_back(g.magSf[f]);
        g.bCn.push_back(g.cc[(size_t)t.fc[i]]);
    }
    g.bNf = symVectors("nf", t.nBnd);
    g.bDelta = symVectors("delta", t.nBnd);
    g.bWeights = symScalars("bw", t.nBnd);
    g.bDeltaCoeffs = symScalars("bdc", t.nBnd);
    for (auto v : g.bDeltaCoeffs) sym_assume(v > 0);
    return g;
}
// geometry of no interest: any fixed values
inline Geo plainGeo(const Topo& t)
{
    Geo g;
    g.vol.assign(t.nCells, 1.0);
    for (size_t i = 0; i < t.nCells; i++) g.cc.push_back(Vector((double)i, 0.0, 0.0));
    g.sf.assign(t.nFaces(), Vector(1.0, 0.0, 0.0));
    for (size_t i = 0; i < t.nFaces(); i++) g.cf.push_back(Vector((double)i + 0.5, 0.0, 0.0));
    g.magSf.assign(t.nFaces(), 1.0);
    g.points.assign(1, Vector(0.0, 0.0, 0.0));
    g.bCf.assign(t.nBnd, Vector(0.5, 0.0, 0.0));
    g.bSf.assign(t.nBnd, Vector(1.0, 0.0, 0.0));
    g.bMagSf.assign(t.nBnd, 1.0);
    g.bCn.assign(t.nBnd, Vector(0.0, 0.0, 0.0));
    g.bNf.assign(t.nBnd, Vector(1.0, 0.0, 0.0));
    g.bDelta.assign(t.nBnd, Vector(0.5, 0.0, 0.0));
    g.bWeights.assign(t.nBnd, 1.0);
    g.bDeltaCoeffs.assign(t.nBnd, 2.0);
    return g;
}
inline UnstructuredMesh mkMesh(const Executor& e, const Topo& t, const Geo& g)
{
    using NF::labelField;
    using NF::scalarField;
    using NF::vectorField;
    std::vector<label> own(t.own.begin(), t.own.end()), nei(t.nei.begin(), t.nei.end()), fc(t.fc.begin(), t.fc.end());
    // the owner list of a mesh also covers the boundary faces
    own.insert(own.end(), fc.begin(), fc.end());
    NF::BoundaryMesh b(e, labelField(e, fc), vectorField(e, g.bCf), vectorField(e, g.bCn), vectorField(e, g.bSf), scalarField(e, g.bMagSf),
                       vectorField(e, g.bNf), vectorField(e, g.bDelta), scalarField(e, g.bWeights), scalarField(e, g.bDeltaCoeffs), t.offset);
    return UnstructuredMesh(vectorField(e, g.points), scalarField(e, g.vol), vectorField(e, g.cc), vectorField(e, g.sf), vectorField(e, g.cf),
                            scalarField(e, g.magSf), labelField(e, own), labelField(e, nei), t.nCells, t.nInt, t.nBnd, t.offset.size() - 1,
                            t.nFaces(), b);
}
template<class T> inline void setField(Field<T>& f, const std::vector<T>& v)
{
    Field<T> h(f.exec(), v);
    sym_assert(f.size() == v.size(), "size of a field of a mesh");
    f = h;
}

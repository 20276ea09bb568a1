// Patches: contiguous, disjoint ranges of the boundary faces; boundary data of fields.
#include "inc/fvmesh.hpp"
#include "NeoFOAM/fields/domainField.hpp"
#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary/boundaryPatchMixin.hpp"
namespace
{
Executor hostExec() { return symExec("exec", 0, 1); }
template<class V, class T> void range(const V& v, const std::vector<T>& all, size_t b, size_t e, const char* m)
{
    sym_assert(v.size() == e - b, m);
    for (size_t i = b; i < e; i++) eq(v[i - b], all[i], m);
}
}
// every patch sees exactly its own boundary faces, of every quantity
ENTRY(c12_patches)
{
    size_t nb = (size_t)sym_choose("nBnd", 0, TIER(3, 4)), np = (size_t)sym_choose("nPatches", 1, TIER(3, 4));
    Topo t = symTopo(2, 1, nb, np);
    Geo g = symGeo(t);
    UnstructuredMesh mesh = mkMesh(hostExec(), t, g);
    const NF::BoundaryMesh& b = mesh.boundaryMesh();
    sym_assert(mesh.nBoundaries() == np && b.offset().size() == np + 1, "one offset more than patches");
    size_t seen = 0;
    for (size_t p = 0; p < np; p++)
    {
        size_t s = t.offset[p], e = t.offset[p + 1];
        localIdx i = (localIdx)p;
        range(b.faceCells(i), t.fc, s, e, "cells of a patch");
        range(b.cf(i), g.bCf, s, e, "face centres of a patch");
        range(b.cn(i), g.bCn, s, e, "cell centres of a patch");
        range(b.sf(i), g.bSf, s, e, "face areas of a patch");
        range(b.magSf(i), g.bMagSf, s, e, "face area magnitudes of a patch");
        range(b.nf(i), g.bNf, s, e, "face normals of a patch");
        range(b.delta(i), g.bDelta, s, e, "cell to face vectors of a patch");
        range(b.weights(i), g.bWeights, s, e, "weights of a patch");
        range(b.deltaCoeffs(i), g.bDeltaCoeffs, s, e, "cell to face coefficients of a patch");
        fvcc::BoundaryPatchMixin x(mesh, p);
        sym_assert((size_t)x.patchStart() == s && x.patchSize() == e - s && x.patchID() == p, "position of a patch");
        sym_assert((size_t)x.patchEnd() == e, "end of a patch");
        sym_assert(x.range().first == s && x.range().second == e, "range of a patch");
        fvcc::BoundaryPatchMixin y((label)s, (label)e, p);
        sym_assert((size_t)y.patchStart() == s && (size_t)y.patchEnd() == e && y.patchSize() == e - s, "position of a patch");
        seen += e - s;
    }
    sym_assert(seen == nb, "the patches cover the boundary");
    range(b.faceCells().view(), t.fc, 0, nb, "cells of the boundary");
    range(b.cf().view(), g.bCf, 0, nb, "face centres of the boundary");
    range(b.cn().view(), g.bCn, 0, nb, "cell centres of the boundary");
    range(b.sf().view(), g.bSf, 0, nb, "face areas of the boundary");
    range(b.magSf().view(), g.bMagSf, 0, nb, "face area magnitudes of the boundary");
    range(b.nf().view(), g.bNf, 0, nb, "face normals of the boundary");
    range(b.delta().view(), g.bDelta, 0, nb, "cell to face vectors of the boundary");
    range(b.weights().view(), g.bWeights, 0, nb, "weights of the boundary");
    range(b.deltaCoeffs().view(), g.bDeltaCoeffs, 0, nb, "cell to face coefficients of the boundary");
    sym_reach("end");
}
// the mesh hands out what it was given
ENTRY(c12_mesh)
{
    Executor e = symExec();
    Topo t = symTopo(2, 1, 2, 2);
    Geo g = symGeo(t);
    UnstructuredMesh m = mkMesh(e, t, g);
    UnstructuredMesh c(m);
    UnstructuredMesh& x = sym_choose("copy", 0, 1) ? c : m;
    eqAll(host(x.points()), g.points, "points");
    eqAll(host(x.cellVolumes()), g.vol, "cell volumes");
    eqAll(host(x.cellCentres()), g.cc, "cell centres");
    eqAll(host(x.faceAreas()), g.sf, "face areas");
    eqAll(host(x.faceCentres()), g.cf, "face centres");
    eqAll(host(x.magFaceAreas()), g.magSf, "face area magnitudes");
    eqAll(host(x.faceNeighbour()), t.nei, "neighbours");
    auto own = t.own;
    own.insert(own.end(), t.fc.begin(), t.fc.end());
    eqAll(host(x.faceOwner()), own, "owners");
    sym_assert(x.nCells() == 2 && x.nInternalFaces() == 1 && x.nBoundaryFaces() == 2 && x.nBoundaries() == 2 && x.nFaces() == 3 && x.exec() == e, "sizes");
    sym_reach("end");
}
namespace
{
template<class T> void boundaryFields()
{
    Executor e = symExec();
    size_t nb = (size_t)sym_choose("nBnd", 0, 2), np = (size_t)sym_choose("nPatches", 1, 2);
    Topo t = symTopo(1, 0, nb, np);
    NF::BoundaryFields<T> b(e, t.offset);
    sym_assert(b.nBoundaries() == np && b.nBoundaryFaces() == nb, "sizes of boundary data");
    sym_assert(b.value().size() == nb && b.refValue().size() == nb && b.valueFraction().size() == nb && b.refGrad().size() == nb && b.boundaryTypes().size() == np && b.offset().size() == np + 1, "sizes of boundary data");
    eqAll(host(b.offset()), t.offset, "offsets of boundary data");
    auto v = symVals<T>("value", nb), r = symVals<T>("refValue", nb), gr = symVals<T>("refGrad", nb);
    auto w = symScalars("valueFraction", nb);
    setField(b.value(), v);
    setField(b.refValue(), r);
    setField(b.valueFraction(), w);
    setField(b.refGrad(), gr);
    Executor o = symExec("other");
    auto internal = symVals<T>("internal", 2);
    NF::DomainField<T> d(e, Field<T>(e, internal), b);
    NF::DomainField<T> d2(d);
    NF::DomainField<T> d3(e, (size_t)2, t.offset);
    d3 = d;
    NF::DomainField<T> d4(e, Field<T>(e, internal), t.offset);
    NF::BoundaryFields<T> same(b), moved(o, b);
    NF::DomainField<T> elsewhere(o, Field<T>(e, internal), b);
    // copies own their data
    NF::fill(b.value(), NF::zero<T>());
    NF::fill(b.refValue(), NF::zero<T>());
    NF::fill(b.valueFraction(), 0.0);
    NF::fill(b.refGrad(), NF::zero<T>());
    auto chk = [&](NF::BoundaryFields<T>& x, const Executor& ex)
    {
        eqAll(host(x.value()), v, "boundary values are copied");
        eqAll(host(x.refValue()), r, "boundary values are copied");
        eqAll(host(x.valueFraction()), w, "boundary values are copied");
        eqAll(host(x.refGrad()), gr, "boundary values are copied");
        eqAll(host(x.offset()), t.offset, "boundary offsets are copied");
        sym_assert(x.nBoundaries() == np && x.nBoundaryFaces() == nb, "sizes of boundary data");
        sym_assert(x.value().exec() == ex, "boundary data lives where it was asked for");
        sym_assert(x.exec() == ex, "boundary data knows where it lives");
    };
    chk(same, e);
    chk(moved, o);
    auto dom = [&](NF::DomainField<T>& x, const Executor& ex)
    {
        eqAll(host(x.internalField()), internal, "internal values are copied");
        sym_assert(x.exec() == ex && x.internalField().exec() == ex, "a field lives where it was asked for");
        chk(x.boundaryField(), ex);
    };
    dom(d, e);
    dom(d2, e);
    dom(d3, e);
    dom(elsewhere, o);
    eqAll(host(d4.internalField()), internal, "internal values are copied");
    sym_assert(d4.boundaryField().nBoundaryFaces() == nb, "sizes of boundary data");
    NF::DomainField<T> d5(std::move(d2));
    dom(d5, e);
    d4 = std::move(d5);
    dom(d4, e);
    for (size_t p = 0; p < np; p++)
    {
        auto rg = b.range((localIdx)p);
        sym_assert(rg.first == t.offset[p] && rg.second == t.offset[p + 1], "range of a patch in boundary data");
    }
    sym_reach("end");
}
}
ENTRY(c12_fields_scalar) { boundaryFields<scalar>(); }
ENTRY(c12_fields_vector) { boundaryFields<Vector>(); }

// a large boundary: positions beyond the small integer types
ENTRY(c12_large)
{
    const size_t nb = 70000, half = 300, np = 300;
    Topo t;
    t.nCells = 1;
    t.nBnd = nb;
    for (size_t i = 0; i < nb; i++) t.fc.push_back(0);
    // half of the patches have one face; the rest are empty, but for the last
    for (size_t p = 0; p < np; p++) t.offset.push_back((localIdx)(p < half ? p : half));
    t.offset.push_back((localIdx)nb);
    Geo g = plainGeo(t);
    scalar v = sym_f64("v"), w = sym_f64("w");
    g.bMagSf[half + 1] = v;
    g.bMagSf[nb - 1] = w;
    UnstructuredMesh mesh = mkMesh(hostExec(), t, g);
    const NF::BoundaryMesh& b = mesh.boundaryMesh();
    NF::BoundaryFields<scalar> d(hostExec(), t.offset);
    sym_assert(d.nBoundaryFaces() == nb && d.nBoundaries() == np, "sizes of boundary data");
    for (size_t p = 0; p < np; p++)
    {
        size_t s = t.offset[p], e = t.offset[p + 1];
        localIdx i = (localIdx)p;
        fvcc::BoundaryPatchMixin x(mesh, p);
        sym_assert((size_t)x.patchStart() == s && (size_t)x.patchEnd() == e && x.patchSize() == e - s && x.patchID() == p, "position of a patch");
        auto rg = d.range(i);
        sym_assert(rg.first == s && rg.second == e, "range of a patch in boundary data");
        sym_assert(b.magSf(i).size() == e - s && b.faceCells(i).size() == e - s && b.sf(i).size() == e - s && b.cf(i).size() == e - s && b.deltaCoeffs(i).size() == e - s, "size of a patch");
        sym_assert(b.magSf(i).data() == b.magSf().data() + s && b.sf(i).data() == b.sf().data() + s && b.faceCells(i).data() == b.faceCells().data() + s, "place of a patch");
    }
    auto last = b.magSf((localIdx)(np - 1));
    eq(last[half + 1 - t.offset[np - 1]], v, "face area magnitudes of a patch");
    eq(last[last.size() - 1], w, "face area magnitudes of a patch");
    sym_reach("end");
}

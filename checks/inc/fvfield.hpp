// Volume and surface fields with arbitrary contents; linear systems over a mesh.
#pragma once
#include "fvmesh.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/dsl/coeff.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
namespace dsl = NeoFOAM::dsl;
namespace la = NeoFOAM::la;
using NF::Dictionary;
using NF::Input;
using NF::TokenList;

template<class T> struct Data
{
    std::vector<T> in, val, refVal, refGrad;
    std::vector<scalar> vf;
};
template<class T> Data<T> symData(const Topo& t, bool boundary = true)
{
    Data<T> d;
    d.in = symVals<T>("cell", t.nCells);
    d.val = symVals<T>("bvalue", t.nBnd);
    if (boundary)
    {
        d.refVal = symVals<T>("refValue", t.nBnd);
        d.refGrad = symVals<T>("refGrad", t.nBnd);
        d.vf = symScalars("valueFraction", t.nBnd);
    }
    return d;
}
template<class T> fvcc::VolumeField<T> mkVol(const Executor& e, const UnstructuredMesh& m, const std::string& name, const Data<T>& d)
{
    fvcc::VolumeField<T> f(e, name, m, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m));
    setField(f.internalField(), d.in);
    setField(f.boundaryField().value(), d.val);
    if (d.refVal.size()) setField(f.boundaryField().refValue(), d.refVal);
    if (d.refGrad.size()) setField(f.boundaryField().refGrad(), d.refGrad);
    if (d.vf.size()) setField(f.boundaryField().valueFraction(), d.vf);
    return f;
}
template<class T> fvcc::VolumeField<T> mkVol(const Executor& e, const UnstructuredMesh& m, const std::string& name, const std::vector<T>& in)
{
    fvcc::VolumeField<T> f(e, name, m, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m));
    setField(f.internalField(), in);
    return f;
}
template<class T> fvcc::SurfaceField<T> mkSurf(const Executor& e, const UnstructuredMesh& m, const std::string& name, const std::vector<T>& v)
{
    fvcc::SurfaceField<T> f(e, name, m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m));
    setField(f.internalField(), v);
    return f;
}
// the same data as arbitrary values (the geometry itself is decided by C17)
inline void setWeights(const UnstructuredMesh& m, const std::vector<scalar>& w)
{
    setField(const_cast<fvcc::SurfaceField<scalar>&>(fvcc::GeometryScheme::readOrCreate(m)->weights()).internalField(), w);
}
inline void setNonOrth(const UnstructuredMesh& m, const std::vector<scalar>& w)
{
    setField(const_cast<fvcc::SurfaceField<scalar>&>(fvcc::GeometryScheme::readOrCreate(m)->nonOrthDeltaCoeffs()).internalField(), w);
}
// replaces the geometry of a mesh whose face coefficients are already there,
// so that arbitrary areas do not drag every case of those coefficients along
inline void lateGeo(const UnstructuredMesh& m, const Geo& g)
{
    fvcc::GeometryScheme::readOrCreate(m);
    setField(const_cast<Field<scalar>&>(m.cellVolumes()), g.vol);
    setField(const_cast<Field<Vector>&>(m.faceAreas()), g.sf);
    setField(const_cast<Field<scalar>&>(m.magFaceAreas()), g.magSf);
    setField(const_cast<Field<Vector>&>(m.boundaryMesh().sf()), g.bSf);
    setField(const_cast<Field<scalar>&>(m.boundaryMesh().magSf()), g.bMagSf);
}
// scheme selection by words in a token list
inline Input words(const std::string& a, const std::string& b = "", const std::string& c = "")
{
    TokenList l;
    l.insert(a);
    if (b.size()) l.insert(b);
    if (c.size()) l.insert(c);
    return l;
}
inline scalar zeroT(scalar) { return 0.0; }
inline Vector zeroT(Vector) { return Vector(0.0, 0.0, 0.0); }
template<class T> std::vector<T> zeros(size_t n) { return std::vector<T>(n, zeroT(T())); }
// a coefficient: none, a number, a field, or both; .at(i) is what it stands for
struct SymCoeff
{
    int kind;
    double c = 1.0;
    std::vector<scalar> v;
    Field<scalar> f;
    SymCoeff(const Executor& e, size_t n, int lo = 0, int hi = 3) : kind((int)sym_choose("coefficient", lo, hi)), f(e, 0)
    {
        if (kind & 1) c = sym_f64("coeff");
        if (kind & 2)
        {
            v = symScalars("coeffField", n);
            f = Field<scalar>(e, v);
        }
    }
    dsl::Coeff get() const
    {
        if (kind == 0) return dsl::Coeff();
        if (kind == 1) return dsl::Coeff(c);
        if (kind == 2) return dsl::Coeff(f);
        return dsl::Coeff(c, f);
    }
    double at(size_t i) const { return kind & 2 ? v[i] * c : c; }
};
// the rows of a system as a dense matrix (entries of the same position added)
template<class T> std::vector<std::vector<T>> dense(const la::LinearSystem<T, localIdx>& ls, size_t n)
{
    auto v = host(ls.matrix().values());
    auto c = host(ls.matrix().colIdxs());
    auto r = host(ls.matrix().rowPtrs());
    std::vector<std::vector<T>> d(n, zeros<T>(n));
    for (size_t i = 0; i < n; i++)
        for (size_t k = r[i]; k < r[i + 1]; k++) d[i][c[k]] += v[k];
    return d;
}
template<class T> la::LinearSystem<T, localIdx> emptySystem(const UnstructuredMesh& m)
{
    return la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*fvcc::SparsityPattern::readOrCreate(m));
}
// entrywise product; matrices of vector equations are componentwise
inline scalar cmul(scalar a, scalar b) { return a * b; }
inline Vector cmul(const Vector& a, const Vector& b) { return Vector(a[0] * b[0], a[1] * b[1], a[2] * b[2]); }
inline Topo smallTopo(int maxCells, int maxInt, int maxBnd, int minBnd = 0)
{
    if (longMode()) return longTopo();
    size_t n = (size_t)sym_choose("nCells", 1, maxCells);
    size_t ni = n < 2 ? 0 : (size_t)sym_choose("nInternal", 1, maxInt);
    return symTopo(n, ni, (size_t)sym_choose("nBoundary", minBnd, maxBnd));
}

// Surface integrals and explicit divergence: sums over the faces of a cell, divided by its volume.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
namespace
{
// what leaves each cell through its faces
template<class T> std::vector<T> balance(const Topo& t, const std::vector<T>& face)
{
    auto r = zeros<T>(t.nCells);
    for (size_t i = 0; i < t.nInt; i++)
    {
        r[(size_t)t.own[i]] += face[i];
        r[(size_t)t.nei[i]] -= face[i];
    }
    for (size_t i = 0; i < t.nBnd; i++) r[(size_t)t.fc[i]] += face[t.nInt + i];
    return r;
}
template<class T> void checkCells(const std::vector<T>& got, const std::vector<T>& before, const std::vector<T>& sum, const SymCoeff& k, const Geo& g, const char* msg)
{
    sym_assert(got.size() == sum.size(), "one value per cell");
    for (size_t c = 0; c < sum.size(); c++) eq(got[c], before[c] + (k.at(c) / g.vol[c]) * sum[c], msg);
}
Geo volumes(const Topo& t)
{
    auto g = plainGeo(t);
    g.vol = symScalars("vol", t.nCells);
    for (auto v : g.vol) sym_assume(v > 0);
    return g;
}
template<class T> void integrate()
{
    Executor e = symExec();
    sym_sched_mode(1);
    auto t = smallTopo(TIER(2, 3), TIER(2, 3), TIER(2, 2));
    auto g = volumes(t);
    auto m = mkMesh(e, t, g);
    auto v = symVals<T>("flux", t.nFaces());
    auto f = mkSurf<T>(e, m, "flux", v);
    SymCoeff k(e, t.nCells);
    auto before = symVals<T>("source", t.nCells);
    Field<T> src(e, before);
    fvcc::SurfaceIntegrate<T> op(f);
    op.getCoefficient() = k.get();
    sym_assert(op.exec() == e && op.getType() == dsl::Operator::Type::Explicit, "the integral is explicit");
    if (sym_choose("copied", 0, 1)) fvcc::SurfaceIntegrate<T>(op).explicitOperation(src);
    else op.explicitOperation(src);
    checkCells(host(src), before, balance(t, v), k, g, "the integral adds what leaves each cell per volume");
    eqAll(host(f.internalField()), v, "the flux stays as it is");
    sym_reach("end");
}
template<class T> void divergence(const char* scheme, bool up)
{
    Executor e = symExec();
    sym_sched_mode((longMode() ? 0 : 1) | 16);
    auto t = smallTopo(TIER(2, 3), TIER(2, 2), TIER(1, 2));
    auto g = volumes(t);
    auto m = mkMesh(e, t, g);
    auto w = symScalars("weight", t.nFaces());
    for (size_t i = 0; i < t.nBnd; i++) w[t.nInt + i] = 1.0;
    setWeights(m, w);
    auto d = symData<T>(t, false);
    auto phi = mkVol<T>(e, m, "phi", d);
    auto fl = symSigned("flux", t.nFaces());
    auto flux = mkSurf<scalar>(e, m, "F", fl);
    SymCoeff k(e, t.nCells, longMode() ? 3 : 0, 3);
    std::vector<T> face;
    for (size_t i = 0; i < t.nInt; i++)
    {
        T o = d.in[(size_t)t.own[i]], n = d.in[(size_t)t.nei[i]];
        if (up) face.push_back(fl[i] * (fl[i] >= 0 ? o : n));
        else face.push_back(fl[i] * (w[i] * o + (1.0 - w[i]) * n));
    }
    for (size_t i = 0; i < t.nBnd; i++) face.push_back(fl[t.nInt + i] * d.val[i]);
    auto none = zeros<T>(t.nCells);
    std::vector<T> got;
    int how = (int)sym_choose("form", 0, 5);
    if (how < 3)
    {
        fvcc::GaussGreenDiv<T> op(e, m, words(scheme));
        if (how == 0)
        {
            auto out = mkVol<T>(e, m, "out", none);
            op.div(out, flux, phi, k.get());
            got = host(out.internalField());
        }
        else if (how == 1)
        {
            Field<T> out(e, none);
            op.clone()->div(out, flux, phi, k.get());
            got = host(out);
        }
        else
        {
            auto out = op.div(flux, phi, k.get());
            sym_assert(out.name == "div(F,phi)" && out.exec() == e && &out.mesh() == &m, "the divergence is a field of the mesh");
            got = host(out.internalField());
        }
    }
    else if (how > 3)
    {
        fvcc::DivOperator<T> op(dsl::Operator::Type::Explicit, flux, phi, words("Gauss", scheme));
        op.getCoefficient() = k.get();
        if (how == 4)
        {
            auto out = mkVol<T>(e, m, "out", none);
            op.div(out);
            got = host(out.internalField());
        }
        else
        {
            Field<T> out(e, none);
            op.div(out);
            got = host(out);
        }
    }
    else
    {
        none = symVals<T>("source", t.nCells);
        Field<T> src(e, none);
        fvcc::DivOperator<T> op(dsl::Operator::Type::Explicit, flux, phi, words("Gauss", scheme));
        op.getCoefficient() = k.get();
        op.explicitOperation(src);
        got = host(src);
    }
    checkCells(got, none, balance(t, face), k, g, "the divergence is the balance of the fluxes of each cell per volume");
    eqAll(host(phi.internalField()), d.in, "the divergence leaves the field as it is");
    eqAll(host(phi.boundaryField().value()), d.val, "the divergence leaves the field as it is");
    eqAll(host(flux.internalField()), fl, "the divergence leaves the flux as it is");
    sym_reach("end");
}
}
ENTRY(c19_integrate_scalar) { integrate<scalar>(); }
ENTRY(c19_integrate_vector) { integrate<Vector>(); }
ENTRY(c19_linear_scalar) { divergence<scalar>("linear", false); }
ENTRY(c19_linear_vector) { divergence<Vector>("linear", false); }
ENTRY(c19_upwind_scalar) { divergence<scalar>("upwind", true); }
ENTRY(c19_upwind_vector) { divergence<Vector>("upwind", true); }
// conservation: what all cells lose together is what leaves through the boundary
ENTRY(c19_conservation)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = smallTopo(TIER(3, 3), TIER(2, 3), TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    auto d = symData<scalar>(t, false);
    auto phi = mkVol<scalar>(e, m, "phi", d);
    auto fl = symSigned("flux", t.nFaces());
    auto flux = mkSurf<scalar>(e, m, "F", fl);
    bool up = sym_choose("scheme", 0, 1);
    fvcc::GaussGreenDiv<scalar> op(e, m, words(up ? "upwind" : "linear"));
    Field<scalar> out(e, zeros<scalar>(t.nCells));
    op.div(out, flux, phi, dsl::Coeff(1.0));
    auto h = host(out);
    double all = 0, bnd = 0;
    for (auto x : h) all += x; // cells of unit volume
    for (size_t i = 0; i < t.nBnd; i++) bnd += fl[t.nInt + i] * d.val[i];
    eq(all, bnd, "what flows between cells is neither lost nor created");
    sym_reach("end");
}
// every interleaving of the parallel sums
ENTRY(c19_interleaved)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(3 | 16);
    auto t = symTopo(2, 2, TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    auto v = symSigned("flux", t.nFaces());
    auto f = mkSurf<scalar>(e, m, "flux", v);
    Field<scalar> src(e, zeros<scalar>(t.nCells));
    fvcc::SurfaceIntegrate<scalar>(f).explicitOperation(src);
    eqAll(host(src), balance(t, v), "the sums do not depend on the schedule");
    Data<scalar> d = symData<scalar>(t, false);
    auto phi = mkVol<scalar>(e, m, "phi", d);
    fvcc::GaussGreenDiv<scalar> op(e, m, words("upwind"));
    Field<scalar> out(e, zeros<scalar>(t.nCells));
    std::vector<scalar> one(t.nFaces(), 1.0), face;
    auto flux = mkSurf<scalar>(e, m, "F", one);
    op.div(out, flux, phi, dsl::Coeff(1.0));
    for (size_t i = 0; i < t.nInt; i++) face.push_back(d.in[(size_t)t.own[i]]);
    for (size_t i = 0; i < t.nBnd; i++) face.push_back(d.val[i]);
    eqAll(host(out), balance(t, face), "the sums do not depend on the schedule");
    sym_reach("end");
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c19_long_integrate)
{
    longMode() = true;
    integrate<scalar>();
}
ENTRY(c19_long_linear)
{
    longMode() = true;
    divergence<scalar>("linear", false);
}
ENTRY(c19_long_upwind)
{
    longMode() = true;
    divergence<Vector>("upwind", true);
}

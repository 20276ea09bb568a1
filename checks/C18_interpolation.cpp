// Interpolation to faces: linear and upwind, any connection, weights, fluxes and values.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
namespace
{
// by words, by dictionary, or by the implementation; then possibly a copy
template<class T> fvcc::SurfaceInterpolation<T> mkInterp(const Executor& e, const UnstructuredMesh& m, const std::string& nm)
{
    auto key = [&]() -> Input
    {
        if (sym_choose("input", 0, 1) == 0) return words(nm);
        Dictionary d;
        d.insert("surfaceInterpolation", nm);
        return d;
    };
    fvcc::SurfaceInterpolation<T> a(e, m, key());
    if (sym_choose("copied", 0, 1)) return fvcc::SurfaceInterpolation<T>(a);
    return a;
}
template<class T> void linear()
{
    Executor e = symExec();
    sym_sched_mode(1);
    auto t = smallTopo(TIER(2, 3), TIER(1, 3), TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    auto w = symScalars("weight", t.nFaces());
    setWeights(m, w);
    auto d = symData<T>(t, false);
    auto f = mkVol<T>(e, m, "f", d);
    auto s = mkInterp<T>(e, m, "linear");
    auto out = mkSurf<T>(e, m, "out", symVals<T>("before", t.nFaces()));
    int how = (int)sym_choose("form", 0, 2);
    std::vector<T> h;
    if (how == 0)
    {
        s.interpolate(f, out);
        h = host(out.internalField());
    }
    else if (how == 1)
    {
        auto flux = mkSurf<scalar>(e, m, "flux", symSigned("flux", t.nFaces()));
        s.interpolate(flux, f, out);
        h = host(out.internalField());
    }
    else
    {
        auto r = s.interpolate(f);
        sym_assert(r.exec() == e && &r.mesh() == &m && r.name == "interpolated_f", "the result is a field of the mesh");
        h = host(r.internalField());
    }
    sym_assert(h.size() == t.nFaces(), "one value per face");
    for (size_t i = 0; i < t.nInt; i++) eq(h[i], w[i] * d.in[(size_t)t.own[i]] + (1.0 - w[i]) * d.in[(size_t)t.nei[i]], "linear interpolation between the cells of a face");
    for (size_t i = 0; i < t.nBnd; i++) eq(h[t.nInt + i], w[t.nInt + i] * d.val[i], "boundary faces take the boundary value");
    eqAll(host(f.internalField()), d.in, "interpolation leaves the field as it is");
    eqAll(host(f.boundaryField().value()), d.val, "interpolation leaves the field as it is");
    sym_reach("end");
}
template<class T> void upwind()
{
    Executor e = symExec();
    sym_sched_mode(1);
    auto t = smallTopo(TIER(2, 3), TIER(1, 3), TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    auto w = symScalars("weight", t.nFaces());
    setWeights(m, w);
    auto d = symData<T>(t, false);
    auto f = mkVol<T>(e, m, "f", d);
    auto s = mkInterp<T>(e, m, "upwind");
    auto out = mkSurf<T>(e, m, "out", symVals<T>("before", t.nFaces()));
    auto fl = symSigned("flux", t.nFaces());
    auto flux = mkSurf<scalar>(e, m, "flux", fl);
    s.interpolate(flux, f, out);
    auto h = host(out.internalField());
    for (size_t i = 0; i < t.nInt; i++) eq(h[i], fl[i] >= 0 ? d.in[(size_t)t.own[i]] : d.in[(size_t)t.nei[i]], "a face takes the value of the cell the flux comes from");
    for (size_t i = 0; i < t.nBnd; i++) eq(h[t.nInt + i], w[t.nInt + i] * d.val[i], "boundary faces take the boundary value");
    eqAll(host(flux.internalField()), fl, "interpolation leaves the flux as it is");
    sym_reach("end");
}
}
ENTRY(c18_linear_scalar) { linear<scalar>(); }
ENTRY(c18_linear_vector) { linear<Vector>(); }
ENTRY(c18_upwind_scalar) { upwind<scalar>(); }
ENTRY(c18_upwind_vector) { upwind<Vector>(); }
// consequence: with weights between zero and one, values stay between those of the cells
ENTRY(c18_bounded)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    double a = sym_f64("a"), b = sym_f64("b"), c = sym_f64("c"), w = sym_f64("weight");
    sym_assume((w >= 0) & (w <= 1));
    setWeights(m, {w, 1.0});
    Data<scalar> d;
    d.in = {a, b};
    d.val = {c};
    auto f = mkVol<scalar>(e, m, "f", d);
    auto h = host(fvcc::SurfaceInterpolation<scalar>(e, m, words("linear")).interpolate(f).internalField());
    sym_assert_le(h[0], a > b ? a : b, "the value of a face lies between those of its cells");
    sym_assert_le(a < b ? a : b, h[0], "the value of a face lies between those of its cells");
    eq(h[1], c, "boundary faces take the boundary value");
    sym_reach("end");
}
// selection
ENTRY(c18_select)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symData<scalar>(t, false));
    int k = (int)sym_choose("case", 0, 3);
    if (k == 0)
    {
        auto w = symScalars("weight", t.nFaces());
        setWeights(m, w);
        fvcc::SurfaceInterpolation<scalar> s(e, m, words("linear"));
        eqAll(host(s.weight(f).internalField()), w, "the weights of linear interpolation are those of the geometry");
        auto flux = mkSurf<scalar>(e, m, "flux", symSigned("flux", t.nFaces()));
        eqAll(host(s.weight(flux, f).internalField()), w, "the weights of linear interpolation are those of the geometry");
        // a list is read in order: the word after the one of another scheme
        TokenList l;
        l.insert(std::string("Gauss"));
        l.insert(std::string("linear"));
        (void)l.next<std::string>();
        fvcc::SurfaceInterpolation<scalar> s2(e, m, l);
        eqAll(host(s2.weight(f).internalField()), w, "the weights of linear interpolation are those of the geometry");
        sym_reach("weights");
        return;
    }
    sym_expect_termination(2, "refused");
    if (k == 1)
    {
        fvcc::SurfaceInterpolation<scalar> s(e, m, words("linear "));
        sym_assert(false, "an unknown scheme is refused");
    }
    fvcc::SurfaceInterpolation<scalar> s(e, m, words("upwind"));
    if (k == 2)
    {
        auto r = s.interpolate(f);
        sym_assert(false, "upwind interpolation without a flux is refused");
    }
    auto w = s.weight(f);
    sym_assert(false, "upwind weights without a flux are refused");
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c18_long_linear)
{
    longMode() = true;
    linear<scalar>();
}
ENTRY(c18_long_upwind)
{
    longMode() = true;
    upwind<scalar>();
}
ENTRY(c18_long_vector)
{
    longMode() = true;
    upwind<Vector>();
}

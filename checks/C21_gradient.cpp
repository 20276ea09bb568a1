// Gradients: Gauss-Green gradient of a cell and normal gradient of a face.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
namespace
{
template<class T> void normal()
{
    Executor e = symExec();
    sym_sched_mode(1);
    auto t = smallTopo(TIER(2, 3), TIER(2, 3), TIER(2, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    auto c = symScalars("nonOrthDeltaCoeff", t.nFaces());
    setNonOrth(m, c);
    auto d = symData<T>(t, false);
    auto f = mkVol<T>(e, m, "f", d);
    auto make = [&]() -> fvcc::FaceNormalGradient<T>
    {
        int how = (int)sym_choose("input", 0, 2);
        if (how == 0) return fvcc::FaceNormalGradient<T>(e, m, words("uncorrected"));
        if (how == 1)
        {
            Dictionary k;
            k.insert("faceNormalGradient", std::string("uncorrected"));
            fvcc::FaceNormalGradient<T> a(e, m, k);
            return fvcc::FaceNormalGradient<T>(a);
        }
        return fvcc::FaceNormalGradient<T>(e, m, std::make_unique<fvcc::Uncorrected<T>>(e, m));
    };
    auto g = make();
    std::vector<T> h;
    if (sym_choose("form", 0, 1) == 0)
    {
        auto out = mkSurf<T>(e, m, "out", symVals<T>("before", t.nFaces()));
        g.faceNormalGrad(f, out);
        h = host(out.internalField());
    }
    else
    {
        auto out = g.faceNormalGrad(f);
        sym_assert(out.exec() == e && &out.mesh() == &m, "the gradient is a field of the mesh");
        h = host(out.internalField());
    }
    sym_assert(h.size() == t.nFaces(), "one gradient per face");
    for (size_t i = 0; i < t.nInt; i++) eq(h[i], c[i] * (d.in[(size_t)t.nei[i]] - d.in[(size_t)t.own[i]]), "the normal gradient goes from owner to neighbour");
    for (size_t i = 0; i < t.nBnd; i++) eq(h[t.nInt + i], c[t.nInt + i] * (d.val[i] - d.in[(size_t)t.fc[i]]), "the normal gradient goes from the cell to its boundary face");
    eqAll(host(g.deltaCoeffs().internalField()), c, "the coefficients are those of the geometry");
    eqAll(host(f.internalField()), d.in, "the gradient leaves the field as it is");
    sym_reach("end");
}
}
ENTRY(c21_normal_scalar) { normal<scalar>(); }
ENTRY(c21_normal_vector) { normal<Vector>(); }
namespace
{
void gauss()
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = smallTopo(3, TIER(2, 3), 2);
    auto g = plainGeo(t);
    g.vol = symScalars("vol", t.nCells);
    for (auto v : g.vol) sym_assume(v > 0);
    g.sf = symVectors("sf", t.nFaces());
    g.bSf.assign(g.sf.begin() + (long)t.nInt, g.sf.end());
    auto m = mkMesh(e, t, plainGeo(t));
    lateGeo(m, g);
    auto w = symScalars("weight", t.nFaces());
    for (size_t i = 0; i < t.nBnd; i++) w[t.nInt + i] = 1.0;
    setWeights(m, w);
    auto d = symData<scalar>(t, false);
    auto f = mkVol<scalar>(e, m, "f", d);
    fvcc::GaussGreenGrad op(e, m);
    std::vector<Vector> h;
    if (sym_choose("form", 0, 1) == 0)
    {
        auto out = mkVol<Vector>(e, m, "out", zeros<Vector>(t.nCells));
        op.grad(f, out);
        h = host(out.internalField());
    }
    else
    {
        auto out = op.grad(f);
        sym_assert(out.exec() == e && &out.mesh() == &m, "the gradient is a field of the mesh");
        h = host(out.internalField());
    }
    auto sum = zeros<Vector>(t.nCells);
    for (size_t i = 0; i < t.nInt; i++)
    {
        Vector q = (w[i] * d.in[(size_t)t.own[i]] + (1.0 - w[i]) * d.in[(size_t)t.nei[i]]) * g.sf[i];
        sum[(size_t)t.own[i]] += q;
        sum[(size_t)t.nei[i]] -= q;
    }
    for (size_t i = 0; i < t.nBnd; i++) sum[(size_t)t.fc[i]] += d.val[i] * g.sf[t.nInt + i];
    sym_assert(h.size() == t.nCells, "one gradient per cell");
    for (size_t c = 0; c < t.nCells; c++) eq(h[c], (1 / g.vol[c]) * sum[c], "the gradient is the sum of face values times areas per volume");
    eqAll(host(f.internalField()), d.in, "the gradient leaves the field as it is");
    sym_reach("end");
}
}
ENTRY(c21_gauss) { gauss(); }
// a constant has no gradient in a closed cell
ENTRY(c21_constant)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 2);
    auto g = plainGeo(t);
    g.sf = symVectors("sf", t.nFaces());
    auto sum = zeros<Vector>(t.nCells);
    for (size_t i = 0; i < t.nInt; i++)
    {
        sum[(size_t)t.own[i]] += g.sf[i];
        sum[(size_t)t.nei[i]] -= g.sf[i];
    }
    for (size_t i = 0; i < t.nBnd; i++) sum[(size_t)t.fc[i]] += g.sf[t.nInt + i];
    for (auto& s : sum)
        for (size_t i = 0; i < 3; i++) sym_assume(s[i] == 0);
    g.bSf.assign(g.sf.begin() + (long)t.nInt, g.sf.end());
    auto m = mkMesh(e, t, plainGeo(t));
    lateGeo(m, g);
    setWeights(m, {0.25, 1.0, 1.0});
    double c = sym_f64("constant");
    Data<scalar> d;
    d.in.assign(t.nCells, c);
    d.val.assign(t.nBnd, c);
    auto f = mkVol<scalar>(e, m, "f", d);
    fvcc::GaussGreenGrad op(e, m);
    eqAll(host(op.grad(f).internalField()), zeros<Vector>(t.nCells), "a constant has no gradient");
    sym_reach("end");
}
ENTRY(c21_interleaved)
{
    Executor e = symExec("exec", 1, TIER(1, 2));
    sym_sched_mode(3 | 16);
    auto t = symTopo(2, 2, TIER(1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    setWeights(m, std::vector<scalar>(t.nFaces(), 1.0));
    auto d = symData<scalar>(t, false);
    auto f = mkVol<scalar>(e, m, "f", d);
    fvcc::GaussGreenGrad op(e, m);
    auto h = host(op.grad(f).internalField());
    auto sum = zeros<scalar>(t.nCells);
    for (size_t i = 0; i < t.nInt; i++)
    {
        sum[(size_t)t.own[i]] += d.in[(size_t)t.own[i]];
        sum[(size_t)t.nei[i]] -= d.in[(size_t)t.own[i]];
    }
    for (size_t i = 0; i < t.nBnd; i++) sum[(size_t)t.fc[i]] += d.val[i];
    for (size_t c = 0; c < t.nCells; c++) eq(h[c], Vector(sum[c], 0.0, 0.0), "the sums do not depend on the schedule");
    sym_reach("end");
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c21_long_normal)
{
    longMode() = true;
    normal<scalar>();
}
ENTRY(c21_long_gauss)
{
    longMode() = true;
    gauss();
}

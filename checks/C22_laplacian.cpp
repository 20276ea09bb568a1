// Laplacian: explicit and implicit discretisation, for any connection, diffusivity and boundary.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/dsl/spatialOperator.hpp"
namespace
{
inline scalar unit(scalar) { return 1.0; }
inline Vector unit(Vector) { return Vector(1.0, 1.0, 1.0); }
Geo areas(const Topo& t, bool vol)
{
    auto g = plainGeo(t);
    g.magSf = symScalars("magSf", t.nFaces());
    g.bMagSf.assign(g.magSf.begin() + (long)t.nInt, g.magSf.end());
    if (vol) g.vol = symScalars("vol", t.nCells);
    for (auto v : g.vol) sym_assume(v > 0);
    return g;
}
// mode 0: all ways of use on small meshes, 1: larger meshes, 2: interleavings
Topo topoOf(int mode)
{
    if (mode == 2) return symTopo(2, 1, 2);
    if (mode == 1) return symTopo(3, TIER(2, 3), TIER((size_t)sym_choose("nBoundary", 1, 2), 2));
    return smallTopo(2, 1, TIER(1, 2));
}
template<class T> void explicitLap(int mode)
{
    Executor e = symExec("exec", mode == 2 ? 1 : 0, mode == 2 ? 1 : 2);
    sym_sched_mode((mode == 2 ? 3 : longMode() ? 0 : 1) | 16);
    auto t = topoOf(mode);
    auto g = areas(t, true);
    auto m = mkMesh(e, t, plainGeo(t));
    lateGeo(m, g);
    auto dc = symScalars("nonOrthDeltaCoeff", t.nFaces());
    setNonOrth(m, dc);
    auto d = symData<T>(t, false);
    auto phi = mkVol<T>(e, m, "phi", d);
    auto ga = symScalars("gamma", t.nFaces());
    auto gamma = mkSurf<scalar>(e, m, "gamma", ga);
    SymCoeff k(e, t.nCells, mode ? 1 : 0, mode ? 1 : 3);
    auto before = zeros<T>(t.nCells);
    std::vector<T> got;
    int how = mode ? 0 : (int)sym_choose("form", 0, std::is_same_v<T, scalar> ? 3 : 2);
    if (how == 3)
    {
        if constexpr (std::is_same_v<T, scalar>)
        {
            fvcc::LaplacianOperator<T> op(dsl::Operator::Type::Explicit, gamma, phi, words("Gauss", "linear", "uncorrected"));
            op.getCoefficient() = k.get();
            auto out = mkVol<T>(e, m, "out", before);
            op.laplacian(out);
            got = host(out.internalField());
        }
    }
    else if (how < 2)
    {
        fvcc::GaussGreenLaplacian<T> op(e, m, words("linear", "uncorrected"));
        if (how == 0)
        {
            auto out = mkVol<T>(e, m, "out", before);
            op.laplacian(out, gamma, phi, k.get());
            got = host(out.internalField());
        }
        else
        {
            Field<T> out(e, before);
            op.clone()->laplacian(out, gamma, phi, k.get());
            got = host(out);
        }
    }
    else
    {
        before = symVals<T>("source", t.nCells);
        Field<T> src(e, before);
        dsl::SpatialOperator<T> op = fvcc::LaplacianOperator<T>(dsl::Operator::Type::Explicit, gamma, phi, words("Gauss", "linear", "uncorrected"));
        op.getCoefficient() = k.get();
        dsl::SpatialOperator<T> cp(op);
        cp.explicitOperation(src);
        got = host(src);
    }
    auto sum = zeros<T>(t.nCells);
    for (size_t f = 0; f < t.nInt; f++)
    {
        T q = (ga[f] * g.magSf[f] * dc[f]) * (d.in[(size_t)t.nei[f]] - d.in[(size_t)t.own[f]]);
        sum[(size_t)t.own[f]] += q;
        sum[(size_t)t.nei[f]] -= q;
    }
    for (size_t b = 0; b < t.nBnd; b++)
    {
        size_t f = t.nInt + b, c = (size_t)t.fc[b];
        sum[c] += (ga[f] * g.magSf[f] * dc[f]) * (d.val[b] - d.in[c]);
    }
    sym_assert(got.size() == t.nCells, "one value per cell");
    for (size_t c = 0; c < t.nCells; c++) eq(got[c], before[c] + (k.at(c) / g.vol[c]) * sum[c], "the Laplacian is the balance of the diffusive fluxes per volume");
    eqAll(host(phi.internalField()), d.in, "the Laplacian leaves the field as it is");
    sym_reach("end");
}
template<class T> void implicitLap(int mode)
{
    Executor e = symExec("exec", mode == 2 ? 1 : 0, mode == 2 ? 1 : 2);
    sym_sched_mode((mode == 2 ? 3 : longMode() ? 0 : 1) | 16);
    auto t = topoOf(mode);
    auto g = areas(t, false);
    auto m = mkMesh(e, t, plainGeo(t));
    lateGeo(m, g);
    auto dc = symScalars("nonOrthDeltaCoeff", t.nFaces());
    setNonOrth(m, dc);
    auto d = symData<T>(t);
    auto phi = mkVol<T>(e, m, "phi", d);
    auto ga = symScalars("gamma", t.nFaces());
    auto gamma = mkSurf<scalar>(e, m, "gamma", ga);
    SymCoeff k(e, t.nCells, mode == 2 ? 1 : mode ? 3 : 0, mode == 2 ? 1 : 3);
    auto ls = emptySystem<T>(m);
    auto a0 = symVals<T>("entry", ls.matrix().values().size()), b0 = symVals<T>("rhs", t.nCells);
    setField(ls.matrix().values(), a0);
    setField(ls.rhs(), b0);
    auto before = dense(ls, t.nCells);
    int how = mode ? 0 : (int)sym_choose("form", 0, 1);
    if (how == 0)
    {
        fvcc::GaussGreenLaplacian<T> op(e, m, words("linear", "uncorrected"));
        op.laplacian(ls, gamma, phi, k.get());
    }
    else
    {
        dsl::SpatialOperator<T> op = fvcc::LaplacianOperator<T>(dsl::Operator::Type::Implicit, gamma, phi, words("Gauss", "linear", "uncorrected"));
        op.getCoefficient() = k.get();
        dsl::SpatialOperator<T> cp(op);
        cp.implicitOperation(ls);
    }
    std::vector<std::vector<T>> a(t.nCells, zeros<T>(t.nCells));
    auto b = zeros<T>(t.nCells);
    const T one = unit(T());
    for (size_t f = 0; f < t.nInt; f++)
    {
        size_t o = (size_t)t.own[f], n = (size_t)t.nei[f];
        double q = ga[f] * g.magSf[f] * dc[f];
        a[o][o] -= k.at(o) * q * one;
        a[o][n] += k.at(o) * q * one;
        a[n][n] -= k.at(n) * q * one;
        a[n][o] += k.at(n) * q * one;
    }
    for (size_t i = 0; i < t.nBnd; i++)
    {
        size_t f = t.nInt + i, c = (size_t)t.fc[i];
        double q = k.at(c) * ga[f] * g.magSf[f];
        a[c][c] -= q * d.vf[i] * dc[f] * one;
        b[c] -= (q * d.vf[i] * dc[f]) * d.refVal[i] + (q * (1.0 - d.vf[i])) * d.refGrad[i];
    }
    auto after = dense(ls, t.nCells);
    auto r = host(ls.rhs());
    for (size_t i = 0; i < t.nCells; i++)
    {
        for (size_t j = 0; j < t.nCells; j++) eq(after[i][j], before[i][j] + a[i][j], "the matrix gets the diffusive fluxes of the cell's faces");
        eq(r[i], b0[i] + b[i], "the right-hand side gets the boundary fluxes");
    }
    sym_reach("end");
}
}
ENTRY(c22_exp_scalar) { explicitLap<scalar>(0); }
ENTRY(c22_exp_vector) { explicitLap<Vector>(0); }
ENTRY(c22_exp_larger) { explicitLap<scalar>(1); }
ENTRY(c22_exp_interleaved) { explicitLap<scalar>(2); }
ENTRY(c22_imp_scalar) { implicitLap<scalar>(0); }
ENTRY(c22_imp_vector) { implicitLap<Vector>(0); }
ENTRY(c22_imp_larger) { implicitLap<scalar>(1); }
ENTRY(c22_imp_interleaved) { implicitLap<scalar>(2); }
// the explicit and the implicit Laplacian agree on a boundary corrected field
ENTRY(c22_agree)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = symTopo(2, 1, (size_t)sym_choose("nBoundary", 1, 2));
    auto g = areas(t, false);
    auto m = mkMesh(e, t, plainGeo(t));
    lateGeo(m, g);
    // on the boundary both distances are the same
    std::vector<scalar> dc {sym_f64("nonOrthDeltaCoeff")};
    for (auto x : g.bDeltaCoeffs) dc.push_back(x);
    setNonOrth(m, dc);
    int kind = (int)sym_choose("boundary", 0, 1);
    double v = sym_f64("bc");
    Dictionary bc;
    bc.insert("type", std::string(kind ? "fixedGradient" : "fixedValue"));
    bc.insert(kind ? "fixedGradient" : "fixedValue", v);
    std::vector<fvcc::VolumeBoundary<scalar>> bcs {fvcc::VolumeBoundary<scalar>(m, bc, 0)};
    auto in = symScalars("cell", t.nCells);
    fvcc::VolumeField<scalar> phi(e, "phi", m, Field<scalar>(e, in), bcs);
    phi.correctBoundaryConditions();
    auto gamma = mkSurf<scalar>(e, m, "gamma", symScalars("gamma", t.nFaces()));
    fvcc::GaussGreenLaplacian<scalar> op(e, m, words("linear", "uncorrected"));
    Field<scalar> ex(e, zeros<scalar>(t.nCells));
    op.laplacian(ex, gamma, phi, dsl::Coeff(1.0));
    auto ls = emptySystem<scalar>(m);
    op.laplacian(ls, gamma, phi, dsl::Coeff(1.0));
    auto a = dense(ls, t.nCells);
    auto b = host(ls.rhs()), x = host(ex);
    for (size_t i = 0; i < t.nCells; i++)
    {
        double s = -b[i];
        for (size_t j = 0; j < t.nCells; j++) s += a[i][j] * in[j];
        eq(s, x[i], "implicit and explicit Laplacian are the same balance");
    }
    sym_reach("end");
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c22_long_exp)
{
    longMode() = true;
    explicitLap<scalar>(1);
}
ENTRY(c22_long_imp)
{
    longMode() = true;
    implicitLap<scalar>(1);
}

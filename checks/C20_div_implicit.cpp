// Implicit divergence: the system it adds is the upwind divergence times the volume.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/dsl/spatialOperator.hpp"
namespace
{
inline scalar unit(scalar) { return 1.0; }
inline Vector unit(Vector) { return Vector(1.0, 1.0, 1.0); }
// what the operator adds to the system: matrix entries and right-hand side
template<class T> struct Want
{
    std::vector<std::vector<T>> a;
    std::vector<T> b;
    Want(const Topo& t, const Geo& g, const std::vector<scalar>& fl, const Data<T>& d, const SymCoeff& k) : a(t.nCells, zeros<T>(t.nCells)), b(zeros<T>(t.nCells))
    {
        const T one = unit(T());
        for (size_t f = 0; f < t.nInt; f++)
        {
            size_t o = (size_t)t.own[f], n = (size_t)t.nei[f];
            double out = fl[f] >= 0 ? fl[f] : 0.0, in = fl[f] >= 0 ? 0.0 : fl[f];
            a[o][o] += k.at(o) * out * one;
            a[o][n] += k.at(o) * in * one;
            a[n][o] -= k.at(n) * out * one;
            a[n][n] -= k.at(n) * in * one;
        }
        // the value on a boundary face is vf refValue + (1 - vf) (cell value + refGrad / deltaCoeff)
        for (size_t f = 0; f < t.nBnd; f++)
        {
            size_t c = (size_t)t.fc[f];
            double q = k.at(c) * fl[t.nInt + f];
            a[c][c] += q * (1.0 - d.vf[f]) * one;
            b[c] -= q * (d.vf[f] * d.refVal[f] + ((1.0 - d.vf[f]) * (1.0 / g.bDeltaCoeffs[f])) * d.refGrad[f]);
        }
    }
};
// mode 0: all ways of use on small meshes, 1: larger meshes, 2: interleavings
template<class T> void implicit(int mode)
{
    const bool orders = mode == 2;
    Executor e = symExec("exec", orders ? 1 : 0, orders ? 1 : 2);
    sym_sched_mode((orders ? 3 : longMode() ? 0 : 1) | 16);
    auto t = orders ? symTopo(2, 1, 2) : mode == 1 ? symTopo(3, TIER(2, 3), TIER(1, 2)) : smallTopo(2, 1, TIER(1, 2));
    auto g = plainGeo(t);
    g.bDeltaCoeffs = symScalars("bdc", t.nBnd);
    for (auto x : g.bDeltaCoeffs) sym_assume(x > 0);
    auto m = mkMesh(e, t, g);
    auto d = symData<T>(t);
    auto phi = mkVol<T>(e, m, "phi", d);
    auto fl = symSigned("flux", t.nFaces());
    auto flux = mkSurf<scalar>(e, m, "F", fl);
    SymCoeff k(e, t.nCells, orders ? 1 : mode == 1 ? 3 : 0, orders ? 1 : 3);
    auto ls = emptySystem<T>(m);
    // the operator adds to what is there
    auto a0 = symVals<T>("entry", ls.matrix().values().size()), b0 = symVals<T>("rhs", t.nCells);
    setField(ls.matrix().values(), a0);
    setField(ls.rhs(), b0);
    auto before = dense(ls, t.nCells);
    int how = mode ? 0 : (int)sym_choose("form", 0, 3);
    if (how == 0)
    {
        fvcc::GaussGreenDiv<T> op(e, m, words("upwind"));
        op.div(ls, flux, phi, k.get());
    }
    else if (how == 1)
    {
        fvcc::DivOperator<T> op(dsl::Operator::Type::Implicit, flux, phi, words("Gauss", "upwind"));
        op.getCoefficient() = k.get();
        op.implicitOperation(ls);
    }
    else if (how == 3)
    {
        fvcc::DivOperator<T> op(dsl::Operator::Type::Implicit, flux, phi, words("Gauss", "upwind"));
        op.getCoefficient() = k.get();
        op.div(ls);
    }
    else
    {
        dsl::SpatialOperator<T> op = fvcc::DivOperator<T>(dsl::Operator::Type::Implicit, flux, phi, std::make_unique<fvcc::GaussGreenDiv<T>>(e, m, words("upwind")));
        op.getCoefficient() = k.get();
        dsl::SpatialOperator<T> cp(op);
        cp.implicitOperation(ls);
    }
    Want<T> w(t, g, fl, d, k);
    auto after = dense(ls, t.nCells);
    auto b = host(ls.rhs());
    for (size_t i = 0; i < t.nCells; i++)
    {
        for (size_t j = 0; j < t.nCells; j++) eq(after[i][j], before[i][j] + w.a[i][j], "the matrix gets the upwind fluxes of the cell's faces");
        eq(b[i], b0[i] + w.b[i], "the right-hand side gets the boundary fluxes");
    }
    sym_reach("end");
}
}
ENTRY(c20_scalar) { implicit<scalar>(0); }
ENTRY(c20_vector) { implicit<Vector>(0); }
ENTRY(c20_larger) { implicit<scalar>(1); }
ENTRY(c20_interleaved) { implicit<scalar>(2); }
// the explicit and the implicit divergence agree on a boundary corrected field
ENTRY(c20_agree)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = symTopo(2, 1, (size_t)sym_choose("nBoundary", 1, 2));
    auto g = plainGeo(t);
    auto m = mkMesh(e, t, g);
    int kind = (int)sym_choose("boundary", 0, 1);
    double v = sym_f64("bc");
    Dictionary bc;
    bc.insert("type", std::string(kind ? "fixedGradient" : "fixedValue"));
    bc.insert(kind ? "fixedGradient" : "fixedValue", v);
    std::vector<fvcc::VolumeBoundary<scalar>> bcs {fvcc::VolumeBoundary<scalar>(m, bc, 0)};
    auto in = symScalars("cell", t.nCells);
    fvcc::VolumeField<scalar> phi(e, "phi", m, Field<scalar>(e, in), bcs);
    phi.correctBoundaryConditions();
    auto fl = symSigned("flux", t.nFaces());
    auto flux = mkSurf<scalar>(e, m, "F", fl);
    fvcc::GaussGreenDiv<scalar> op(e, m, words("upwind"));
    Field<scalar> ex(e, zeros<scalar>(t.nCells));
    op.div(ex, flux, phi, dsl::Coeff(1.0));
    auto ls = emptySystem<scalar>(m);
    op.div(ls, flux, phi, dsl::Coeff(1.0));
    auto a = dense(ls, t.nCells);
    auto b = host(ls.rhs()), x = host(ex);
    for (size_t i = 0; i < t.nCells; i++)
    {
        double s = -b[i];
        for (size_t j = 0; j < t.nCells; j++) s += a[i][j] * in[j];
        eq(s, x[i], "implicit and explicit divergence are the same balance");
    }
    sym_reach("end");
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c20_long)
{
    longMode() = true;
    implicit<scalar>(1);
}

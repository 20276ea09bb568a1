// Equation language: coefficients, operators, expressions and the operators that need no face data.
#include "inc/fvfield.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
using dsl::Operator;
namespace
{
// a term whose contributions are known: coefficient times given values
template<class T> struct Term : dsl::OperatorMixin<fvcc::VolumeField<T>>
{
    using FieldValueType = T;
    Field<T> v;
    int* built;
    Term(Operator::Type t, fvcc::VolumeField<T>& f, const Field<T>& values, int* b = nullptr)
        : dsl::OperatorMixin<fvcc::VolumeField<T>>(f.exec(), dsl::Coeff(1.0), f, t), v(values), built(b)
    {}
    void explicitOperation(Field<T>& s) const
    {
        auto c = this->getCoefficient();
        auto [out, in] = NF::spans(s, v);
        NF::parallelFor(s.exec(), s.range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c[i] * in[i]; });
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls)
    {
        auto c = this->getCoefficient();
        auto [out, in] = NF::spans(ls.rhs(), v);
        NF::parallelFor(ls.exec(), ls.rhs().range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c[i] * in[i]; });
    }
    void build(const Input&) { if (built) ++*built; }
    std::string getName() const { return "Term"; }
};
template<class T> struct TimeTerm : Term<T>
{
    using Term<T>::Term;
    using FieldValueType = T;
    void explicitOperation(Field<T>& s, scalar t, scalar dt) const
    {
        auto c = this->getCoefficient();
        auto [out, in] = NF::spans(s, this->v);
        NF::parallelFor(s.exec(), s.range(), KOKKOS_LAMBDA(const size_t i) { out[i] += (c[i] * (t + 2 * dt)) * in[i]; });
    }
    void implicitOperation(la::LinearSystem<T, localIdx>& ls, scalar t, scalar dt)
    {
        auto c = this->getCoefficient();
        auto [out, in] = NF::spans(ls.rhs(), this->v);
        NF::parallelFor(ls.exec(), ls.rhs().range(), KOKKOS_LAMBDA(const size_t i) { out[i] += (c[i] * (t + 2 * dt)) * in[i]; });
    }
};
Operator::Type anyType() { return sym_choose("type", 0, 1) ? Operator::Type::Implicit : Operator::Type::Explicit; }
}
namespace
{
void coefficients(size_t n)
{
    Executor e = symExec();
    SymCoeff a(e, n), b(e, n);
    double s = sym_f64("scale");
    bool two = (a.kind & 2) && (b.kind & 2);
    dsl::Coeff ca = a.get(), cb = b.get();
    sym_assert(ca.hasSpan() == ((a.kind & 2) != 0), "a coefficient knows whether it has a field");
    if (a.kind & 2) sym_assert(ca.view().size() == n && ca.view().data() == a.f.data(), "a coefficient shows its field");
    if (two) sym_expect_termination(2, "refused");
    dsl::Coeff p = ca * cb;
    dsl::Coeff q = ca;
    q *= s;
    q *= cb;
    sym_assert(!two, "a product of two fields is refused");
    sym_assert(p.hasSpan() == ((a.kind & 2) || (b.kind & 2)), "a product has the field of its factors");
    Field<scalar> seen(e, 4 * n);
    {
        // read where the executor computes
        auto v = seen.view();
        NF::parallelFor(e, {0, n}, KOKKOS_LAMBDA(const size_t i) {
            v[4 * i] = p[i];
            v[4 * i + 1] = q[i];
            v[4 * i + 2] = ca[i];
            v[4 * i + 3] = cb[i];
        });
    }
    auto hs = host(seen);
    for (size_t i = 0; i < n; i++)
    {
        eq(hs[4 * i], a.at(i) * b.at(i), "product of coefficients");
        eq(hs[4 * i + 1], s * a.at(i) * b.at(i), "product of coefficients and a number");
        eq(hs[4 * i + 2], a.at(i), "factors stay as they are");
        eq(hs[4 * i + 3], b.at(i), "factors stay as they are");
    }
    Field<scalar> out(e, symScalars("before", (size_t)(n > 3 ? 5 : sym_choose("length", 0, 3))));
    dsl::detail::toField(p, out);
    auto h = host(out);
    if (p.hasSpan())
    {
        sym_assert(h.size() == n, "a coefficient field has one value per cell");
        for (size_t i = 0; i < n; i++) eq(h[i], a.at(i) * b.at(i), "a coefficient as a field");
        sym_reach("field");
    }
    else
    {
        sym_assert(h.size() == 1, "a number is a single value");
        eq(h[0], a.at(0) * b.at(0), "a coefficient as a field");
        sym_reach("number");
    }
}
}
ENTRY(c24_coeff) { coefficients((size_t)sym_choose("n", 0, TIER(2, 3))); }
// a coefficient times itself
ENTRY(c24_square)
{
    Executor e = symExec();
    SymCoeff a(e, 2);
    dsl::Coeff c = a.get(), k = a.get();
    if (a.kind & 2) sym_expect_termination(2, "refused");
    dsl::Coeff p = c * c;
    k *= k;
    sym_assert(!(a.kind & 2), "a product of two fields is refused");
    eq(p[1], a.at(1) * a.at(1), "a coefficient times itself");
    eq(k[1], a.at(1) * a.at(1), "a coefficient multiplied by itself");
    eq(c[1], a.at(1), "the factor stays");
    sym_reach("end");
}
ENTRY(c24_long_coeff) { coefficients(300); }
namespace
{
template<class Op, class Make, class Apply> void scaled(Make make, Apply apply)
{
    // apply(op) returns the contribution of an operator to every cell
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symScalars("cell", 2));
    auto v = symScalars("term", 2);
    auto type = anyType();
    int built = 0;
    Op a = make(type, f, Field<scalar>(e, v), &built);
    sym_assert(a.getType() == type && a.exec() == e && a.getName() == "Term", "an operator is what was put in");
    SymCoeff k(e, 2, 1, 3);
    double s = sym_f64("scale");
    Op b = k.get() * a;
    Op c = s * b;
    Op d(c);
    // every copy has its own coefficient
    a.getCoefficient() *= 3.0;
    Op x(d);
    x.getCoefficient() *= 5.0;
    for (size_t i = 0; i < 2; i++)
    {
        eq(apply(e, m, a)[i], 3.0 * v[i], "coefficient of an operator");
        eq(apply(e, m, b)[i], k.at(i) * v[i], "an operator times a coefficient");
        eq(apply(e, m, c)[i], s * k.at(i) * v[i], "an operator times a number");
        eq(apply(e, m, d)[i], s * k.at(i) * v[i], "a copied operator");
        eq(apply(e, m, x)[i], 5.0 * s * k.at(i) * v[i], "a copied operator scaled alone");
        eq(std::as_const(d).getCoefficient()[i], s * k.at(i), "the coefficient of an operator");
    }
    Field<scalar> kf(e, symScalars("coefficients", 2));
    auto hk = host(kf);
    Op g = kf * a;
    for (size_t i = 0; i < 2; i++) eq(apply(e, m, g)[i], 3.0 * hk[i] * v[i], "an operator times a field");
    Op mv(std::move(c));
    for (size_t i = 0; i < 2; i++) eq(apply(e, m, mv)[i], s * k.at(i) * v[i], "a moved operator");
    sym_assert(mv.getType() == type && d.getType() == type && g.getType() == type, "products keep the kind of an operator");
    Dictionary dict;
    d.build(dict);
    b.build(dict);
    sym_assert(built == 2, "building an operator builds what was put in");
    sym_reach("end");
}
}
ENTRY(c24_spatial)
{
    bool imp = sym_choose("implicit", 0, 1);
    auto apply = [imp](const Executor& e, const UnstructuredMesh& m, dsl::SpatialOperator<scalar>& o)
    {
        Field<scalar> s(e, 2, 0.0);
        if (!imp)
        {
            o.explicitOperation(s);
            return host(s);
        }
        auto ls = emptySystem<scalar>(m);
        o.implicitOperation(ls);
        return host(ls.rhs());
    };
    scaled<dsl::SpatialOperator<scalar>>([](Operator::Type t, fvcc::VolumeField<scalar>& f, const Field<scalar>& v, int* b) { return dsl::SpatialOperator<scalar>(Term<scalar>(t, f, v, b)); }, apply);
}
ENTRY(c24_temporal)
{
    bool imp = sym_choose("implicit", 0, 1);
    double t = 3.0, dt = -1.0; // t + 2 dt is one
    auto apply = [=](const Executor& e, const UnstructuredMesh& m, dsl::TemporalOperator<scalar>& o)
    {
        Field<scalar> s(e, 2, 0.0);
        if (!imp)
        {
            o.explicitOperation(s, t, dt);
            return host(s);
        }
        auto ls = emptySystem<scalar>(m);
        o.implicitOperation(ls, t, dt);
        return host(ls.rhs());
    };
    scaled<dsl::TemporalOperator<scalar>>([](Operator::Type t, fvcc::VolumeField<scalar>& f, const Field<scalar>& v, int* b) { return dsl::TemporalOperator<scalar>(TimeTerm<scalar>(t, f, v, b)); }, apply);
}
namespace
{
// an expression together with what it stands for
struct Sum
{
    dsl::Expression<scalar> e;
    std::vector<double> exp, imp, texp, timp; // sum of each kind of term, per cell
    size_t terms = 0;
    Sum(const Executor& x, size_t n) : e(x), exp(n, 0.0), imp(n, 0.0), texp(n, 0.0), timp(n, 0.0) {}
    Sum(dsl::Expression<scalar> x, const Sum& s) : e(x), exp(s.exp), imp(s.imp), texp(s.texp), timp(s.timp), terms(s.terms) {}
};
void addTo(std::vector<double>& a, double s, const std::vector<double>& b)
{
    for (size_t i = 0; i < a.size(); i++) a[i] += s * b[i];
}
void addSum(Sum& a, double s, const Sum& b)
{
    addTo(a.exp, s, b.exp);
    addTo(a.imp, s, b.imp);
    addTo(a.texp, s, b.texp);
    addTo(a.timp, s, b.timp);
    a.terms += b.terms;
}
struct Ctx
{
    Executor e;
    const UnstructuredMesh& m;
    fvcc::VolumeField<scalar>& f;
    size_t n;
    int built = 0;
    dsl::SpatialOperator<scalar> spatial(Sum& what, double sign)
    {
        auto v = symScalars("term", n);
        auto type = anyType();
        addTo(type == Operator::Type::Explicit ? what.exp : what.imp, sign, v);
        what.terms++;
        return dsl::SpatialOperator<scalar>(Term<scalar>(type, f, Field<scalar>(e, v), &built));
    }
    dsl::TemporalOperator<scalar> temporal(Sum& what, double sign)
    {
        auto v = symScalars("rate", n);
        auto type = anyType();
        addTo(type == Operator::Type::Explicit ? what.texp : what.timp, sign, v);
        what.terms++;
        return dsl::TemporalOperator<scalar>(TimeTerm<scalar>(type, f, Field<scalar>(e, v), &built));
    }
    // a sum or difference of two operators
    Sum start(int lo, int hi)
    {
        Sum s(e, n);
        switch (sym_choose("start", lo, hi))
        {
            case 0:
            {
                auto a = spatial(s, 1), b = spatial(s, 1);
                return Sum(a + b, s);
            }
            case 1:
            {
                auto a = spatial(s, 1), b = spatial(s, -1);
                return Sum(a - b, s);
            }
            case 2:
            {
                auto a = temporal(s, 1);
                auto b = spatial(s, 1);
                return Sum(a + b, s);
            }
            case 3:
            {
                auto a = temporal(s, 1);
                auto b = spatial(s, -1);
                return Sum(a - b, s);
            }
            default:
            {
                auto a = spatial(s, 1);
                auto b = temporal(s, -1);
                return Sum(a - b, s);
            }
        }
    }
    void verify(Sum& s)
    {
        sym_assert(s.e.size() == s.terms, "an expression has every term once");
        sym_assert(s.e.exec() == e, "an expression runs where its terms run");
        sym_assert(s.e.temporalOperators().size() + s.e.spatialOperators().size() == s.terms, "an expression has every term once");
        built = 0;
        s.e.build(Dictionary());
        sym_assert(built == (int)s.terms, "building an expression builds every term once");
        double t = sym_f64("t"), dt = sym_f64("dt");
        dsl::Expression<scalar> c(s.e);
        auto before = symScalars("before", n);
        Field<scalar> x(e, before), y(e, before);
        eqAll(host(c.explicitOperation(n)), s.exp, "the explicit terms of an expression");
        auto rx = host(c.explicitOperation(x)), hx = host(x), ry = host(c.explicitOperation(y, t, dt)), hy = host(y);
        auto ls = emptySystem<scalar>(m), lt = emptySystem<scalar>(m);
        setField(ls.rhs(), before);
        setField(lt.rhs(), before);
        c.implicitOperation(ls);
        c.implicitOperation(lt, t, dt);
        auto rs = host(ls.rhs()), rt = host(lt.rhs());
        for (size_t i = 0; i < n; i++)
        {
            eq(hx[i], before[i] + s.exp[i], "explicit terms are added to a source");
            eq(rx[i], before[i] + s.exp[i], "explicit terms are added to a source");
            eq(hy[i], before[i] + (t + 2 * dt) * s.texp[i], "explicit time terms are added to a source");
            eq(ry[i], before[i] + (t + 2 * dt) * s.texp[i], "explicit time terms are added to a source");
            eq(rs[i], before[i] + s.imp[i], "implicit terms are added to a system");
            eq(rt[i], before[i] + (t + 2 * dt) * s.timp[i], "implicit time terms are added to a system");
        }
    }
    void step(Sum s, int left)
    {
        if (left == 0)
        {
            verify(s);
            return;
        }
        Sum old(s);
        switch (sym_choose("step", 0, 6))
        {
            case 0:
            {
                auto op = spatial(s, 1);
                step(Sum(s.e + op, s), left - 1);
                break;
            }
            case 1:
            {
                auto op = spatial(s, -1);
                step(Sum(s.e - op, s), left - 1);
                break;
            }
            case 2:
            {
                double k = sym_f64("scale");
                Sum r(e, n);
                addSum(r, k, s);
                step(Sum(k * s.e, r), left - 1);
                break;
            }
            case 3:
            {
                Sum o = start(2, 2);
                addSum(s, 1, o);
                step(Sum(s.e + o.e, s), left - 1);
                break;
            }
            case 4:
            {
                Sum o = start(3, 3);
                addSum(s, -1, o);
                step(Sum(s.e - o.e, s), left - 1);
                break;
            }
            case 5:
            {
                auto op = temporal(s, 1);
                s.e.addOperator(op);
                step(s, left - 1);
                break;
            }
            default:
            {
                // an expression added to itself
                dsl::Expression<scalar> o(s.e);
                addSum(s, 1, Sum(s));
                s.e.addExpression(o);
                step(s, left - 1);
            }
        }
        // what was combined stays as it was
        if (sym_choose("check", 0, 1)) verify(old);
    }
};
}
ENTRY(c24_expression)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symScalars("cell", 2));
    Ctx c {e, m, f, 2};
    c.step(c.start(0, 4), TIER(1, 2));
    sym_reach("end");
}
ENTRY(c24_single)
{
    // a single operator, or nothing
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symScalars("cell", 2));
    Ctx c {e, m, f, 2};
    Sum s(e, 2);
    if (sym_choose("spatial", 0, 1)) s.e.addOperator(c.spatial(s, 1));
    if (sym_choose("temporal", 0, 1)) s.e.addOperator(c.temporal(s, 1));
    c.verify(s);
    sym_reach("end");
}
namespace
{
template<class T> T unit();
template<> scalar unit<scalar>() { return 1.0; }
template<> Vector unit<Vector>() { return Vector(1.0, 1.0, 1.0); }
template<class T> void source()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    auto t = smallTopo(TIER(2, 3), 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto g = plainGeo(t);
    g.vol = symScalars("vol", t.nCells);
    lateGeo(m, g);
    auto d = symVals<T>("cell", t.nCells);
    auto cf = symScalars("source", t.nCells);
    auto f = mkVol<T>(e, m, "f", d);
    auto c = mkVol<scalar>(e, m, "c", cf);
    SymCoeff k(e, t.nCells);
    auto type = anyType();
    dsl::SpatialOperator<T> op = k.get() * dsl::SpatialOperator<T>(fvcc::SourceTerm<T>(type, c, f));
    sym_assert(op.getType() == type && op.exec() == e, "an operator is what was put in");
    auto before = symVals<T>("before", t.nCells);
    if (type == Operator::Type::Explicit)
    {
        Field<T> s(e, before);
        op.explicitOperation(s);
        auto h = host(s);
        for (size_t i = 0; i < t.nCells; i++) eq(h[i], before[i] + (k.at(i) * cf[i]) * d[i], "the source is coefficient times field");
        sym_reach("explicit");
        return;
    }
    auto ls = emptySystem<T>(m);
    auto a0 = symVals<T>("entry", ls.matrix().values().size());
    setField(ls.matrix().values(), a0);
    setField(ls.rhs(), before);
    auto was = dense(ls, t.nCells);
    op.implicitOperation(ls);
    auto now = dense(ls, t.nCells);
    for (size_t i = 0; i < t.nCells; i++)
        for (size_t j = 0; j < t.nCells; j++)
        {
            T want = was[i][j];
            if (i == j) want += (k.at(i) * cf[i] * g.vol[i]) * unit<T>();
            eq(now[i][j], want, "the implicit source is on the diagonal");
        }
    eqAll(host(ls.rhs()), before, "the implicit source leaves the right-hand side as it is");
    sym_reach("implicit");
}
template<class T> struct Make
{
    const UnstructuredMesh& m;
    std::vector<T> in;
    fvcc::FieldDocument operator()(NF::Database& db)
    {
        std::vector<fvcc::VolumeBoundary<T>> bcs = fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m);
        NF::DomainField<T> df(m.exec(), Field<T>(m.exec(), in), m.boundaryMesh().offset());
        fvcc::VolumeField<T> vf(m.exec(), "vf", m, df, bcs, db, "", "");
        return fvcc::FieldDocument(vf, 1, 1, 1);
    }
};
template<class T> void ddt()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    auto t = smallTopo(TIER(2, 3), 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto g = plainGeo(t);
    g.vol = symScalars("vol", t.nCells);
    lateGeo(m, g);
    NF::Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto d = symVals<T>("cell", t.nCells), o = symVals<T>("old", t.nCells);
    auto& f = fc.registerField<fvcc::VolumeField<T>>(Make<T> {m, d});
    setField(fvcc::oldTime(f).internalField(), o);
    SymCoeff k(e, t.nCells);
    auto type = anyType();
    dsl::TemporalOperator<T> op = k.get() * dsl::TemporalOperator<T>(fvcc::DdtOperator<T>(type, f));
    sym_assert(op.getType() == type && op.exec() == e, "an operator is what was put in");
    double now = sym_f64("t"), dt = sym_f64("dt");
    sym_assume(dt > 0);
    auto before = symVals<T>("before", t.nCells);
    if (type == Operator::Type::Explicit)
    {
        Field<T> s(e, before);
        op.explicitOperation(s, now, dt);
        auto h = host(s);
        for (size_t i = 0; i < t.nCells; i++) eq(h[i], before[i] + (k.at(i) * (1.0 / dt) * g.vol[i]) * (d[i] - o[i]), "the rate of change is coefficient times difference times volume per time");
        eqAll(host(f.internalField()), d, "a rate leaves the field as it is");
        sym_reach("explicit");
        return;
    }
    auto ls = emptySystem<T>(m);
    auto a0 = symVals<T>("entry", ls.matrix().values().size());
    setField(ls.matrix().values(), a0);
    setField(ls.rhs(), before);
    auto was = dense(ls, t.nCells);
    op.implicitOperation(ls, now, dt);
    auto mat = dense(ls, t.nCells);
    auto r = host(ls.rhs());
    for (size_t i = 0; i < t.nCells; i++)
    {
        double q = k.at(i) * g.vol[i] * (1.0 / dt);
        for (size_t j = 0; j < t.nCells; j++)
        {
            T want = was[i][j];
            if (i == j) want += q * unit<T>();
            eq(mat[i][j], want, "the implicit rate is on the diagonal");
        }
        eq(r[i], before[i] + q * o[i], "the implicit rate takes the old value from the right-hand side");
    }
    eqAll(host(fvcc::oldTime(f).internalField()), o, "a rate leaves the old field as it is");
    sym_reach("implicit");
}
}
ENTRY(c24_source_scalar) { source<scalar>(); }
ENTRY(c24_source_vector) { source<Vector>(); }
ENTRY(c24_ddt_scalar) { ddt<scalar>(); }
ENTRY(c24_ddt_vector) { ddt<Vector>(); }
// the functions of the language make the operators they are named after, which find their scheme by name
ENTRY(c24_make)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 2);
    auto m = mkMesh(e, t, plainGeo(t));
    auto d = symData<scalar>(t);
    NF::Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto& phi = fc.registerField<fvcc::VolumeField<scalar>>(Make<scalar> {m, d.in});
    setField(phi.boundaryField().value(), d.val);
    setField(phi.boundaryField().refValue(), d.refVal);
    setField(phi.boundaryField().refGrad(), d.refGrad);
    setField(phi.boundaryField().valueFraction(), d.vf);
    auto c = mkVol<scalar>(e, m, "c", symScalars("source", t.nCells));
    auto flux = mkSurf<scalar>(e, m, "flux", symScalars("flux", t.nFaces()));
    auto gamma = mkSurf<scalar>(e, m, "gamma", symScalars("gamma", t.nFaces()));
    Dictionary schemes, div, lap;
    div.insert("div(flux,vf)", TokenList({std::string("Gauss"), std::string("linear")}));
    div.insert("div(gamma,vf)", TokenList({std::string("Gauss"), std::string("upwind")}));
    lap.insert("laplacian(gamma,vf)", TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")}));
    schemes.insert("divSchemes", div);
    schemes.insert("laplacianSchemes", lap);
    int what = (int)sym_choose("operator", 0, 5);
    Input asTokens = words("Gauss", "linear", "uncorrected");
    bool byName = sym_choose("byName", 0, 1);
    auto build = [&](dsl::SpatialOperator<scalar>& o)
    {
        if (byName) o.build(schemes);
        else o.build(asTokens);
    };
    auto expl = [&](dsl::SpatialOperator<scalar> o)
    {
        Field<scalar> s(e, t.nCells, 0.0);
        sym_assert(o.getType() == Operator::Type::Explicit, "kind of an operator");
        o.explicitOperation(s);
        return host(s);
    };
    auto impl = [&](dsl::SpatialOperator<scalar> o, std::vector<scalar>& r)
    {
        auto ls = emptySystem<scalar>(m);
        sym_assert(o.getType() == Operator::Type::Implicit, "kind of an operator");
        o.implicitOperation(ls);
        r = host(ls.rhs());
        auto a = dense(ls, t.nCells);
        for (auto& row : a) r.insert(r.end(), row.begin(), row.end());
    };
    std::vector<scalar> x, y;
    if (what == 0)
    {
        auto o = dsl::exp::div(flux, phi);
        build(o);
        x = expl(o);
        y = expl(fvcc::DivOperator<scalar>(Operator::Type::Explicit, flux, phi, asTokens));
    }
    else if (what == 1)
    {
        auto o = dsl::exp::div(flux);
        build(o);
        x = expl(o);
        y = expl(fvcc::SurfaceIntegrate<scalar>(flux));
    }
    else if (what == 2)
    {
        auto o = dsl::exp::source(c, phi);
        build(o);
        x = expl(o);
        Field<scalar> direct(e, t.nCells, 0.0);
        fvcc::SourceTerm<scalar>(Operator::Type::Explicit, c, phi).explicitOperation(direct);
        y = host(direct);
    }
    else if (what == 3)
    {
        auto o = dsl::imp::source(c, phi);
        build(o);
        impl(o, x);
        impl(fvcc::SourceTerm<scalar>(Operator::Type::Implicit, c, phi), y);
    }
    else if (what == 4)
    {
        auto o = dsl::imp::div(flux, phi);
        build(o);
        impl(o, x);
        impl(fvcc::DivOperator<scalar>(Operator::Type::Implicit, flux, phi, asTokens), y);
    }
    else
    {
        auto o = dsl::imp::laplacian(gamma, phi);
        build(o);
        impl(o, x);
        impl(fvcc::LaplacianOperator<scalar>(Operator::Type::Implicit, gamma, phi, asTokens), y);
    }
    eqAll(x, y, "a function of the language makes the operator it is named after");
    auto r = dsl::imp::ddt(phi);
    sym_assert(r.getType() == Operator::Type::Implicit && r.getName() == "DdtOperator", "kind of an operator");
    sym_reach("end");
}
// an operator without its scheme is refused
ENTRY(c24_unbuilt)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto phi = mkVol<scalar>(e, m, "vf", symScalars("cell", t.nCells));
    auto flux = mkSurf<scalar>(e, m, "flux", symScalars("flux", t.nFaces()));
    Field<scalar> s(e, t.nCells, 0.0);
    auto ls = emptySystem<scalar>(m);
    int what = (int)sym_choose("operator", 0, 3);
    sym_expect_termination(2, "refused");
    if (what == 0) dsl::exp::div(flux, phi).explicitOperation(s);
    if (what == 1) dsl::imp::div(flux, phi).implicitOperation(ls);
    if (what == 2) dsl::imp::laplacian(flux, phi).implicitOperation(ls);
    if (what == 3) dsl::imp::div(flux, phi).build(words("Gaus"));
    sym_assert(false, "an operator without its scheme is refused");
}
// assigning an operator replaces it
ENTRY(c24_assign)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symScalars("cell", 2));
    auto v = symScalars("term", 2), w = symScalars("term", 2);
    auto ta = anyType(), tb = anyType();
    dsl::SpatialOperator<scalar> a = Term<scalar>(ta, f, Field<scalar>(e, v)), b = Term<scalar>(tb, f, Field<scalar>(e, w));
    double k = sym_f64("scale"), q = sym_f64("scale");
    a.getCoefficient() *= k;
    auto apply = [&](dsl::SpatialOperator<scalar>& o)
    {
        if (o.getType() == Operator::Type::Explicit)
        {
            Field<scalar> s(e, 2, 0.0);
            o.explicitOperation(s);
            return host(s);
        }
        auto ls = emptySystem<scalar>(m);
        o.implicitOperation(ls);
        return host(ls.rhs());
    };
    std::vector<dsl::SpatialOperator<scalar>> list {b, b};
    list[0] = a;
    b = a;
    sym_assert(b.getType() == ta && list[0].getType() == ta && list[1].getType() == tb, "an assigned operator is the other one");
    b.getCoefficient() *= q;
    const auto& self = b;
    b = self;
    for (size_t i = 0; i < 2; i++)
    {
        eq(apply(a)[i], k * v[i], "an operator that is assigned from stays as it is");
        eq(apply(b)[i], k * q * v[i], "an assigned operator is the other one");
        eq(apply(list[0])[i], k * v[i], "an assigned operator is the other one");
        eq(apply(list[1])[i], w[i], "assigning to an operator leaves the others");
    }
    sym_reach("end");
}
// expressions of many terms
ENTRY(c24_long)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    auto f = mkVol<scalar>(e, m, "f", symScalars("cell", 2));
    Ctx c {e, m, f, 2};
    auto add = [&](Sum& s, size_t n, bool temporal)
    {
        for (size_t i = 0; i < n; i++)
        {
            auto v = symScalars(temporal ? "rate" : "term", 2);
            auto type = i % 3 == 1 ? Operator::Type::Implicit : Operator::Type::Explicit;
            bool ex = type == Operator::Type::Explicit;
            addTo(temporal ? (ex ? s.texp : s.timp) : (ex ? s.exp : s.imp), 1, v);
            s.terms++;
            if (temporal) s.e.addOperator(dsl::TemporalOperator<scalar>(TimeTerm<scalar>(type, f, Field<scalar>(e, v), &c.built)));
            else s.e.addOperator(dsl::SpatialOperator<scalar>(Term<scalar>(type, f, Field<scalar>(e, v), &c.built)));
        }
    };
    Sum a(e, 2), b(e, 2);
    add(a, 20, false);
    add(a, 12, true);
    add(b, 17, false);
    add(b, 9, true);
    double k = sym_f64("scale");
    Sum r(e, 2);
    addSum(r, 1, a);
    addSum(r, -k, b);
    Sum d(a.e - k * b.e, r);
    c.verify(d);
    c.verify(a);
    sym_reach("end");
}
// 300 cells, hundreds of internal and boundary faces: positions beyond the small integer types
ENTRY(c24_long_source)
{
    longMode() = true;
    source<scalar>();
}
ENTRY(c24_long_ddt)
{
    longMode() = true;
    ddt<scalar>();
}

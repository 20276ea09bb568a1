// Solving: what system a solver gets, what a time step does, and what an assembled expression stands for.
#include "inc/fvfield.hpp"
#include "inc/recorder.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"
using dsl::Operator;
using Vol = fvcc::VolumeField<scalar>;
namespace
{
// a term with known contributions: values per cell, entries and right-hand side of a system;
// an explicit contribution may also depend on the field
struct Term : dsl::OperatorMixin<Vol>
{
    using FieldValueType = scalar;
    Field<scalar> v, a, b;
    double slope;
    Term(Operator::Type t, Vol& f, std::vector<scalar> val, std::vector<scalar> mat, std::vector<scalar> rhs, double sl = 0.0)
        : dsl::OperatorMixin<Vol>(f.exec(), dsl::Coeff(1.0), f, t), v(f.exec(), val), a(f.exec(), mat), b(f.exec(), rhs), slope(sl)
    {}
    void explicitOperation(Field<scalar>& s) const
    {
        auto c = this->getCoefficient();
        auto sl = slope;
        auto [out, in, f] = NF::spans(s, v, this->field_.internalField());
        NF::parallelFor(s.exec(), s.range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c[i] * (in[i] + sl * f[i]); });
    }
    void implicitOperation(la::LinearSystem<scalar, localIdx>& ls)
    {
        auto c = this->getCoefficient()[0];
        auto [out, in] = NF::spans(ls.rhs(), b);
        NF::parallelFor(ls.exec(), ls.rhs().range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c * in[i]; });
        auto [mo, mi] = NF::spans(ls.matrix().values(), a);
        NF::parallelFor(ls.exec(), ls.matrix().values().range(), KOKKOS_LAMBDA(const size_t i) { mo[i] += c * mi[i]; });
    }
    void build(const Input&) {}
    std::string getName() const { return "Term"; }
};
struct Terms
{
    std::vector<scalar> e, b;
    std::vector<std::vector<scalar>> a;
    double slope = 0;
};
struct World
{
    Executor e;
    Topo t;
    UnstructuredMesh m;
    Geo g;
    NF::Database db;
    Dictionary schemes, solution;
    Seen rec;
    World(const Executor& x, const Topo& tp) : e(x), t(tp), m(mkMesh(x, tp, plainGeo(tp))), g(plainGeo(tp))
    {
        g.vol = symScalars("vol", t.nCells);
        for (auto v : g.vol) sym_assume(v > 0);
        lateGeo(m, g);
        seen = &rec;
        solution.insert("solver", std::string("recording"));
        solution.insert("tag", 7);
    }
    struct Make
    {
        const UnstructuredMesh& m;
        std::vector<scalar> in;
        std::vector<fvcc::VolumeBoundary<scalar>> bcs;
        fvcc::FieldDocument operator()(NF::Database& db)
        {
            NF::DomainField<scalar> df(m.exec(), Field<scalar>(m.exec(), in), m.boundaryMesh().offset());
            Vol vf(m.exec(), "vf", m, df, bcs, db, "", "");
            return fvcc::FieldDocument(vf, 1, 1, 1);
        }
    };
    Vol& field(const std::vector<scalar>& in)
    {
        auto& fc = fvcc::FieldCollection::instance(db, "fields");
        return fc.registerField<Vol>(Make {m, in, fvcc::createExtrapolatedBCs<fvcc::VolumeBoundary<scalar>>(m)});
    }
    // adds up to two terms of any kind
    Terms terms(Vol& f, dsl::Expression<scalar>& x, int kinds, int max)
    {
        Terms w;
        auto ls = emptySystem<scalar>(m);
        size_t nnz = ls.matrix().values().size();
        w.e.assign(t.nCells, 0.0);
        w.b.assign(t.nCells, 0.0);
        w.a = dense(ls, t.nCells);
        size_t n = (size_t)sym_choose("terms", 0, max);
        for (size_t i = 0; i < n; i++)
        {
            auto v = symScalars("term", t.nCells), b = symScalars("rhs", t.nCells), a = symScalars("entry", nnz);
            bool imp = kinds == 2 ? (bool)sym_choose("implicit", 0, 1) : kinds == 1;
            double c = sym_f64("coeff"), sl = imp ? 0.0 : sym_f64("slope");
            dsl::SpatialOperator<scalar> op = c * dsl::SpatialOperator<scalar>(Term(imp ? Operator::Type::Implicit : Operator::Type::Explicit, f, v, a, b, sl));
            x.addOperator(op);
            if (imp)
            {
                setField(ls.matrix().values(), a);
                auto d = dense(ls, t.nCells);
                for (size_t r = 0; r < t.nCells; r++)
                {
                    w.b[r] += c * b[r];
                    for (size_t q = 0; q < t.nCells; q++) w.a[r][q] += c * d[r][q];
                }
            }
            else
            {
                for (size_t r = 0; r < t.nCells; r++) w.e[r] += c * v[r];
                w.slope += c * sl;
            }
        }
        return w;
    }
    void expectSystem(const Terms& w, const std::vector<scalar>& cells, double dtInv, const std::vector<scalar>& old)
    {
        sym_assert(rec.calls == 1 && rec.made == 1, "a system is solved once");
        sym_assert(rec.execOk, "a system is solved where the field lives");
        sym_assert(rec.tag == 7, "the solver gets its own settings");
        for (size_t r = 0; r < t.nCells; r++)
        {
            for (size_t q = 0; q < t.nCells; q++)
            {
                double want = w.a[r][q];
                if (r == q) want += g.vol[r] * dtInv;
                eq(rec.a[r][q], want, "the matrix holds every implicit term");
            }
            eq(rec.b[r], w.b[r] + g.vol[r] * dtInv * old[r] - (w.e[r] + w.slope * cells[r]) * g.vol[r], "the right-hand side holds every implicit and explicit term");
        }
        rec.calls = 0;
        rec.made = 0;
    }
};
}
namespace
{
void steady()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    World w(e, smallTopo(TIER(2, 3), 1, 1));
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    dsl::Expression<scalar> x(e);
    auto k = w.terms(f, x, 2, longMode() ? 1 : TIER(2, 3));
    w.rec.answer = symScalars("answer", w.t.nCells);
    if (x.size() == 0)
    {
        sym_expect_termination(2, "refused");
        dsl::solve(x, f, 0.0, 1.0, w.schemes, w.solution);
        sym_assert(false, "an empty expression is refused");
    }
    dsl::solve(x, f, 0.0, 1.0, w.schemes, w.solution);
    w.expectSystem(k, in, 0.0, zeros<scalar>(w.t.nCells));
    eqAll(w.rec.guess, in, "the solver starts from the field");
    eqAll(host(f.internalField()), w.rec.answer, "the field holds the answer of the solver");
    sym_reach("end");
}
}
ENTRY(c25_steady) { steady(); }
ENTRY(c25_long_steady)
{
    longMode() = true;
    steady();
}
namespace
{
void forward()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    World w(e, smallTopo(2, 1, 1, 1));
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    Dictionary ddt;
    ddt.insert("type", std::string("forwardEuler"));
    w.schemes.insert("ddtSchemes", ddt);
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    auto k = w.terms(f, x, 0, longMode() ? 1 : 2);
    // the state before the first step is the old state
    std::vector<scalar> want = in;
    double time = sym_f64("t");
    for (int s = 0; s < (longMode() ? 1 : 2); s++)
    {
        double dt = sym_f64("dt");
        dsl::solve(x, f, time, dt, w.schemes, w.solution);
        for (size_t i = 0; i < want.size(); i++) want[i] = want[i] - dt * (k.e[i] + k.slope * want[i]);
        eqAll(host(f.internalField()), want, "a forward step follows the rate of change");
        eqAll(host(fvcc::oldTime(f).internalField()), want, "the old state is the state before the next step");
        auto bv = host(f.boundaryField().value());
        for (size_t b = 0; b < w.t.nBnd; b++) eq(bv[b], want[(size_t)w.t.fc[b]], "the boundary follows the cells");
        time += dt;
    }
    sym_assert(w.rec.calls == 0, "a forward step needs no solver");
    sym_reach("end");
}
}
ENTRY(c25_forward) { forward(); }
ENTRY(c25_long_forward)
{
    longMode() = true;
    forward();
}
namespace
{
void backward()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    World w(e, smallTopo(TIER(2, 3), 1, 1));
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    Dictionary ddt;
    ddt.insert("type", std::string("backwardEuler"));
    w.schemes.insert("ddtSchemes", ddt);
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    auto k = w.terms(f, x, 2, longMode() ? 1 : 2);
    std::vector<scalar> cells = in;
    for (int s = 0; s < (longMode() ? 1 : 2); s++)
    {
        double dt = sym_f64("dt");
        sym_assume(dt > 0);
        w.rec.answer = symScalars("answer", w.t.nCells);
        dsl::solve(x, f, 0.0, dt, w.schemes, w.solution);
        w.expectSystem(k, cells, 1.0 / dt, cells);
        cells = w.rec.answer;
        eqAll(host(f.internalField()), cells, "the field holds the answer of the solver");
        eqAll(host(fvcc::oldTime(f).internalField()), cells, "the old state is the state before the next step");
    }
    sym_reach("end");
}
}
ENTRY(c25_backward) { backward(); }
ENTRY(c25_long_backward)
{
    longMode() = true;
    backward();
}
ENTRY(c25_refuse)
{
    Executor e = symExec();
    World w(e, symTopo(2, 1, 1));
    auto& f = w.field(symScalars("cell", w.t.nCells));
    int what = (int)sym_choose("what", 0, 2);
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    Dictionary ddt, sol = w.solution;
    ddt.insert("type", std::string(what == 0 ? "forward" : "backwardEuler"));
    w.schemes.insert("ddtSchemes", ddt);
    if (what == 1) sol.insert("solver", std::string("none"));
    if (what == 2)
    {
        // a copy of a time integrator works like the original
        ddt.insert("type", std::string("backwardEuler"));
        Dictionary one;
        one.insert("type", std::string("backwardEuler"));
        NF::timeIntegration::TimeIntegration<Vol> a(one, w.solution);
        NF::timeIntegration::TimeIntegration<Vol> b(a);
        w.rec.answer = symScalars("answer", 2);
        b.solve(x, f, 0.0, 1.0);
        eqAll(host(f.internalField()), w.rec.answer, "a copied time integrator works like the original");
        la::Solver s(e, w.solution), c(s);
        w.rec.answer = symScalars("answer", 2);
        auto ls = emptySystem<scalar>(w.m);
        c.solve(ls, f.internalField());
        eqAll(host(f.internalField()), w.rec.answer, "a copied solver works like the original");
        sym_reach("copied");
        return;
    }
    sym_expect_termination(2, "refused");
    dsl::solve(x, f, 0.0, 1.0, w.schemes, sol);
    sym_assert(false, "an unknown scheme or solver is refused");
}
// every term takes its scheme before it contributes, however many there are
namespace
{
struct Late : dsl::OperatorMixin<Vol>
{
    using FieldValueType = scalar;
    scalar v, scale = 0.0;
    Late(Operator::Type t, Vol& f, scalar val) : dsl::OperatorMixin<Vol>(f.exec(), dsl::Coeff(1.0), f, t), v(val) {}
    void explicitOperation(Field<scalar>& s) const
    {
        auto out = s.view();
        auto c = v * scale;
        NF::parallelFor(s.exec(), s.range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c; });
    }
    void implicitOperation(la::LinearSystem<scalar, localIdx>& ls)
    {
        auto out = ls.rhs().view();
        auto c = v * scale;
        NF::parallelFor(ls.exec(), ls.rhs().range(), KOKKOS_LAMBDA(const size_t i) { out[i] += c; });
    }
    void build(const Input& in) { scale = std::get<Dictionary>(in).get<scalar>("scale"); }
    std::string getName() const { return "Late"; }
};
}
ENTRY(c25_many)
{
    Executor e = symExec();
    sym_sched_mode(1);
    World w(e, symTopo(1, 0, 1));
    auto in = symScalars("cell", 1);
    auto& f = w.field(in);
    const size_t counts[] = {1, 5, 17, 33};
    size_t n = counts[sym_choose("terms", 0, 3)];
    int kind = (int)sym_choose("kind", 0, 2); // implicit, explicit, both in turn
    double s = sym_f64("scale"), ex = 0.0, im = 0.0;
    w.schemes.insert("scale", s);
    dsl::Expression<scalar> x(e);
    for (size_t i = 0; i < n; i++)
    {
        double v = i == 0 || i + 1 == n ? sym_f64("term") : (double)(i * i % 23) - 7.0;
        bool imp = kind == 2 ? i % 2 == 0 : kind == 0;
        x.addOperator(dsl::SpatialOperator<scalar>(Late(imp ? Operator::Type::Implicit : Operator::Type::Explicit, f, v)));
        (imp ? im : ex) += v;
    }
    w.rec.answer = symScalars("answer", 1);
    dsl::solve(x, f, 0.0, 1.0, w.schemes, w.solution);
    sym_assert(w.rec.calls == 1, "a system is solved once");
    eq(w.rec.b[0], s * im - s * ex * w.g.vol[0], "every term contributes with its scheme");
    eqAll(host(f.internalField()), w.rec.answer, "the field holds the answer of the solver");
    sym_reach("end");
}
// an assembled expression
ENTRY(c25_assemble)
{
    Executor e = symExec();
    sym_sched_mode(1);
    World w(e, symTopo(2, 1, 1));
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    dsl::Expression<scalar> x(e);
    bool time = sym_choose("time", 0, 1);
    if (time) x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    auto k = w.terms(f, x, 2, 2);
    fvcc::Expression<scalar> a(x, f, w.schemes, w.solution);
    sym_assert(a.exec() == e && &a.getField() == &f, "an expression is about its field");
    double dt = sym_f64("dt");
    sym_assume(dt > 0);
    if (time || sym_choose("form", 0, 1) == 0)
    {
        a.assemble(sym_f64("t"), dt);
        if (sym_choose("again", 0, 1)) a.assemble(0.0, dt);
    }
    else
    {
        if (x.size() == 0) sym_expect_termination(2, "refused");
        a.assemble();
        sym_assert(x.size() > 0, "an empty expression is refused");
        if (sym_choose("again", 0, 1)) a.assemble();
    }
    fvcc::Expression<scalar> b(a);
    auto d = dense(b.linearSystem(), 2);
    auto r = host(b.linearSystem().rhs());
    double q = time ? 1 / dt : 0;
    for (size_t i = 0; i < 2; i++)
    {
        for (size_t j = 0; j < 2; j++) eq(d[i][j], k.a[i][j] + (i == j ? w.g.vol[i] * q : 0.0), "the matrix holds every implicit term");
        eq(r[i], k.b[i] + w.g.vol[i] * q * in[i] - (k.e[i] + k.slope * in[i]) * w.g.vol[i], "the right-hand side holds every implicit and explicit term");
    }
    eqAll(host(b.sparsityPattern().diagOffset()), host(fvcc::SparsityPattern::readOrCreate(w.m)->diagOffset()), "the pattern of the mesh");
    sym_reach("end");
}
// what can be done with an assembled system
ENTRY(c25_system)
{
    Executor e = symExec();
    sym_sched_mode(1);
    World w(e, smallTopo(TIER(2, 3), TIER(1, 2), 1));
    size_t n = w.t.nCells;
    auto in = symScalars("cell", n);
    auto& f = w.field(in);
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::SpatialOperator<scalar>(Term(Operator::Type::Implicit, f, zeros<scalar>(n), zeros<scalar>(emptySystem<scalar>(w.m).matrix().values().size()), zeros<scalar>(n))));
    fvcc::Expression<scalar> a(x, f, w.schemes, w.solution);
    auto entries = symScalars("entry", a.linearSystem().matrix().values().size()), b = symScalars("rhs", n);
    setField(a.linearSystem().matrix().values(), entries);
    setField(a.linearSystem().rhs(), b);
    auto d = dense(a.linearSystem(), n);
    const auto& ca = a;
    sym_assert(&a.getField() == &f && &ca.getField() == &f && ca.exec() == e, "an expression is about its field");
    sym_assert(&ca.sparsityPattern() == fvcc::SparsityPattern::readOrCreate(w.m).get() && &a.sparsityPattern() == &ca.sparsityPattern(), "the pattern of the mesh");
    int what = (int)sym_choose("what", 0, 4);
    if (what >= 3)
    {
        dsl::Expression<scalar> y(e);
        if (what == 4)
        {
            y.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
            y.addOperator(dsl::SpatialOperator<scalar>(Term(Operator::Type::Implicit, f, zeros<scalar>(n), zeros<scalar>(emptySystem<scalar>(w.m).matrix().values().size()), zeros<scalar>(n))));
        }
        fvcc::Expression<scalar> c(y, f, w.schemes, w.solution);
        sym_expect_termination(2, "refused");
        c.solve(0.0, 1.0);
        sym_assert(false, "nothing to solve, or steps in time, are refused");
    }
    if (what == 0)
    {
        auto psi = symScalars("psi", n);
        auto other = mkVol<scalar>(e, w.m, "psi", psi);
        auto r = host((a & other).internalField());
        for (size_t i = 0; i < n; i++)
        {
            double s = -b[i];
            for (size_t j = 0; j < n; j++) s += d[i][j] * psi[j];
            eq(r[i], s, "the product with a field is the residual");
        }
        eqAll(host(other.internalField()), psi, "the product leaves the field as it is");
        sym_reach("residual");
    }
    else if (what == 1)
    {
        double v = sym_f64("value");
        size_t c = (size_t)sym_choose("cell", 0, (int)n - 1);
        a.setReference((localIdx)c, v);
        auto d2 = dense(a.linearSystem(), n);
        auto r = host(a.linearSystem().rhs());
        for (size_t i = 0; i < n; i++)
        {
            for (size_t j = 0; j < n; j++) eq(d2[i][j], d[i][j] * (i == j && i == c ? 2.0 : 1.0), "a reference value strengthens its diagonal");
            eq(r[i], b[i] + (i == c ? d[i][i] * v : 0.0), "a reference value pulls its cell");
        }
        sym_reach("reference");
    }
    else
    {
        w.rec.answer = symScalars("answer", n);
        a.solve(0.0, 1.0);
        sym_assert(w.rec.calls == 1 && w.rec.execOk && w.rec.tag == 7, "a system is solved once, with its settings, where it lives");
        for (size_t i = 0; i < n; i++)
        {
            for (size_t j = 0; j < n; j++) eq(w.rec.a[i][j], d[i][j], "the assembled system is solved");
            eq(w.rec.b[i], b[i], "the assembled system is solved");
        }
        eqAll(w.rec.guess, in, "the solver starts from the field");
        eqAll(host(f.internalField()), w.rec.answer, "the field holds the answer of the solver");
        sym_reach("solved");
    }
}

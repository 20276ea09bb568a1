// Transport equations written in the language and stepped in time: what one step does to the cells.
#include "inc/fvfield.hpp"
#include "inc/recorder.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
using dsl::Operator;
using Vol = fvcc::VolumeField<scalar>;
namespace
{
struct Case
{
    Executor e;
    Topo t;
    UnstructuredMesh m;
    Geo g;
    std::vector<scalar> in, fl, ga, w, dc;
    bool fixed;
    double bc;
    NF::Database db;
    Dictionary schemes, solution;
    Seen rec;
    std::unique_ptr<fvcc::SurfaceField<scalar>> flux, gamma;
    Vol* phi = nullptr;
    struct Make
    {
        const UnstructuredMesh& m;
        std::vector<scalar> in;
        std::vector<fvcc::VolumeBoundary<scalar>> bcs;
        fvcc::FieldDocument operator()(NF::Database& db)
        {
            NF::DomainField<scalar> df(m.exec(), Field<scalar>(m.exec(), in), m.boundaryMesh().offset());
            Vol vf(m.exec(), "T", m, df, bcs, db, "", "");
            vf.correctBoundaryConditions();
            return fvcc::FieldDocument(vf, 1, 1, 1);
        }
    };
    // cells of any volume unless they are of no interest, one patch with a fixed value or gradient
    Case(const Executor& x, const Topo& tp, const char* div, bool unitCells = false, bool onlyFixed = false, bool unitFaces = false)
        : e(x), t(tp), m(mkMesh(x, tp, plainGeo(tp))), g(plainGeo(tp))
    {
        if (!unitCells) g.vol = symScalars("vol", t.nCells);
        for (auto v : g.vol) sym_assume(v > 0);
        dc.assign(t.nFaces(), 2.0);
        ga.assign(t.nFaces(), 0.0);
        if (!unitFaces)
        {
            dc = symScalars("nonOrthDeltaCoeff", t.nFaces());
            for (size_t b = 0; b < t.nBnd; b++) dc[t.nInt + b] = 2.0;
            for (auto v : dc) sym_assume(v > 0);
            ga = symScalars("gamma", t.nFaces());
            for (auto v : ga) sym_assume(v >= 0);
        }
        w = symScalars("weight", t.nFaces());
        for (size_t b = 0; b < t.nBnd; b++) w[t.nInt + b] = 1.0;
        lateGeo(m, g);
        setNonOrth(m, dc);
        setWeights(m, w);
        fixed = onlyFixed || t.nBnd == 0 || sym_choose("boundary", 0, 1) == 0;
        bc = sym_f64("bc");
        in = symScalars("cell", t.nCells);
        fl = symScalars("flux", t.nFaces());
        flux = std::make_unique<fvcc::SurfaceField<scalar>>(mkSurf<scalar>(e, m, "U", fl));
        gamma = std::make_unique<fvcc::SurfaceField<scalar>>(mkSurf<scalar>(e, m, "D", ga));
        Dictionary d, l, dd;
        d.insert("div(U,T)", TokenList({std::string("Gauss"), std::string(div)}));
        l.insert("laplacian(D,T)", TokenList({std::string("Gauss"), std::string("linear"), std::string("uncorrected")}));
        schemes.insert("divSchemes", d);
        schemes.insert("laplacianSchemes", l);
        seen = &rec;
        solution.insert("solver", std::string("recording"));
        solution.insert("tag", 7);
    }
    void start()
    {
        Dictionary b;
        b.insert("type", std::string(fixed ? "fixedValue" : "fixedGradient"));
        b.insert(fixed ? "fixedValue" : "fixedGradient", bc);
        std::vector<fvcc::VolumeBoundary<scalar>> bcs {fvcc::VolumeBoundary<scalar>(m, b, 0)};
        phi = &fvcc::FieldCollection::instance(db, "fields").registerField<Vol>(Make {m, in, bcs});
    }
    void time(const char* scheme)
    {
        Dictionary d;
        d.insert("type", std::string(scheme));
        schemes.insert("ddtSchemes", d);
    }
    // no cell gains or loses what flows through it
    void divergenceFree()
    {
        std::vector<double> s(t.nCells, 0.0);
        for (size_t f = 0; f < t.nInt; f++)
        {
            s[(size_t)t.own[f]] += fl[f];
            s[(size_t)t.nei[f]] -= fl[f];
        }
        for (size_t b = 0; b < t.nBnd; b++) s[(size_t)t.fc[b]] += fl[t.nInt + b];
        for (auto x : s) sym_assume(x == 0);
    }
    double wall(size_t b, const std::vector<scalar>& c) const { return fixed ? bc : c[(size_t)t.fc[b]] + bc / 2.0; }
    // what the flow and diffusion take out of every cell
    std::vector<scalar> outflow(const std::vector<scalar>& c, bool up, double kd, double kl) const
    {
        auto r = zeros<scalar>(t.nCells);
        for (size_t f = 0; f < t.nInt; f++)
        {
            size_t o = (size_t)t.own[f], n = (size_t)t.nei[f];
            double face = up ? (fl[f] >= 0 ? c[o] : c[n]) : w[f] * c[o] + (1.0 - w[f]) * c[n];
            double q = kd * fl[f] * face + kl * (ga[f] * dc[f] * (c[n] - c[o]));
            r[o] += q;
            r[n] -= q;
        }
        for (size_t b = 0; b < t.nBnd; b++)
        {
            size_t o = (size_t)t.fc[b];
            r[o] += kd * fl[t.nInt + b] * wall(b, c) + kl * ga[t.nInt + b] * (fixed ? 2.0 * (bc - c[o]) : bc);
        }
        return r;
    }
};
template<class F> void forward(Case& k, double dt, F&& build)
{
    k.time("forwardEuler");
    k.start();
    dsl::Expression<scalar> x(k.e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(*k.phi)));
    build(x);
    dsl::solve(x, *k.phi, 0.0, dt, k.schemes, k.solution);
}
template<class F> void backward(Case& k, double dt, F&& build)
{
    k.time("backwardEuler");
    k.start();
    dsl::Expression<scalar> x(k.e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(*k.phi)));
    build(x);
    k.rec.answer = symScalars("answer", k.t.nCells);
    dsl::solve(x, *k.phi, 0.0, dt, k.schemes, k.solution);
    sym_assert(k.rec.calls == 1, "a system is solved once");
    eqAll(host(k.phi->internalField()), k.rec.answer, "the field holds the solution");
}
auto diffusion(Case& k) { return dsl::SpatialOperator<scalar>(fvcc::LaplacianOperator<scalar>(Operator::Type::Explicit, *k.gamma, *k.phi)); }
}
// explicit transport: the balance of every cell
ENTRY(c36_forward)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    bool up = sym_choose("scheme", 0, 1);
    Case k(e, smallTopo(2, 1, TIER(1, 2)), up ? "upwind" : "linear");
    auto sv = symScalars("source", k.t.nCells);
    auto src = mkVol<scalar>(e, k.m, "S", sv);
    double dt = sym_f64("dt"), kd = sym_f64("kd"), kl = sym_f64("kl");
    int terms = (int)sym_choose("terms", 1, 7);
    if (TIER(1, 0)) sym_assume(terms == 7 || terms == 1 || terms == 2 || terms == 4);
    forward(k, dt, [&](auto& x)
        {
            if (terms & 1) x.addOperator(kd * dsl::exp::div(*k.flux, *k.phi));
            if (terms & 2) x.addOperator(kl * diffusion(k));
            if (terms & 4) x.addOperator(dsl::exp::source(src, *k.phi));
        });
    auto out = k.outflow(k.in, up, terms & 1 ? kd : 0.0, terms & 2 ? kl : 0.0);
    std::vector<scalar> want;
    for (size_t c = 0; c < k.t.nCells; c++) want.push_back(k.in[c] - dt * (out[c] / k.g.vol[c] + (terms & 4 ? sv[c] * k.in[c] : 0.0)));
    eqAll(host(k.phi->internalField()), want, "every cell changes by the balance of its faces and its source");
    auto bv = host(k.phi->boundaryField().value());
    for (size_t b = 0; b < k.t.nBnd; b++) eq(bv[b], k.wall(b, want), "the boundary follows its condition");
    sym_assert(k.rec.calls == 0, "a forward step needs no solver");
    sym_reach("end");
}
// implicit transport: the system of a step is the balance of the new state
ENTRY(c36_backward)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    Case k(e, smallTopo(2, 1, TIER(1, 2)), "upwind");
    auto sv = symScalars("source", k.t.nCells), hv = symScalars("heat", k.t.nCells);
    auto src = mkVol<scalar>(e, k.m, "S", sv);
    auto heat = mkVol<scalar>(e, k.m, "Q", hv);
    double dt = sym_f64("dt"), kd = sym_f64("kd"), kl = sym_f64("kl");
    sym_assume(dt > 0);
    int terms = (int)sym_choose("terms", 1, 15);
    backward(k, dt, [&](auto& x)
        {
            if (terms & 1) x.addOperator(kd * dsl::imp::div(*k.flux, *k.phi));
            if (terms & 2) x.addOperator(kl * dsl::imp::laplacian(*k.gamma, *k.phi));
            if (terms & 4) x.addOperator(dsl::imp::source(src, *k.phi));
            if (terms & 8) x.addOperator(dsl::exp::source(heat, *k.phi));
        });
    // the residual of any state
    auto y = symScalars("state", k.t.nCells);
    auto out = k.outflow(y, true, terms & 1 ? kd : 0.0, terms & 2 ? kl : 0.0);
    for (size_t c = 0; c < k.t.nCells; c++)
    {
        double r = -k.rec.b[c];
        for (size_t j = 0; j < k.t.nCells; j++) r += k.rec.a[c][j] * y[j];
        double v = k.g.vol[c];
        double want = v / dt * (y[c] - k.in[c]) + out[c];
        if (terms & 4) want += v * sv[c] * y[c];
        if (terms & 8) want += v * hv[c] * k.in[c];
        eq(r, want, "the system is the balance of the new state");
    }
    sym_reach("end");
}
// without boundary faces nothing is lost or created
ENTRY(c36_conserved)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    bool up = sym_choose("scheme", 0, 1), back = sym_choose("implicit", 0, 1);
    size_t n = (size_t)sym_choose("cells", 2, back || up ? TIER(2, 3) : 3);
    Case k(e, symTopo(n, n - 1, 0), up ? "upwind" : "linear");
    double dt = sym_f64("dt"), kd = sym_f64("kd"), kl = sym_f64("kl");
    sym_assume(dt > 0);
    if (!back)
    {
        forward(k, dt, [&](auto& x)
            {
                x.addOperator(kd * dsl::exp::div(*k.flux, *k.phi));
                x.addOperator(kl * diffusion(k));
            });
        auto got = host(k.phi->internalField());
        double before = 0, after = 0;
        for (size_t c = 0; c < n; c++)
        {
            before += k.g.vol[c] * k.in[c];
            after += k.g.vol[c] * got[c];
        }
        eq(after, before, "nothing is lost or created");
        sym_reach("explicit");
    }
    else
    {
        backward(k, dt, [&](auto& x)
            {
                x.addOperator(kd * dsl::imp::div(*k.flux, *k.phi));
                x.addOperator(kl * dsl::imp::laplacian(*k.gamma, *k.phi));
            });
        // the sum of the equations is the change of the total
        double b = 0, before = 0;
        for (size_t j = 0; j < n; j++)
        {
            double col = 0;
            for (size_t c = 0; c < n; c++) col += k.rec.a[c][j];
            eq(col, k.g.vol[j] / dt, "every solution keeps the total");
            b += k.rec.b[j];
            before += k.g.vol[j] / dt * k.in[j];
        }
        eq(b, before, "every solution keeps the total");
        sym_reach("implicit");
    }
}
// the entries of the system are where its operators put them
ENTRY(c36_diffused)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    Case k(e, symTopo(3, 2, 0), "upwind", true);
    double dt = 0.5;
    backward(k, dt, [&](auto& x) { x.addOperator(dsl::imp::laplacian(*k.gamma, *k.phi)); });
    auto y = symScalars("state", 3);
    auto out = k.outflow(y, true, 0.0, 1.0);
    for (size_t c = 0; c < 3; c++)
    {
        double r = -k.rec.b[c];
        for (size_t j = 0; j < 3; j++) r += k.rec.a[c][j] * y[j];
        eq(r, k.g.vol[c] / dt * (y[c] - k.in[c]) + out[c], "the system is the balance of the new state");
    }
    sym_reach("end");
}
// upwind transport and diffusion create no new extremes
ENTRY(c36_bounded)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    bool back = sym_choose("implicit", 0, 1);
    Case k(e, smallTopo(2, 1, 2, 1), "upwind", true, true, !back);
    k.divergenceFree();
    double lo = sym_f64("lo"), hi = sym_f64("hi");
    for (auto x : k.in) sym_assume(lo <= x && x <= hi);
    sym_assume(lo <= k.bc && k.bc <= hi);
    size_t n = k.t.nCells;
    if (!back)
    {
        // no cell is emptied in a step
        std::vector<double> out(n, 0.0);
        for (size_t f = 0; f < k.t.nInt; f++)
        {
            if (k.fl[f] >= 0) out[(size_t)k.t.own[f]] += k.fl[f];
            else out[(size_t)k.t.nei[f]] -= k.fl[f];
        }
        // what leaves through the boundary carries the boundary's value
        for (size_t b = 0; b < k.t.nBnd; b++) sym_assume(k.fl[k.t.nInt + b] <= 0);
        for (auto x : out) sym_assume(x <= 1);
        forward(k, 1.0, [&](auto& x) { x.addOperator(dsl::exp::div(*k.flux, *k.phi)); });
        for (auto x : host(k.phi->internalField())) sym_assert(lo <= x && x <= hi, "a step within the limit creates no new extreme");
        sym_reach("explicit");
    }
    else
    {
        double dt = sym_f64("dt");
        sym_assume(dt > 0);
        for (size_t b = 0; b < k.t.nBnd; b++) sym_assume(k.fl[k.t.nInt + b] <= 0);
        backward(k, dt, [&](auto& x)
            {
                x.addOperator(dsl::imp::div(*k.flux, *k.phi));
                x.addOperator(-1.0 * dsl::imp::laplacian(*k.gamma, *k.phi));
            });
        for (size_t c = 0; c < n; c++)
        {
            double row = 0;
            for (size_t j = 0; j < n; j++)
            {
                row += k.rec.a[c][j];
                if (j != c) sym_assert(k.rec.a[c][j] <= 0, "a higher neighbour never lowers a cell");
            }
            sym_assert(row > 0, "the system is diagonally dominant");
            sym_assert(k.rec.b[c] <= hi * row && k.rec.b[c] >= lo * row, "a solution creates no new extreme");
        }
        sym_reach("implicit");
    }
}
// a uniform state stays uniform
ENTRY(c36_uniform)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    bool up = sym_choose("scheme", 0, 1), back = sym_choose("implicit", 0, 1);
    Case k(e, smallTopo(2, TIER(1, 2), 2), up ? "upwind" : "linear", false, true);
    k.divergenceFree();
    k.in.assign(k.t.nCells, k.bc);
    double dt = sym_f64("dt"), kd = sym_f64("kd"), kl = sym_f64("kl");
    sym_assume(dt > 0);
    if (!back)
    {
        forward(k, dt, [&](auto& x)
            {
                x.addOperator(kd * dsl::exp::div(*k.flux, *k.phi));
                x.addOperator(kl * diffusion(k));
            });
        for (auto x : host(k.phi->internalField())) eq(x, k.bc, "a uniform state stays uniform");
        sym_reach("explicit");
    }
    else
    {
        backward(k, dt, [&](auto& x)
            {
                x.addOperator(kd * dsl::imp::div(*k.flux, *k.phi));
                x.addOperator(kl * dsl::imp::laplacian(*k.gamma, *k.phi));
            });
        for (size_t c = 0; c < k.t.nCells; c++)
        {
            double row = 0;
            for (auto a : k.rec.a[c]) row += a;
            eq(k.rec.b[c], row * k.bc, "a uniform state solves its system");
        }
        sym_reach("implicit");
    }
}

// Time integration by the Runge-Kutta integrator.
#include "C25_solve.cpp"
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
namespace
{
struct RkWorld : World
{
    Dictionary ddt;
    RkWorld(const Executor& e, const std::string& method) : World(e, smallTopo(2, 1, 1, 1))
    {
        ddt.insert("type", std::string("Runge-Kutta"));
        ddt.insert("Runge-Kutta-Method", method);
        schemes.insert("ddtSchemes", ddt);
    }
};
void expectStep(Vol& f, std::vector<scalar>& want, const Terms& k, double dt)
{
    for (size_t i = 0; i < want.size(); i++) want[i] = want[i] - dt * (k.e[i] + k.slope * want[i]);
    eqAll(host(f.internalField()), want, "a step follows the rate of change at its start");
    eqAll(host(fvcc::oldTime(f).internalField()), want, "the old state is the state before the next step");
}
}
ENTRY(c27_steps)
{
    Executor e = symExec();
    sym_sched_mode(1);
    RkWorld w(e, "Forward-Euler");
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    auto k = w.terms(f, x, 0, TIER(2, 3));
    std::vector<scalar> want = in;
    double time = sym_f64("t");
    for (int s = 0; s < 2; s++)
    {
        double dt = sym_f64("dt");
        sym_assume(dt > 0);
        dsl::solve(x, f, time, dt, w.schemes, w.solution);
        expectStep(f, want, k, dt);
        time += dt;
    }
    sym_assert(w.rec.calls == 0, "an explicit step needs no solver");
    sym_assert(nfSunContexts == 0 && nfSunIntegrators == 0, "nothing of an integrator outlives it");
    sym_reach("end");
}
// one integrator for several steps; between them the state, the equation and the time may change
ENTRY(c27_reused)
{
    Executor e = symExec();
    sym_sched_mode(1);
    RkWorld w(e, "Forward-Euler");
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    {
        NF::timeIntegration::TimeIntegration<Vol> ti(w.ddt, w.solution);
        std::vector<scalar> want = in;
        double time = sym_f64("t");
        dsl::Expression<scalar> x(e), x2(e);
        auto k = w.terms(f, x, 0, 1), k2 = k;
        bool other = sym_choose("otherEquation", 0, 1);
        if (other) k2 = w.terms(f, x2, 0, 1);
        for (int s = 0; s < TIER(2, 3); s++)
        {
            double dt = sym_f64("dt");
            sym_assume(dt > 0);
            if (s > 0)
            {
                if (sym_choose("changed", 0, 1))
                {
                    want = symScalars("changed", w.t.nCells);
                    setField(f.internalField(), want);
                    setField(fvcc::oldTime(f).internalField(), want);
                }
                if (sym_choose("jump", 0, 1)) time = sym_f64("jumped");
            }
            ti.solve(s > 0 && other ? x2 : x, f, time, dt);
            expectStep(f, want, s > 0 ? k2 : k, dt);
            time += dt;
        }
    }
    sym_assert(nfSunContexts == 0 && nfSunIntegrators == 0, "nothing of an integrator outlives it");
    sym_reach("end");
}
// a copy integrates like the original, before and after its first step, also when that is gone
ENTRY(c27_copy)
{
    Executor e = symExec();
    sym_sched_mode(1);
    RkWorld w(e, "Forward-Euler");
    auto in = symScalars("cell", w.t.nCells);
    auto& f = w.field(in);
    std::vector<scalar> want = in;
    dsl::Expression<scalar> x(e);
    auto k = w.terms(f, x, 0, 1);
    double time = sym_f64("t"), dt = sym_f64("dt");
    sym_assume(dt > 0);
    auto ti = std::make_unique<NF::timeIntegration::TimeIntegration<Vol>>(w.ddt, w.solution);
    if (sym_choose("used", 0, 1))
    {
        ti->solve(x, f, time, dt);
        expectStep(f, want, k, dt);
        time += dt;
    }
    NF::timeIntegration::TimeIntegration<Vol> c(*ti);
    if (sym_choose("first", 0, 1))
    {
        ti->solve(x, f, time, dt);
        expectStep(f, want, k, dt);
        time += dt;
    }
    if (sym_choose("gone", 0, 1)) ti.reset();
    c.solve(x, f, time, dt);
    expectStep(f, want, k, dt);
    time += dt;
    if (ti)
    {
        ti->solve(x, f, time, dt);
        expectStep(f, want, k, dt);
    }
    sym_reach("end");
}
ENTRY(c27_refuse)
{
    Executor e = symExec();
    int n = (int)sym_choose("method", 0, 3);
    RkWorld w(e, n == 0 ? "Heun" : n == 1 ? "Midpoint" : n == 2 ? "" : symText("method", 2));
    auto& f = w.field(symScalars("cell", w.t.nCells));
    dsl::Expression<scalar> x(e);
    x.addOperator(dsl::TemporalOperator<scalar>(dsl::imp::ddt(f)));
    sym_expect_termination(2, "refused");
    dsl::solve(x, f, 0.0, 1.0, w.schemes, w.solution);
    sym_assert(false, "a method that is not supported is refused");
}

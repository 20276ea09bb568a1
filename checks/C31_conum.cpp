// Courant number.
#include "inc/fvfield.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
namespace
{
double absolute(double x) { return x < 0 ? -x : x; }
void check(const Executor& e, const Topo& t)
{
    auto m = mkMesh(e, t, plainGeo(t));
    auto g = plainGeo(t);
    g.vol = symScalars("vol", t.nCells);
    for (auto v : g.vol) sym_assume(v > 0);
    lateGeo(m, g);
    auto flux = symSigned("flux", t.nFaces());
    auto f = mkSurf<scalar>(e, m, "flux", flux);
    double dt = sym_f64("dt");
    sym_assume(dt > 0);
    double co = fvcc::computeCoNum(f, dt);
    std::vector<double> sum(t.nCells, 0.0);
    for (size_t i = 0; i < t.nInt; i++)
    {
        sum[(size_t)t.own[i]] += absolute(flux[i]);
        sum[(size_t)t.nei[i]] += absolute(flux[i]);
    }
    for (size_t i = 0; i < t.nBnd; i++) sum[(size_t)t.fc[i]] += absolute(flux[t.nInt + i]);
    double want = 0.0;
    for (size_t c = 0; c < t.nCells; c++)
    {
        double x = sum[c] / g.vol[c];
        if (x > want) want = x;
    }
    eq(co, want * 0.5 * dt, "the Courant number is half the largest sum of absolute fluxes per volume times the step");
    eqAll(host(f.internalField()), flux, "the fluxes stay as they are");
    eqAll(host(m.cellVolumes()), g.vol, "the volumes stay as they are");
    sym_reach("end");
}
}
ENTRY(c31_mesh)
{
    Executor e = symExec();
    check(e, smallTopo(TIER(2, 3), 2, TIER(1, 2)));
}
ENTRY(c31_boundary)
{ // several boundary faces of a cell
    Executor e = symExec();
    auto t = symTopo((size_t)sym_choose("nCells", 1, 2), 0, 2);
    check(e, t);
}
ENTRY(c31_interleaved)
{
    Executor e = NF::CPUExecutor {};
    sym_sched_mode(3 | 16);
    auto t = symTopo(2, TIER(2, 2), TIER(1, 2));
    check(e, t);
}
ENTRY(c31_splits)
{ // reductions split at any place, kernels in any order
    Executor e = NF::CPUExecutor {};
    sym_sched_mode(1);
    Topo t;
    t.nCells = 3;
    t.nInt = 1;
    t.nBnd = TIER(0, 1);
    t.own = {0};
    t.nei = {(int)sym_choose("neighbour", 1, 2)};
    if (t.nBnd) t.fc = {2};
    t.offset = {0, (localIdx)t.nBnd};
    check(e, t);
}
// 300 cells, internal and boundary faces: positions beyond the small integer types
ENTRY(c31_long)
{
    Executor e = symExec("exec", 0, 1);
    longMode() = true;
    check(e, longTopo());
}

// Geometry scheme: interpolation weights and distance coefficients of any mesh geometry.
#include "inc/fvmesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#include <optional>
namespace
{
double dot(const Vector& a, const Vector& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
Vector minus(const Vector& a, const Vector& b) { return Vector(a[0] - b[0], a[1] - b[1], a[2] - b[2]); }
double absOf(double x) { return x < 0 ? -x : x; }
}
ENTRY(c17_weights)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = symTopo((size_t)sym_choose("nCells", 2, TIER(2, 3)), (size_t)sym_choose("nInternal", 1, TIER(1, 2)), 1);
    auto g = symGeo(t);
    auto m = mkMesh(e, t, g);
    fvcc::GeometryScheme gs(m);
    auto w = host(gs.weights().internalField());
    sym_assert(w.size() == t.nFaces(), "one weight per face");
    for (size_t f = 0; f < t.nInt; f++)
    {
        double a = absOf(dot(g.sf[f], minus(g.cf[f], g.cc[(size_t)t.own[f]])));
        double b = absOf(dot(g.sf[f], minus(g.cc[(size_t)t.nei[f]], g.cf[f])));
        if (a + b > NF::ROOTVSMALL) eq(w[f] * (a + b), b, "the weight of a face is the share of the distance to the neighbour");
        else eq(w[f], 0.5, "without a distance both sides count the same");
    }
    for (size_t f = t.nInt; f < t.nFaces(); f++) eq(w[f], 1.0, "boundary faces take the boundary value");
    sym_reach("end");
}
ENTRY(c17_delta)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = symTopo((size_t)sym_choose("nCells", 2, TIER(2, 3)), (size_t)sym_choose("nInternal", 0, TIER(1, 2)), 1);
    auto g = symGeo(t);
    // the face of a cell does not pass through a cell centre
    std::vector<Vector> d;
    std::vector<double> l2;
    for (size_t f = 0; f < t.nFaces(); f++)
    {
        d.push_back(f < t.nInt ? minus(g.cc[(size_t)t.nei[f]], g.cc[(size_t)t.own[f]]) : minus(g.cf[f], g.cc[(size_t)t.fc[f - t.nInt]]));
        l2.push_back(dot(d[f], d[f]));
        sym_assume(l2[f] > 0);
    }
    auto m = mkMesh(e, t, g);
    fvcc::GeometryScheme gs(m);
    auto dc = host(gs.deltaCoeffs().internalField());
    auto nd = host(gs.nonOrthDeltaCoeffs().internalField());
    sym_assert(dc.size() == t.nFaces() && nd.size() == t.nFaces(), "one coefficient per face");
    for (size_t f = 0; f < t.nFaces(); f++)
    {
        // mag() itself is decided by C32
        double len = mag(d[f]);
        eq(dc[f] * len, 1.0, "the distance coefficient is the inverse distance of the cell centres");
        double o = dot(g.sf[f], d[f]) / g.magSf[f];
        double lim = 0.05 * len;
        eq(nd[f] * (o > lim ? o : lim), 1.0, "the non-orthogonal coefficient is the inverse distance along the face normal, limited");
    }
    sym_reach("end");
}
// cells and faces along one axis, in any order and orientation
ENTRY(c17_axis)
{
    Executor e = symExec();
    sym_sched_mode(1 | 16);
    auto t = symTopo(2, 1, 1);
    auto g = symGeo(t);
    size_t ax = (size_t)sym_choose("axis", 0, 2);
    auto along = [&](const char* n) { Vector v(0.0, 0.0, 0.0); v[ax] = sym_f64(n); return v; };
    std::vector<double> area;
    for (size_t f = 0; f < 2; f++)
    {
        double a = sym_f64("area");
        sym_assume(a > 0);
        bool flip = sym_choose("flip", 0, 1);
        g.magSf[f] = a;
        g.sf[f] = Vector(0.0, 0.0, 0.0);
        g.sf[f][ax] = flip ? -a : a;
        g.cf[f] = along("cf");
    }
    for (auto& c : g.cc) c = along("cc");
    g.bCf = {g.cf[1]};
    g.bSf = {g.sf[1]};
    g.bMagSf = {g.magSf[1]};
    g.bCn = {g.cc[(size_t)t.fc[0]]};
    std::vector<double> d;
    for (size_t f = 0; f < 2; f++)
    {
        d.push_back(f < t.nInt ? g.cc[(size_t)t.nei[f]][ax] - g.cc[(size_t)t.own[f]][ax] : g.cf[f][ax] - g.cc[(size_t)t.fc[f - t.nInt]][ax]);
        sym_assume(d[f] != 0);
    }
    auto m = mkMesh(e, t, g);
    fvcc::GeometryScheme gs(m);
    auto w = host(gs.weights().internalField());
    auto dc = host(gs.deltaCoeffs().internalField());
    auto nd = host(gs.nonOrthDeltaCoeffs().internalField());
    double p = absOf(g.cf[0][ax] - g.cc[(size_t)t.own[0]][ax]), q = absOf(g.cc[(size_t)t.nei[0]][ax] - g.cf[0][ax]);
    if ((p + q) * g.magSf[0] > NF::ROOTVSMALL) eq(w[0] * (p + q), q, "the weight of a face is the share of the distance to the neighbour");
    for (size_t f = 0; f < 2; f++)
    {
        eq(dc[f] * absOf(d[f]), 1.0, "the distance coefficient is the inverse distance of the cell centres");
        bool outward = (g.sf[f][ax] > 0) == (d[f] > 0);
        eq(nd[f] * absOf(d[f]) * (outward ? 1.0 : 0.05), 1.0, "the non-orthogonal coefficient is the inverse distance along the face normal, limited");
    }
    sym_reach("end");
}
// skewed and non-orthogonal faces: given directions, any distances
ENTRY(c17_skew)
{
    Executor e = symExec("exec", 0, 1);
    const Vector dirs[3] = {Vector(1.0, 0.0, 0.0), Vector(2.0, -2.0, 1.0), Vector(0.0, 3.0, 4.0)};
    const double dirLen[3] = {1.0, 3.0, 5.0};
    const Vector ways[3] = {Vector(3.0, 4.0, 0.0), Vector(1.0, 2.0, 2.0), Vector(2.0, -6.0, 3.0)};
    const double wayLen[3] = {5.0, 3.0, 7.0};
    const Vector offs[4] = {Vector(0.5, 0.25, -1.0), Vector(-1.0, 2.0, 0.0), Vector(0.0, 0.0, 1.0), Vector(1.0, 1.0, 1.0)};
    size_t di = (size_t)sym_choose("area", 0, 2), wi = (size_t)sym_choose("way", 0, 2), ui = (size_t)sym_choose("place", 0, 3);
    auto axpy = [](const Vector& a, double x, const Vector& b) { return Vector(a[0] + x * b[0], a[1] + x * b[1], a[2] + x * b[2]); };
    Topo t;
    t.nCells = 2;
    t.nInt = 1;
    t.nBnd = 1;
    t.own = {0};
    t.nei = {1};
    t.fc = {(int)sym_choose("faceCell", 0, 1)};
    t.offset = {0, 1};
    double r = sym_f64("r"), p = sym_f64("p"), q = sym_f64("q"), big = (double)sym_choose("size", 1, 2);
    sym_assume((r > 0.001) & (q > 0.001) & (r < 1000) & (q < 1000) & (p > -1000) & (p < 1000));
    Geo g = plainGeo(t);
    g.cc[0] = Vector(1.0, -2.0, 0.5);
    g.cc[1] = axpy(g.cc[0], r, ways[wi]);
    g.cf[0] = axpy(g.cc[0], p, offs[ui]);
    g.cf[1] = axpy(g.cc[(size_t)t.fc[0]], q, ways[(wi + 1) % 3]);
    g.bCf = {g.cf[1]};
    for (size_t f = 0; f < 2; f++)
    {
        g.sf[f] = axpy(Vector(0.0, 0.0, 0.0), big, dirs[(di + f) % 3]);
        g.magSf[f] = big * dirLen[(di + f) % 3];
    }
    g.bSf = {g.sf[1]};
    g.bMagSf = {g.magSf[1]};
    g.bCn = {g.cc[(size_t)t.fc[0]]};
    auto m = mkMesh(e, t, g);
    fvcc::GeometryScheme gs(m);
    auto w = host(gs.weights().internalField());
    auto dc = host(gs.deltaCoeffs().internalField());
    auto nd = host(gs.nonOrthDeltaCoeffs().internalField());
    double a = absOf(dot(g.sf[0], minus(g.cf[0], g.cc[0]))), b = absOf(dot(g.sf[0], minus(g.cc[1], g.cf[0])));
    if (a + b > NF::ROOTVSMALL) eq(w[0] * (a + b), b, "the weight of a face is the share of the distance to the neighbour");
    else eq(w[0], 0.5, "without a distance both sides count the same");
    eq(w[1], 1.0, "boundary faces take the boundary value");
    for (size_t f = 0; f < 2; f++)
    {
        size_t k = (wi + f) % 3, d = (di + f) % 3;
        double len = (f ? q : r) * wayLen[k];
        eq(dc[f] * len, 1.0, "the distance coefficient is the inverse distance of the cell centres");
        double o = dot(dirs[d], ways[k]) / (dirLen[d] * wayLen[k]);
        eq(nd[f] * len * (o > 0.05 ? o : 0.05), 1.0, "the non-orthogonal coefficient is the inverse distance along the face normal, limited");
    }
    sym_reach("end");
}
ENTRY(c17_cached)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t)), m2 = mkMesh(e, t, plainGeo(t));
    auto a = fvcc::GeometryScheme::readOrCreate(m), b = fvcc::GeometryScheme::readOrCreate(m), c = fvcc::GeometryScheme::readOrCreate(m2);
    sym_assert(a && a.get() == b.get(), "the geometry of a mesh is computed once");
    sym_assert(c && c.get() != a.get(), "different meshes have different geometry");
    sym_assert(a->name() == "GeometryScheme" && a->weights().exec() == e && &a->weights().mesh() == &m && &c->deltaCoeffs().mesh() == &m2, "geometry belongs to its mesh");
    fvcc::GeometryScheme k(e, m, std::make_unique<fvcc::BasicGeometryScheme>(m));
    eqAll(host(k.weights().internalField()), host(a->weights().internalField()), "the same scheme gives the same weights");
    eqAll(host(k.deltaCoeffs().internalField()), host(a->deltaCoeffs().internalField()), "the same scheme gives the same coefficients");
    sym_assert(k.nonOrthCorrectionVectors().exec() == e && &k.nonOrthCorrectionVectors().mesh() == &m && &k.nonOrthDeltaCoeffs().mesh() == &m, "geometry belongs to its mesh");
    k.update();
    eqAll(host(k.nonOrthDeltaCoeffs().internalField()), host(a->nonOrthDeltaCoeffs().internalField()), "updating gives the same coefficients");
    sym_expect_termination(2, "refused");
    fvcc::GeometryScheme bad(e, m, nullptr);
    sym_assert(false, "a geometry without scheme is refused");
}

// meshes one after another in the same place have the geometry they are given
ENTRY(c17_again)
{
    Executor e = symExec("exec", 0, 1);
    sym_sched_mode(1 | 16);
    std::optional<UnstructuredMesh> m;
    for (int r = 0; r < 3; r++)
    {
        Topo t;
        t.nCells = 2;
        t.nInt = 1;
        t.own = {r == 1};
        t.nei = {r != 1};
        t.nBnd = r == 2 ? 2 : 1;
        t.fc.assign(t.nBnd, 1);
        t.offset.assign(2, 0);
        t.offset[1] = (decltype(t.offset)::value_type)t.nBnd;
        auto g = plainGeo(t);
        double at = sym_f64("centre");
        sym_assume((at > 0.0) & (at < 1.0));
        g.cc = {Vector(0.0, 0.0, 0.0), Vector(1.0, 0.0, 0.0)};
        g.cf[0] = Vector(at, 0.0, 0.0);
        if (r == 1) g.sf[0] = Vector(-1.0, 0.0, 0.0);
        m.emplace(mkMesh(e, t, g));
        auto s = fvcc::GeometryScheme::readOrCreate(*m);
        auto w = host(s->weights().internalField());
        sym_assert(w.size() == t.nFaces() && host(s->deltaCoeffs().internalField()).size() == t.nFaces(), "one weight per face");
        eq(w[0], r == 1 ? at : 1.0 - at, "the weights are those of the mesh");
        s.reset();
        sym_assert(fvcc::GeometryScheme::readOrCreate(*m).get() == fvcc::GeometryScheme::readOrCreate(*m).get(), "geometry is computed once per mesh");
        eqAll(host(fvcc::GeometryScheme::readOrCreate(*m)->weights().internalField()), w, "the weights stay");
        m.reset();
    }
    sym_reach("end");
}

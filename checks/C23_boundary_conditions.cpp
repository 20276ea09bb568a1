// Boundary conditions: what a correction writes, and where.
#include "inc/fvfield.hpp"
namespace
{
template<class T> T one(const char* n);
template<> scalar one<scalar>(const char* n) { return sym_f64(n); }
template<> Vector one<Vector>(const char* n)
{
    auto v = symVals<Vector>(n, 1);
    return v[0];
}
const char* NAMES[] = {"calculated", "empty", "fixedValue", "fixedGradient", "extrapolated"};
template<class T> struct Patch
{
    int type;
    T v;
    Dictionary dict;
    Patch(int lo, int hi) : type((int)sym_choose("type", lo, hi)), v(zeroT(T()))
    {
        dict.insert("type", std::string(NAMES[type]));
        if (type == 2 || type == 3)
        {
            v = one<T>("bc");
            dict.insert(NAMES[type], v);
        }
    }
};
template<class T> void expectMixed(const Data<T>& was, const Data<T>& now, size_t b, const Patch<T>& p, const T& cell, double dc)
{
    if (p.type < 2)
    {
        eq(now.val[b], was.val[b], "a patch without a rule keeps its values");
        eq(now.refVal[b], was.refVal[b], "a patch without a rule keeps its reference values");
        eq(now.refGrad[b], was.refGrad[b], "a patch without a rule keeps its reference gradients");
        eq(now.vf[b], was.vf[b], "a patch without a rule keeps its fractions");
        return;
    }
    T want = p.type == 2 ? p.v : p.type == 3 ? T(cell + p.v * (1 / dc)) : cell;
    eq(now.val[b], want, "boundary value");
    if (p.type == 2)
    {
        eq(now.refVal[b], p.v, "the reference value is the fixed value");
        sym_assert(now.vf[b] == 1.0, "a fixed value counts fully");
    }
    else if (p.type == 3)
    {
        eq(now.refGrad[b], p.v, "the reference gradient is the fixed gradient");
        sym_assert(now.vf[b] == 0.0, "a fixed gradient counts fully");
    }
    else
        eq(now.refGrad[b], zeroT(T()), "no gradient where the value is extrapolated");
    T mixed = now.vf[b] * now.refVal[b] + (1.0 - now.vf[b]) * (cell + now.refGrad[b] * (1 / dc));
    eq(mixed, want, "fraction, reference value and gradient stand for the boundary value");
}
template<class T> Data<T> read(const fvcc::VolumeField<T>& f)
{
    Data<T> d;
    d.in = host(f.internalField());
    d.val = host(f.boundaryField().value());
    d.refVal = host(f.boundaryField().refValue());
    d.refGrad = host(f.boundaryField().refGrad());
    d.vf = host(f.boundaryField().valueFraction());
    return d;
}
template<class T> void same(const Data<T>& a, const Data<T>& b, const char* msg)
{
    eqAll(a.in, b.in, msg);
    eqAll(a.val, b.val, msg);
    eqAll(a.refVal, b.refVal, msg);
    eqAll(a.refGrad, b.refGrad, msg);
    eqAll(a.vf, b.vf, msg);
}
template<class T> void volume()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    auto t = symTopo(2, 1, (size_t)sym_choose("nBoundary", 0, TIER(2, 3)), (size_t)sym_choose("nPatches", 1, 2));
    auto g = plainGeo(t);
    g.bDeltaCoeffs = symScalars("deltaCoeff", t.nBnd);
    for (auto v : g.bDeltaCoeffs) sym_assume(v > 0);
    auto m = mkMesh(e, t, g);
    size_t n = t.offset.size() - 1;
    std::vector<Patch<T>> ps;
    for (size_t p = 0; p < n; p++) ps.emplace_back(longMode() && p > 1 ? (int)(p * 3 % 5) : 0, longMode() && p > 1 ? (int)(p * 3 % 5) : 4);
    std::vector<fvcc::VolumeBoundary<T>> bcs;
    for (size_t p = 0; p < n; p++) bcs.push_back(fvcc::VolumeBoundary<T>(m, ps[p].dict, p));
    for (size_t p = 0; p < n; p++)
    {
        sym_assert(bcs[p].patchID() == p && bcs[p].patchStart() == (label)t.offset[p] && bcs[p].patchEnd() == (label)t.offset[p + 1] && bcs[p].patchSize() == (size_t)(t.offset[p + 1] - t.offset[p]),
                   "a condition is about its patch");
        auto r = bcs[p].range();
        sym_assert(r.first == t.offset[p] && r.second == t.offset[p + 1], "a condition covers its patch");
    }
    auto d = symData<T>(t);
    fvcc::VolumeField<T> f(e, "f", m, bcs);
    sym_assert(f.name == "f" && f.exec() == e && &f.mesh() == &m && f.size() == t.nCells, "a field is what it was made as");
    sym_assert(!f.registered() && !f.hasDatabase(), "a plain field is in no database");
    setField(f.internalField(), d.in);
    setField(f.boundaryField().value(), d.val);
    setField(f.boundaryField().refValue(), d.refVal);
    setField(f.boundaryField().refGrad(), d.refGrad);
    setField(f.boundaryField().valueFraction(), d.vf);
    Data<T> now;
    int how = longMode() ? 0 : (int)sym_choose("form", 0, 3);
    if (how == 0)
    {
        f.correctBoundaryConditions();
        now = read(f);
    }
    else if (how == 1)
    {
        fvcc::VolumeField<T> c(f);
        sym_assert(c.name == "f" && c.exec() == e && &c.mesh() == &m, "a copy is a field of the same mesh");
        same(read(c), d, "a copy has the same contents");
        c.correctBoundaryConditions();
        same(read(f), d, "correcting a copy leaves the original as it is");
        now = read(c);
    }
    else if (how == 2)
    {
        fvcc::VolumeField<T> c(e, "g", m, f.internalField(), f.boundaryField(), f.boundaryConditions());
        same(read(c), d, "a field has the contents it was given");
        c.correctBoundaryConditions();
        now = read(c);
    }
    else
    {
        // patch by patch, on a bare domain field
        NF::DomainField<T> df(e, f.internalField(), f.boundaryField());
        for (auto& b : f.boundaryConditions()) b.correctBoundaryCondition(df);
        now.in = host(df.internalField());
        now.val = host(df.boundaryField().value());
        now.refVal = host(df.boundaryField().refValue());
        now.refGrad = host(df.boundaryField().refGrad());
        now.vf = host(df.boundaryField().valueFraction());
    }
    eqAll(now.in, d.in, "correcting the boundary leaves the cells as they are");
    sym_assert(now.val.size() == t.nBnd, "one value per boundary face");
    for (size_t p = 0; p < n; p++)
        for (size_t b = t.offset[p]; b < t.offset[p + 1]; b++) expectMixed(d, now, b, ps[p], d.in[(size_t)t.fc[b]], g.bDeltaCoeffs[b]);
    sym_reach("end");
}
template<class T> void surface()
{
    Executor e = symExec();
    sym_sched_mode(longMode() ? 0 : 1);
    auto t = symTopo(2, (size_t)sym_choose("nInternal", 0, 2), (size_t)sym_choose("nBoundary", 0, TIER(2, 3)), (size_t)sym_choose("nPatches", 1, 2));
    auto m = mkMesh(e, t, plainGeo(t));
    size_t n = t.offset.size() - 1;
    std::vector<Patch<T>> ps;
    for (size_t p = 0; p < n; p++) ps.emplace_back(longMode() && p > 1 ? (int)(p % 3) : 0, longMode() && p > 1 ? (int)(p % 3) : 2);
    std::vector<fvcc::SurfaceBoundary<T>> bcs;
    for (size_t p = 0; p < n; p++) bcs.push_back(fvcc::SurfaceBoundary<T>(m, ps[p].dict, p));
    for (size_t p = 0; p < n; p++)
        sym_assert(bcs[p].patchID() == p && bcs[p].patchStart() == (label)t.offset[p] && bcs[p].patchEnd() == (label)t.offset[p + 1], "a condition is about its patch");
    fvcc::SurfaceField<T> f(e, "f", m, bcs);
    sym_assert(f.name == "f" && f.exec() == e && &f.mesh() == &m && f.size() == t.nFaces(), "a face field has one value per face");
    auto in = symVals<T>("face", t.nFaces()), val = symVals<T>("bvalue", t.nBnd), ref = symVals<T>("refValue", t.nBnd);
    setField(f.internalField(), in);
    setField(f.boundaryField().value(), val);
    setField(f.boundaryField().refValue(), ref);
    fvcc::SurfaceField<T> c(f);
    bool copy = sym_choose("form", 0, 1);
    auto& u = copy ? c : f;
    u.correctBoundaryConditions();
    if (copy)
    {
        eqAll(host(f.internalField()), in, "correcting a copy leaves the original as it is");
        eqAll(host(f.boundaryField().value()), val, "correcting a copy leaves the original as it is");
    }
    auto hi = host(u.internalField()), hv = host(u.boundaryField().value()), hr = host(u.boundaryField().refValue());
    for (size_t i = 0; i < t.nInt; i++) eq(hi[i], in[i], "correcting the boundary leaves the internal faces as they are");
    for (size_t p = 0; p < n; p++)
        for (size_t b = t.offset[p]; b < t.offset[p + 1]; b++)
        {
            bool fix = ps[p].type == 2;
            eq(hv[b], fix ? ps[p].v : val[b], "boundary value");
            eq(hr[b], fix ? ps[p].v : ref[b], "reference value");
            eq(hi[t.nInt + b], fix ? ps[p].v : in[t.nInt + b], "value of the boundary face");
        }
    sym_reach("end");
}
}
ENTRY(c23_volume_scalar) { volume<scalar>(); }
ENTRY(c23_volume_vector) { volume<Vector>(); }
ENTRY(c23_surface_scalar) { surface<scalar>(); }
ENTRY(c23_surface_vector) { surface<Vector>(); }
// the same rule on every patch
ENTRY(c23_all)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 2, (size_t)sym_choose("nPatches", 1, 3));
    auto m = mkMesh(e, t, plainGeo(t));
    bool ex = sym_choose("extrapolated", 0, 1);
    auto bcs = ex ? fvcc::createExtrapolatedBCs<fvcc::VolumeBoundary<scalar>>(m) : fvcc::createCalculatedBCs<fvcc::VolumeBoundary<scalar>>(m);
    sym_assert(bcs.size() == t.offset.size() - 1, "one condition per patch");
    for (size_t p = 0; p < bcs.size(); p++) sym_assert(bcs[p].patchID() == p && bcs[p].patchStart() == (label)t.offset[p] && bcs[p].patchEnd() == (label)t.offset[p + 1], "a condition is about its patch");
    auto d = symData<scalar>(t);
    fvcc::VolumeField<scalar> f(e, "f", m, bcs);
    setField(f.internalField(), d.in);
    setField(f.boundaryField().value(), d.val);
    f.correctBoundaryConditions();
    auto h = host(f.boundaryField().value());
    for (size_t b = 0; b < t.nBnd; b++) eq(h[b], ex ? d.in[(size_t)t.fc[b]] : d.val[b], "boundary value");
    sym_reach("end");
}
ENTRY(c23_refuse)
{
    Executor e = symExec();
    auto t = symTopo(2, 1, 1);
    auto m = mkMesh(e, t, plainGeo(t));
    int what = (int)sym_choose("what", 0, 3);
    Dictionary d;
    if (what == 0)
    {
        d.insert("type", std::string("fixedValu"));
        sym_expect_termination(2, "refused");
        fvcc::VolumeBoundary<scalar> b(m, d, 0);
    }
    else if (what == 1)
    {
        d.insert("type", std::string("fixedGradient"));
        d.insert("fixedGradient", 1.0);
        sym_expect_termination(2, "refused");
        fvcc::SurfaceBoundary<scalar> b(m, d, 0);
    }
    else if (what == 2)
    {
        // a list of values as long as the mesh has cells is required
        size_t n = (size_t)sym_choose("n", 0, 3);
        auto bcs = fvcc::createCalculatedBCs<fvcc::VolumeBoundary<scalar>>(m);
        NF::BoundaryFields<scalar> bf(e, t.offset);
        Field<scalar> in(e, n, 1.0);
        if (n != 2) sym_expect_termination(2, "refused");
        fvcc::VolumeField<scalar> f(e, "f", m, in, bf, bcs);
        sym_assert(n == 2, "a field that does not fit the mesh is refused");
        sym_reach("fits");
        return;
    }
    else
    {
        // the value must be there and have the type of the field
        bool thrown = false;
        d.insert("type", std::string("fixedValue"));
        int k = (int)sym_choose("value", 0, 2);
        if (k == 1) d.insert("fixedValue", 1);
        if (k == 2) d.insert("fixedGradient", 1.0);
        try
        {
            fvcc::VolumeBoundary<scalar> b(m, d, 0);
        }
        catch (const std::exception&)
        {
            thrown = true;
        }
        sym_assert(thrown, "a condition without its value is refused");
        sym_reach("missing");
        return;
    }
    sym_assert(false, "an unknown condition is refused");
}
// 300 cells, hundreds of internal and boundary faces: positions beyond the small integer types
ENTRY(c23_long_volume)
{
    longMode() = true;
    volume<scalar>();
}
ENTRY(c23_long_surface)
{
    longMode() = true;
    surface<scalar>();
}

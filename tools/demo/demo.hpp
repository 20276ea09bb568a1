#pragma once
#include <cmath>
#include <cstdio>
#include <vector>
#include "NeoFOAM/fields/field.hpp"
#include "NeoFOAM/fields/fieldFreeFunctions.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
using namespace NeoFOAM;
static int bad = 0;
#define CHECK(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (false)
inline bool near(double a, double b) { return std::fabs(a - b) < 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
template<class T> std::vector<T> get(const Field<T>& f)
{
    auto h = f.copyToHost();
    auto v = h.view();
    return std::vector<T>(v.begin(), v.end());
}
struct Spec
{
    std::vector<double> vol;
    std::vector<int> own, nei, fc;
    std::vector<size_t> offset;
};
inline UnstructuredMesh meshOf(const Executor& e, Spec s, std::vector<double> bdc = {})
{
    size_t nc = s.vol.size(), ni = s.own.size(), nb = s.fc.size(), nf = ni + nb;
    std::vector<label> own(s.own.begin(), s.own.end()), nei(s.nei.begin(), s.nei.end()), fc(s.fc.begin(), s.fc.end());
    own.insert(own.end(), fc.begin(), fc.end());
    if (s.offset.empty()) s.offset = {0, nb};
    if (bdc.empty()) bdc.assign(nb, 2.0);
    std::vector<Vector> cc, cf, sf(nf, Vector(1.0, 0.0, 0.0)), b(nb, Vector(1.0, 0.0, 0.0));
    for (size_t i = 0; i < nc; i++) cc.push_back(Vector(double(i), 0.0, 0.0));
    for (size_t i = 0; i < nf; i++) cf.push_back(Vector(double(i) + 0.5, 0.0, 0.0));
    std::vector<double> ones(nf, 1.0), bo(nb, 1.0);
    std::vector<localIdx> off(s.offset.begin(), s.offset.end());
    BoundaryMesh bm(e, labelField(e, fc), vectorField(e, b), vectorField(e, b), vectorField(e, b), scalarField(e, bo), vectorField(e, b), vectorField(e, b), scalarField(e, bo), scalarField(e, bdc), off);
    return UnstructuredMesh(vectorField(e, b), scalarField(e, s.vol), vectorField(e, cc), vectorField(e, sf), vectorField(e, cf), scalarField(e, ones), labelField(e, own), labelField(e, nei), nc, ni, nb, off.size() - 1, nf, bm);
}

// The built-in meshes are closed, consistent finite-volume meshes.
#include "inc/fvmesh.hpp"
namespace
{
template<class T> std::vector<T> h(const Field<T>& f) { return host(f); }
// what every mesh has to fulfil; dim: extended directions of the mesh
void consistent(const UnstructuredMesh& m, const Executor& e, int dim)
{
    size_t n = m.nCells(), ni = m.nInternalFaces(), nb = m.nBoundaryFaces(), nf = m.nFaces();
    sym_assert(m.exec() == e, "a mesh lives on its executor");
    sym_assert(nf == ni + nb, "faces are internal or boundary faces");
    auto V = h(m.cellVolumes());
    auto C = h(m.cellCentres()), S = h(m.faceAreas()), Cf = h(m.faceCentres());
    auto mS = h(m.magFaceAreas());
    auto own = h(m.faceOwner()), nei = h(m.faceNeighbour());
    sym_assert(V.size() == n && C.size() == n, "one volume and centre per cell");
    sym_assert(S.size() == nf && Cf.size() == nf && mS.size() == nf && own.size() == nf, "one area, centre and owner per face");
    sym_assert(nei.size() == ni, "one neighbour per internal face");
    for (size_t f = 0; f < nf; f++)
    {
        sym_assert(own[f] >= 0 && (size_t)own[f] < n, "the owner of a face is a cell");
        if (f < ni) sym_assert(nei[f] > own[f] && (size_t)nei[f] < n, "the neighbour of a face is a later cell");
        eq(mS[f] * mS[f], S[f][0] * S[f][0] + S[f][1] * S[f][1] + S[f][2] * S[f][2], "magnitude of a face area");
        sym_assert(mS[f] > 0, "a face has an area");
        // the area vector points from the owner to the neighbour or out of the domain
        Vector d = f < ni ? C[(size_t)nei[f]] - C[(size_t)own[f]] : Cf[f] - C[(size_t)own[f]];
        sym_assert((S[f][0] * d[0] + S[f][1] * d[1] + S[f][2] * d[2]) > 0, "face areas point away from the owner");
    }
    for (size_t c = 0; c < n; c++)
    {
        double s[3] = {0, 0, 0}, g[3][3] = {};
        for (size_t f = 0; f < nf; f++)
        {
            double sg = 0;
            if ((size_t)own[f] == c) sg = 1;
            else if (f < ni && (size_t)nei[f] == c) sg = -1;
            for (size_t i = 0; i < 3; i++)
            {
                s[i] += sg * S[f][i];
                for (size_t j = 0; j < 3; j++) g[i][j] += sg * S[f][i] * Cf[f][j];
            }
        }
        sym_assert(V[c] > 0, "cells have a volume");
        for (int i = 0; i < 3; i++)
        {
            eq(s[i], 0.0, "the faces of a cell close it");
            for (int j = 0; j < 3; j++) if (i < dim && j < dim) eq(g[i][j], i == j ? V[c] : 0.0, "the faces of a cell enclose its volume");
        }
    }
    const auto& b = m.boundaryMesh();
    auto fc = h(b.faceCells());
    auto bCf = h(b.cf()), bCn = h(b.cn()), bS = h(b.sf()), bN = h(b.nf()), bD = h(b.delta());
    auto bM = h(b.magSf()), bW = h(b.weights()), bDc = h(b.deltaCoeffs());
    sym_assert(fc.size() == nb && bCf.size() == nb && bCn.size() == nb && bS.size() == nb && bN.size() == nb && bD.size() == nb && bM.size() == nb && bW.size() == nb && bDc.size() == nb,
               "one entry per boundary face");
    const auto& off = b.offset();
    sym_assert(off.size() == m.nBoundaries() + 1 && off.front() == 0 && off.back() == nb, "patches cover the boundary");
    for (size_t p = 0; p + 1 < off.size(); p++) sym_assert(off[p] <= off[p + 1], "patches are consecutive");
    for (size_t i = 0; i < nb; i++)
    {
        size_t f = ni + i, c = (size_t)fc[i];
        sym_assert(fc[i] == own[f], "cell of a boundary face");
        eq(bCf[i], Cf[f], "centre of a boundary face");
        eq(bS[i], S[f], "area of a boundary face");
        eq(bM[i], mS[f], "magnitude of the area of a boundary face");
        eq(bCn[i], C[c], "cell centre at a boundary face");
        eq(bD[i], Cf[f] - C[c], "distance vector of a boundary face");
        for (size_t k = 0; k < 3; k++) eq(bN[i][k] * mS[f], S[f][k], "unit normal of a boundary face");
        eq(bDc[i] * bDc[i] * (bD[i][0] * bD[i][0] + bD[i][1] * bD[i][1] + bD[i][2] * bD[i][2]), 1.0, "distance coefficient of a boundary face");
        sym_assert(bDc[i] > 0, "distance coefficients are positive");
        eq(bW[i], 1.0, "interpolation weight of a boundary face");
    }
}
}
ENTRY(c13_uniform)
{
    Executor e = symExec();
    sym_sched_mode(1);
    size_t n = (size_t)sym_choose("nCells", 1, TIER(6, 16));
    auto m = NF::create1DUniformMesh(e, n);
    consistent(m, e, 1);
    sym_assert(m.nCells() == n && m.nInternalFaces() == n - 1 && m.nBoundaryFaces() == 2 && m.nBoundaries() == 2, "sizes of the uniform mesh");
    auto V = h(m.cellVolumes());
    auto C = h(m.cellCentres()), P = h(m.points());
    double len = 0;
    for (size_t c = 0; c < n; c++)
    {
        eq(V[c] * (double)n, 1.0, "the cells of a uniform mesh are equal");
        eq(C[c][0] * (double)n, (double)c + 0.5, "centre of a cell of a uniform mesh");
        eq(C[c][1], 0.0, "centre of a cell of a uniform mesh");
        eq(C[c][2], 0.0, "centre of a cell of a uniform mesh");
        len += V[c];
    }
    eq(len, 1.0, "the cells cover the unit interval");
    sym_assert(P.size() == n + 1, "points of a uniform mesh");
    for (size_t i = 0; i + 1 < n; i++) eq(P[i][0] * (double)n, (double)(i + 1), "points of a uniform mesh");
    eq(P[n - 1][0], 0.0, "the left end of a uniform mesh");
    eq(P[n][0], 1.0, "the right end of a uniform mesh");
    auto bf = h(m.boundaryMesh().faceCells());
    sym_assert(bf[0] == 0 && (size_t)bf[1] == n - 1, "the ends of a uniform mesh are its patches");
    sym_reach("end");
}
ENTRY(c13_single)
{
    Executor e = symExec();
    auto m = NF::createSingleCellMesh(e);
    consistent(m, e, 2);
    sym_assert(m.nCells() == 1 && m.nInternalFaces() == 0 && m.nBoundaryFaces() == 4 && m.nBoundaries() == 4, "sizes of the single cell mesh");
    sym_reach("end");
}

// a long mesh: positions beyond the small integer types
ENTRY(c13_long)
{
    Executor e = symExec();
    size_t n = sym_choose("cells", 0, 1) ? 300 : TIER(33000, 66000);
    auto m = NF::create1DUniformMesh(e, n);
    sym_assert(m.nCells() == n && m.nInternalFaces() == n - 1 && m.nBoundaryFaces() == 2 && m.nBoundaries() == 2 && m.nFaces() == n + 1, "sizes of the uniform mesh");
    auto V = h(m.cellVolumes()), mS = h(m.magFaceAreas());
    auto C = h(m.cellCentres()), P = h(m.points()), S = h(m.faceAreas()), F = h(m.faceCentres());
    auto own = h(m.faceOwner()), nei = h(m.faceNeighbour());
    sym_assert(V.size() == n && C.size() == n && P.size() == n + 1 && S.size() == n + 1 && F.size() == n + 1 && mS.size() == n + 1 && own.size() == n + 1 && nei.size() == n - 1, "sizes of the uniform mesh");
    auto near = [](scalar a, scalar b) { return (a - b < 1e-9) & (b - a < 1e-9); };
    scalar dn = (scalar)n;
    for (size_t i = 0; i < n; i++)
    {
        sym_assert(near(V[i] * dn, 1.0), "the cells of a uniform mesh are equal");
        sym_assert(near(C[i][0] * dn, (scalar)i + 0.5), "centre of a cell of a uniform mesh");
    }
    for (size_t i = 0; i + 1 < n; i++)
    {
        sym_assert((size_t)own[i] == i && (size_t)nei[i] == i + 1, "the owner and neighbour of a face");
        sym_assert(near(F[i][0] * dn, (scalar)(i + 1)), "centre of a face of a uniform mesh");
        sym_assert(near(P[i][0] * dn, (scalar)(i + 1)), "points of a uniform mesh");
        sym_assert(S[i][0] == 1.0 && mS[i] == 1.0, "area of a face of a uniform mesh");
    }
    sym_assert(own[n - 1] == 0 && (size_t)own[n] == n - 1, "the ends of a uniform mesh are its patches");
    sym_assert(S[n - 1][0] == -1.0 && S[n][0] == 1.0 && mS[n - 1] == 1.0 && mS[n] == 1.0, "face areas point away from the owner");
    sym_assert(F[n - 1][0] == 0.0 && F[n][0] == 1.0 && P[n - 1][0] == 0.0 && P[n][0] == 1.0, "the ends of a uniform mesh");
    const auto& b = m.boundaryMesh();
    auto fc = h(b.faceCells());
    auto D = h(b.delta());
    auto dc = h(b.deltaCoeffs());
    sym_assert(fc[0] == 0 && (size_t)fc[1] == n - 1, "the ends of a uniform mesh are its patches");
    sym_assert(near(D[0][0] * dn, -0.5) && near(D[1][0] * dn, 0.5), "distance vector of a boundary face");
    sym_assert(near(dc[0] / dn, 2.0) && near(dc[1] / dn, 2.0), "distance coefficient of a boundary face");
    sym_reach("end");
}

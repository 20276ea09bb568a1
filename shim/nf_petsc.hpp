// Model of the PETSc parts that the PETSc back end uses (documented behaviour): sequential
// matrices and vectors assembled from coordinate lists, and a solver whose answer is the harness'.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstring>
#include <string>
#include <vector>
#include "sym.h"
using PetscInt = int;
using PetscCount = int64_t;
using PetscScalar = double;
using PetscErrorCode = int;
using MPI_Comm_nf = int;
enum InsertMode { NOT_SET_VALUES, INSERT_VALUES, ADD_VALUES };
#define PETSC_COMM_WORLD 1
#define PETSC_COMM_SELF 2
#define PETSC_DECIDE (-1)
#define VECKOKKOS "kokkos"
#define VECSEQ "seq"
#define MATAIJKOKKOS "aijkokkos"
#define MATSEQAIJ "seqaij"
#define PetscCallVoid(x) do { if ((x) != 0) return; } while (0)
struct NfVec
{
    int alive = 1;
    PetscInt n = -1;
    int space = -1; // of the values
    bool locked = false;
    std::vector<PetscInt> coo;
    double* data = nullptr;
};
struct NfMat
{
    int alive = 1;
    PetscInt rows = -1, cols = -1;
    int space = -1;
    std::vector<PetscInt> i, j;
    std::vector<double> v;
};
struct NfKsp { int alive = 1; NfMat *a = nullptr, *p = nullptr; };
using Vec = NfVec*;
using Mat = NfMat*;
using KSP = NfKsp*;
// what was solved, and the answer to give
struct NfPetsc
{
    int live = 0, initialised = 0, solves = 0;
    PetscInt rows = -1, cols = -1;
    std::vector<std::vector<double>> a;
    std::vector<double> b, answer;
};
inline NfPetsc nfPetsc;
inline PetscErrorCode PetscInitialize(int*, char***, const char*, const char*) { nfPetsc.initialised++; return 0; }
inline PetscErrorCode MatCreate(int, Mat* m) { sym_assert(nfPetsc.initialised > 0, "the library is initialised first"); *m = new NfMat; nfPetsc.live++; return 0; }
inline PetscErrorCode VecCreate(int, Vec* v) { sym_assert(nfPetsc.initialised > 0, "the library is initialised first"); *v = new NfVec; nfPetsc.live++; return 0; }
inline PetscErrorCode KSPCreate(int, KSP* k) { *k = new NfKsp; nfPetsc.live++; return 0; }
inline PetscErrorCode MatDestroy(Mat* m) { if (*m) { sym_assert((*m)->alive == 1, "a matrix is freed once"); (*m)->alive = 0; delete *m; nfPetsc.live--; } *m = nullptr; return 0; }
inline PetscErrorCode KSPDestroy(KSP* m) { if (*m) { sym_assert((*m)->alive == 1, "a solver is freed once"); (*m)->alive = 0; delete *m; nfPetsc.live--; } *m = nullptr; return 0; }
inline PetscErrorCode VecDestroy(Vec* m)
{
    if (*m)
    {
        sym_assert((*m)->alive == 1, "a vector is freed once");
        (*m)->alive = 0;
        if ((*m)->data) nfk_free((*m)->data, (*m)->space);
        delete *m;
        nfPetsc.live--;
    }
    *m = nullptr;
    return 0;
}
inline PetscErrorCode MatSetSizes(Mat m, PetscInt r, PetscInt c, PetscInt R, PetscInt C)
{
    m->rows = r == PETSC_DECIDE ? R : r;
    m->cols = c == PETSC_DECIDE ? C : c;
    return 0;
}
inline PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N) { v->n = n == PETSC_DECIDE ? N : n; return 0; }
inline void nfVecAlloc(Vec v)
{
    v->data = v->n > 0 ? static_cast<double*>(nfk_malloc((size_t)v->n * sizeof(double), v->space)) : nullptr;
    double z = 0.0;
    for (PetscInt i = 0; i < v->n; i++) nfk_memcpy(v->data + i, &z, sizeof(z));
}
inline PetscErrorCode VecSetType(Vec v, const char* t)
{
    v->space = std::strcmp(t, VECKOKKOS) == 0 ? 1 : 0;
    nfVecAlloc(v);
    return 0;
}
inline PetscErrorCode MatSetType(Mat m, const char* t) { m->space = std::strcmp(t, MATAIJKOKKOS) == 0 ? 1 : 0; return 0; }
inline PetscErrorCode VecDuplicate(Vec v, Vec* r)
{
    sym_assert(v->space >= 0, "a vector has a type before it is used");
    *r = new NfVec;
    nfPetsc.live++;
    (*r)->n = v->n;
    (*r)->space = v->space;
    nfVecAlloc(*r);
    return 0;
}
inline PetscErrorCode VecSetPreallocationCOO(Vec v, PetscCount n, const PetscInt i[])
{
    v->coo.clear();
    for (PetscCount k = 0; k < n; k++) v->coo.push_back(i[k]);
    return 0;
}
inline PetscErrorCode MatSetPreallocationCOO(Mat m, PetscCount n, PetscInt i[], PetscInt j[])
{
    sym_assert(m->space >= 0 && m->rows >= 0, "a matrix has a type and sizes before it is used");
    m->i.clear();
    m->j.clear();
    for (PetscCount k = 0; k < n; k++)
    {
        sym_assert(i[k] >= 0 && i[k] < m->rows && j[k] >= 0 && j[k] < m->cols, "an entry is inside the matrix");
        m->i.push_back(i[k]);
        m->j.push_back(j[k]);
    }
    return 0;
}
inline void nfFetch(double* d, const double* s, int space, size_t n)
{
    if (n) nfk_copy(d, 0, s, space, n * sizeof(double));
}
inline PetscErrorCode VecSetValuesCOO(Vec v, const PetscScalar* s, InsertMode mode)
{
    std::vector<double> in(v->coo.size()), d((size_t)v->n);
    nfFetch(in.data(), s, v->space, in.size());
    nfFetch(d.data(), v->data, v->space, d.size());
    if (mode == INSERT_VALUES)
        for (auto k : v->coo) d[(size_t)k] = 0.0;
    for (size_t k = 0; k < in.size(); k++) d[(size_t)v->coo[k]] += in[k];
    if (d.size()) nfk_copy(v->data, v->space, d.data(), 0, d.size() * sizeof(double));
    return 0;
}
inline PetscErrorCode MatSetValuesCOO(Mat m, const PetscScalar* s, InsertMode mode)
{
    std::vector<double> in(m->i.size());
    nfFetch(in.data(), s, m->space, in.size());
    if (m->v.size() != in.size()) m->v.assign(in.size(), 0.0);
    for (size_t k = 0; k < in.size(); k++) m->v[k] = mode == ADD_VALUES ? m->v[k] + in[k] : in[k];
    return 0;
}
inline PetscErrorCode KSPSetFromOptions(KSP) { return 0; }
inline PetscErrorCode KSPSetUp(KSP) { return 0; }
inline PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat p) { k->a = a; k->p = p; return 0; }
inline PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    sym_assert(k && k->alive == 1 && k->a && k->a->alive == 1 && k->a == k->p && b->alive == 1 && x->alive == 1, "solver, matrix and vectors are there");
    sym_assert(k->a->rows == k->a->cols && b->n == k->a->rows && x->n == k->a->cols, "sizes of a system agree");
    sym_assert(k->a->space == b->space && b->space == x->space, "matrix and vectors live in one space");
    nfPetsc.solves++;
    nfPetsc.rows = k->a->rows;
    nfPetsc.cols = k->a->cols;
    nfPetsc.a.assign((size_t)k->a->rows, std::vector<double>((size_t)k->a->cols, 0.0));
    for (size_t q = 0; q < k->a->i.size(); q++) nfPetsc.a[(size_t)k->a->i[q]][(size_t)k->a->j[q]] += k->a->v[q];
    nfPetsc.b.assign((size_t)b->n, 0.0);
    nfFetch(nfPetsc.b.data(), b->data, b->space, nfPetsc.b.size());
    sym_assert(nfPetsc.answer.size() == (size_t)x->n, "the answer has the size of the system");
    if (x->n) nfk_copy(x->data, x->space, nfPetsc.answer.data(), 0, (size_t)x->n * sizeof(double));
    return 0;
}
// a host copy of the values, kept until the vector is freed
inline PetscErrorCode VecGetArray(Vec v, PetscScalar** p)
{
    sym_assert(v->alive == 1, "a freed vector is not used");
    if (v->space == 0) { *p = v->data; return 0; }
    auto* h = new double[(size_t)v->n];
    nfFetch(h, v->data, v->space, (size_t)v->n);
    *p = h;
    return 0;
}
inline PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** p) { return VecGetArray(v, const_cast<PetscScalar**>(p)); }
inline PetscErrorCode VecRestoreArray(Vec v, PetscScalar** p)
{
    if (v->space != 0) { nfk_copy(v->data, v->space, *p, 0, (size_t)v->n * sizeof(double)); delete[] *p; }
    *p = nullptr;
    return 0;
}
inline PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** p)
{
    if (v->space != 0) delete[] *p;
    *p = nullptr;
    return 0;
}
enum PetscMemType { PETSC_MEMTYPE_HOST = 0, PETSC_MEMTYPE_DEVICE = 1, PETSC_MEMTYPE_KOKKOS = 1 };
inline PetscErrorCode VecGetArrayReadAndMemType(Vec v, const PetscScalar** p, PetscMemType* t) { *p = v->data; if (t) *t = (PetscMemType)v->space; return 0; }
inline PetscErrorCode VecRestoreArrayReadAndMemType(Vec, const PetscScalar** p) { *p = nullptr; return 0; }
inline PetscErrorCode VecGetArrayAndMemType(Vec v, PetscScalar** p, PetscMemType* t) { *p = v->data; if (t) *t = (PetscMemType)v->space; return 0; }
inline PetscErrorCode VecRestoreArrayAndMemType(Vec, PetscScalar** p) { *p = nullptr; return 0; }
inline PetscErrorCode VecGetSize(Vec v, PetscInt* n) { *n = v->n; return 0; }

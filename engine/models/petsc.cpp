// Model of the parts of PETSc used for assembly: matrices collect what is added to them, vectors are replicated on every process.
#include <petscmat.h>
#include <petscvec.h>
#include <petscis.h>
#include <mpi.h>
#include <cstring>
#include "vtmpi.h"
#include "vtpetsc.h"
MPI_Comm PETSC_COMM_WORLD = 0;
struct _p_Mat {
    bool world, sized, prealloc, zeroIgnored, rowOriented, assembled, pending, allocationError;
    int mode;
    PetscInt m, n, r0, c0, M, N;
    double* a;
    char* touched;
    PetscInt *d, *o;
};
struct _p_Vec {
    bool world, assembled, pending;
    int mode;
    PetscInt n, r0, N, k, cap;
    double* a;
    PetscInt* idx;
    double* val;
};
struct _p_IS {
    PetscInt n;
    PetscInt* x;
};
struct _p_PetscSF {
    bool all;
    PetscInt n;
    PetscInt *from, *to;
};
static void layout(bool world, PetscInt n, PetscInt& start, PetscInt& total) {
    start = 0;
    total = n;
    if (!world) return;
    int size, rank;
    MPI_Comm_size(PETSC_COMM_WORLD, &size);
    MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
    int all[8];
    MPI_Allgather(&n, 1, MPI_INT, all, 1, MPI_INT, PETSC_COMM_WORLD);
    total = 0;
    for (int r = 0; r < size; ++r) {
        if (r == rank) start = total;
        total += all[r];
    }
}
extern "C" {
PetscErrorCode PetscInitialized(PetscBool* b) { return *b = PETSC_TRUE, PETSC_SUCCESS; }
PetscErrorCode PetscError(MPI_Comm, int, const char*, const char*, PetscErrorCode, PetscErrorType, const char*, ...) { vt_misuse("PETSc error"); }
PetscErrorCode MatCreate(MPI_Comm c, Mat* A) {
    *A = new _p_Mat();
    memset(*A, 0, sizeof(_p_Mat));
    (*A)->world = c == PETSC_COMM_WORLD;
    (*A)->rowOriented = true;
    return PETSC_SUCCESS;
}
PetscErrorCode MatSetSizes(Mat A, PetscInt m, PetscInt n, PetscInt M, PetscInt N) {
    if (A->sized) vt_misuse("the size of a matrix is set twice");
    if (m < 0 || n < 0) vt_misuse("unknown local size of a matrix");
    A->sized = true;
    A->m = m;
    A->n = n;
    layout(A->world, m, A->r0, A->M);
    layout(A->world, n, A->c0, A->N);
    if ((M >= 0 && M != A->M) || (N >= 0 && N != A->N)) vt_misuse("local and global sizes of a matrix do not match");
    long k = (long)A->M * A->N;
    A->a = new double[k ? k : 1];
    A->touched = new char[k ? k : 1];
    for (long i = 0; i < k; ++i) A->a[i] = 0, A->touched[i] = 0;
    return PETSC_SUCCESS;
}
PetscErrorCode MatCreateSeqAIJ(MPI_Comm c, PetscInt m, PetscInt n, PetscInt nz, const PetscInt* nnz, Mat* A) {
    MatCreate(c, A);
    (*A)->world = false;
    MatSetSizes(*A, m, n, m, n);
    return MatSeqAIJSetPreallocation(*A, nz, nnz);
}
PetscErrorCode MatSetType(Mat, MatType) { return PETSC_SUCCESS; }
PetscErrorCode MatSetUp(Mat A) { return A->prealloc = true, PETSC_SUCCESS; }
PetscErrorCode MatSetFromOptions(Mat) { return PETSC_SUCCESS; }
static void prealloc(Mat A, PetscInt dz, const PetscInt* d, PetscInt oz, const PetscInt* o) {
    if (!A->sized) vt_misuse("preallocation of a matrix without size");
    A->prealloc = true;
    A->allocationError = true;
    A->d = new PetscInt[A->m + 1];
    A->o = new PetscInt[A->m + 1];
    for (PetscInt i = 0; i < A->m; ++i) {
        A->d[i] = d ? d[i] : dz;
        A->o[i] = o ? o[i] : oz;
    }
}
PetscErrorCode MatSeqAIJSetPreallocation(Mat A, PetscInt nz, const PetscInt* nnz) {
    int size;
    MPI_Comm_size(PETSC_COMM_WORLD, &size);
    if (!A->world || size == 1) prealloc(A, nz, nnz, 0, nullptr);
    return PETSC_SUCCESS;
}
PetscErrorCode MatMPIAIJSetPreallocation(Mat A, PetscInt dz, const PetscInt* d, PetscInt oz, const PetscInt* o) {
    int size;
    MPI_Comm_size(PETSC_COMM_WORLD, &size);
    if (A->world && size > 1) prealloc(A, dz, d, oz, o);
    return PETSC_SUCCESS;
}
PetscErrorCode MatXAIJSetPreallocation(Mat A, PetscInt, const PetscInt* d, const PetscInt* o, const PetscInt*, const PetscInt*) {
    prealloc(A, 0, d, 0, o);
    return PETSC_SUCCESS;
}
PetscErrorCode MatSetOption(Mat A, MatOption op, PetscBool f) {
    if (op == MAT_ROW_ORIENTED) A->rowOriented = f;
    if (op == MAT_IGNORE_ZERO_ENTRIES) A->zeroIgnored = f;
    if (op == MAT_NEW_NONZERO_ALLOCATION_ERR) A->allocationError = f;
    return PETSC_SUCCESS;
}
PetscErrorCode MatZeroEntries(Mat A) {
    if (A->pending) vt_misuse("a matrix is cleared while it is being assembled");
    long k = (long)A->M * A->N;
    for (long i = 0; i < k; ++i)
        if (A->touched[i]) A->a[i] = 0;
    A->assembled = true;
    return PETSC_SUCCESS;
}
PetscErrorCode MatSetValues(Mat A, PetscInt m, const PetscInt* r, PetscInt n, const PetscInt* c, const PetscScalar* v, InsertMode mode) {
    if (!A->prealloc) vt_misuse("values are set in a matrix without preallocation");
    if (A->pending && A->mode != mode) vt_misuse("values are added and inserted in the same assembly");
    A->mode = mode;
    A->pending = true;
    A->assembled = false;
    for (PetscInt i = 0; i < m; ++i)
        for (PetscInt j = 0; j < n; ++j) {
            if (r[i] < 0 || c[j] < 0) continue;
            if (r[i] >= A->M || c[j] >= A->N) vt_misuse("matrix entry out of range");
            long k = (long)r[i] * A->N + c[j];
            double x = v[A->rowOriented ? (long)i * n + j : (long)j * m + i];
            A->touched[k] = 1;
            if (mode == ADD_VALUES)
                A->a[k] = A->a[k] + x;
            else
                A->a[k] = x;
        }
    return PETSC_SUCCESS;
}
PetscErrorCode MatAssemblyBegin(Mat A, MatAssemblyType) {
    if (A->world) MPI_Barrier(PETSC_COMM_WORLD);
    return PETSC_SUCCESS;
}
PetscErrorCode MatAssemblyEnd(Mat A, MatAssemblyType t) {
    if (t == MAT_FINAL_ASSEMBLY) A->assembled = true;
    A->pending = false;
    return PETSC_SUCCESS;
}
PetscErrorCode MatDestroy(Mat* A) {
    delete *A;
    *A = nullptr;
    return PETSC_SUCCESS;
}
PetscErrorCode MatGetLocalSize(Mat A, PetscInt* m, PetscInt* n) { return *m = A->m, *n = A->n, PETSC_SUCCESS; }
PetscErrorCode MatGetSize(Mat A, PetscInt* m, PetscInt* n) { return *m = A->M, *n = A->N, PETSC_SUCCESS; }
PetscErrorCode MatGetOwnershipRange(Mat A, PetscInt* m, PetscInt* n) { return *m = A->r0, *n = A->r0 + A->m, PETSC_SUCCESS; }

static Vec newVec(bool world, PetscInt n) {
    Vec v = new _p_Vec();
    memset(v, 0, sizeof(_p_Vec));
    v->world = world;
    v->n = n;
    layout(world, n, v->r0, v->N);
    v->a = new double[v->N + 1];
    for (PetscInt i = 0; i < v->N; ++i) v->a[i] = 0;
    v->assembled = true;
    return v;
}
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec* v) { return *v = newVec(false, n), PETSC_SUCCESS; }
PetscErrorCode VecCreateMPI(MPI_Comm c, PetscInt n, PetscInt N, Vec* v) {
    *v = newVec(c == PETSC_COMM_WORLD, n);
    if (N >= 0 && N != (*v)->N) vt_misuse("local and global sizes of a vector do not match");
    return PETSC_SUCCESS;
}
PetscErrorCode VecDestroy(Vec* v) {
    delete *v;
    *v = nullptr;
    return PETSC_SUCCESS;
}
PetscErrorCode VecSet(Vec v, PetscScalar x) {
    if (v->k) vt_misuse("a vector is overwritten while it is being assembled");
    for (PetscInt i = 0; i < v->N; ++i) v->a[i] = x;
    return PETSC_SUCCESS;
}
PetscErrorCode VecZeroEntries(Vec v) { return VecSet(v, 0.0); }
PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt* x, const PetscScalar* y, InsertMode mode) {
    if (v->pending && v->mode != mode) vt_misuse("values are added and inserted in the same assembly");
    v->mode = mode;
    v->pending = true;
    v->assembled = false;
    for (PetscInt i = 0; i < n; ++i) {
        if (x[i] < 0) continue;
        if (x[i] >= v->N) vt_misuse("vector entry out of range");
        if (v->k == v->cap) {
            PetscInt c = v->cap ? 2 * v->cap : 64;
            PetscInt* ni = new PetscInt[c];
            double* nv = new double[c];
            for (PetscInt q = 0; q < v->k; ++q) ni[q] = v->idx[q], nv[q] = v->val[q];
            v->idx = ni;
            v->val = nv;
            v->cap = c;
        }
        v->idx[v->k] = x[i];
        v->val[v->k++] = y[i];
    }
    return PETSC_SUCCESS;
}
PetscErrorCode VecAssemblyBegin(Vec) { return PETSC_SUCCESS; }
PetscErrorCode VecAssemblyEnd(Vec v) {
    int size = 1;
    if (v->world) MPI_Comm_size(PETSC_COMM_WORLD, &size);
    int cnt[8] = {v->k}, mode[8], dis[8], my = v->pending ? v->mode : -1;
    mode[0] = my;
    if (v->world) {
        MPI_Allgather(&v->k, 1, MPI_INT, cnt, 1, MPI_INT, PETSC_COMM_WORLD);
        MPI_Allgather(&my, 1, MPI_INT, mode, 1, MPI_INT, PETSC_COMM_WORLD);
    }
    int total = 0, m = -1;
    for (int r = 0; r < size; ++r) {
        dis[r] = total;
        total += cnt[r];
        if (mode[r] >= 0) {
            if (m >= 0 && m != mode[r]) vt_misuse("some processes add and others insert values");
            m = mode[r];
        }
    }
    PetscInt* x = new PetscInt[total + 1];
    double* y = new double[total + 1];
    if (v->world) {
        MPI_Allgatherv(v->idx, v->k, MPI_INT, x, cnt, dis, MPI_INT, PETSC_COMM_WORLD);
        MPI_Allgatherv(v->val, v->k, MPI_DOUBLE, y, cnt, dis, MPI_DOUBLE, PETSC_COMM_WORLD);
    } else
        for (int i = 0; i < total; ++i) x[i] = v->idx[i], y[i] = v->val[i];
    for (int i = 0; i < total; ++i)
        if (m == ADD_VALUES)
            v->a[x[i]] = v->a[x[i]] + y[i];
        else
            v->a[x[i]] = y[i];
    v->k = 0;
    v->pending = false;
    v->assembled = true;
    return PETSC_SUCCESS;
}
PetscErrorCode VecGetArray(Vec v, PetscScalar** p) {
    if (!v->assembled) vt_misuse("a vector is read that is not assembled");
    return *p = v->a + v->r0, PETSC_SUCCESS;
}
PetscErrorCode VecRestoreArray(Vec, PetscScalar** p) { return *p = nullptr, PETSC_SUCCESS; }
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** p) { return VecGetArray(v, const_cast<PetscScalar**>(p)); }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar** p) { return *p = nullptr, PETSC_SUCCESS; }
PetscErrorCode VecGetSize(Vec v, PetscInt* n) { return *n = v->N, PETSC_SUCCESS; }
PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { return *n = v->n, PETSC_SUCCESS; }
PetscErrorCode VecGetOwnershipRange(Vec v, PetscInt* m, PetscInt* n) { return *m = v->r0, *n = v->r0 + v->n, PETSC_SUCCESS; }
PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt* x, PetscCopyMode, IS* s) {
    *s = new _p_IS();
    (*s)->n = n;
    (*s)->x = new PetscInt[n + 1];
    for (PetscInt i = 0; i < n; ++i) (*s)->x[i] = x[i];
    return PETSC_SUCCESS;
}
PetscErrorCode ISSort(IS s) {
    for (PetscInt i = 1; i < s->n; ++i)
        for (PetscInt j = i; j > 0 && s->x[j - 1] > s->x[j]; --j) {
            PetscInt t = s->x[j];
            s->x[j] = s->x[j - 1];
            s->x[j - 1] = t;
        }
    return PETSC_SUCCESS;
}
PetscErrorCode ISSortRemoveDups(IS s) {
    ISSort(s);
    PetscInt k = 0;
    for (PetscInt i = 0; i < s->n; ++i)
        if (!k || s->x[k - 1] != s->x[i]) s->x[k++] = s->x[i];
    s->n = k;
    return PETSC_SUCCESS;
}
PetscErrorCode ISDestroy(IS* s) {
    delete *s;
    *s = nullptr;
    return PETSC_SUCCESS;
}
PetscErrorCode VecScatterCreateToAll(Vec v, VecScatter* s, Vec* out) {
    if (out) *out = newVec(false, v->N);
    *s = new _p_PetscSF();
    (*s)->all = true;
    return PETSC_SUCCESS;
}
PetscErrorCode VecScatterCreate(Vec, IS a, Vec, IS b, VecScatter* s) {
    *s = new _p_PetscSF();
    (*s)->all = false;
    if (a && b && a->n != b->n) vt_misuse("scatter between index sets of different sizes");
    (*s)->all = !a && !b;
    (*s)->n = a ? a->n : b ? b->n : 0;
    (*s)->from = new PetscInt[(*s)->n + 1];
    (*s)->to = new PetscInt[(*s)->n + 1];
    for (PetscInt i = 0; i < (*s)->n; ++i) {
        (*s)->from[i] = a ? a->x[i] : i;
        (*s)->to[i] = b ? b->x[i] : i;
    }
    return PETSC_SUCCESS;
}
PetscErrorCode VecScatterBegin(VecScatter s, Vec x, Vec y, InsertMode m, ScatterMode d) {
    if (!x->assembled) vt_misuse("a vector is read that is not assembled");
    if (d & SCATTER_REVERSE) vt_misuse("unsupported scatter");
    if (x->world) MPI_Barrier(PETSC_COMM_WORLD);
    PetscInt n = s->all ? x->N : s->n;
    for (PetscInt i = 0; i < n; ++i) {
        PetscInt f = s->all ? i : s->from[i], t = s->all ? i : s->to[i];
        if (f < 0 || f >= x->N || t < 0 || t >= y->N) vt_misuse("scatter out of range");
        y->a[t] = m == ADD_VALUES ? y->a[t] + x->a[f] : x->a[f];
    }
    y->assembled = false;
    return PETSC_SUCCESS;
}
PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec y, InsertMode, ScatterMode) { return y->assembled = true, PETSC_SUCCESS; }
PetscErrorCode VecScatterDestroy(VecScatter* s) {
    delete *s;
    *s = nullptr;
    return PETSC_SUCCESS;
}
}
#include <petscksp.h>
struct _p_KSP {
    Mat A;
};
void (*vtpetsc::solve)(Mat, Vec, Vec) = nullptr;
static const char* reasons[40] = {"reason"};
extern "C" {
const char* const* KSPConvergedReasons = reasons;
PetscErrorCode MatScale(Mat A, PetscScalar s) {
    if (!A->assembled || A->pending) vt_misuse("a matrix is scaled before it is assembled");
    long k = (long)A->M * A->N;
    for (long i = 0; i < k; ++i)
        if (A->touched[i]) A->a[i] *= s;
    return PETSC_SUCCESS;
}
PetscErrorCode VecScale(Vec v, PetscScalar s) {
    if (!v->assembled || v->pending) vt_misuse("a vector is scaled before it is assembled");
    for (PetscInt i = 0; i < v->N; ++i) v->a[i] *= s;
    return PETSC_SUCCESS;
}
PetscErrorCode KSPCreate(MPI_Comm, KSP* k) {
    *k = new _p_KSP{nullptr};
    return PETSC_SUCCESS;
}
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetType(KSP, KSPType) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetInitialGuessNonzero(KSP, PetscBool) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetUp(KSP) { return PETSC_SUCCESS; }
PetscErrorCode KSPSetOperators(KSP k, Mat A, Mat) { return k->A = A, PETSC_SUCCESS; }
PetscErrorCode KSPSetFromOptions(KSP) { return PETSC_SUCCESS; }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) {
    if (!k->A) vt_misuse("a system without operator is solved");
    if (!k->A->assembled || k->A->pending) vt_misuse("a system is solved with a matrix that is not assembled");
    if (!b->assembled || b->pending) vt_misuse("a system is solved with a right-hand side that is not assembled");
    vtpetsc::solve(k->A, b, x);
    x->assembled = true;
    return PETSC_SUCCESS;
}
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason* r) { return *r = (KSPConvergedReason)0, PETSC_SUCCESS; }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt* n) { return *n = 1, PETSC_SUCCESS; }
PetscErrorCode KSPDestroy(KSP* k) { return *k = nullptr, PETSC_SUCCESS; }
}
void vtpetsc::emit(Mat A, long q) {
    vt_emit_i("A.size", q, 0, 0, A->m);
    vt_emit_i("A.size", q, 0, 1, A->n);
    vt_emit_i("A.size", q, 0, 2, A->assembled && !A->pending);
    vt_emit_i("A.size", q, 0, 3, A->allocationError);
    vt_emit_i("A.size", q, 0, 4, A->zeroIgnored);
    for (PetscInt i = 0; i < A->m; ++i) {
        vt_emit_i("A.nnz", q, A->r0 + i, 0, A->d[i]);
        vt_emit_i("A.nnz", q, A->r0 + i, 1, A->o[i]);
    }
    for (PetscInt i = 0; i < A->M; ++i)
        for (PetscInt j = 0; j < A->N; ++j)
            if (A->touched[(long)i * A->N + j]) vt_emit_d("A", q, i, j, A->a[(long)i * A->N + j]);
}
void vtpetsc::emit(Vec v, long q) {
    vt_emit_i("b.size", q, 0, 0, v->n);
    vt_emit_i("b.size", q, 0, 1, v->assembled);
    for (PetscInt i = 0; i < v->N; ++i) vt_emit_d("b", q, i, 0, v->a[i]);
}
void vtpetsc::set(Vec v, PetscInt i, double x) { v->a[i] = x; }

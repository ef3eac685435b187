// Specification models of the BLAS/LAPACK routines the analysed code calls.
// (row interchanges are chosen by the first entry not known to be zero: in exact arithmetic the solution,
// the inverse and P*L*U = A do not depend on that choice)
#include "vt.h"
namespace {
struct Z {
    double re, im;
};
inline double mul(double a, double b) { return a * b; }
inline double add(double a, double b) { return a + b; }
inline double sub(double a, double b) { return a - b; }
inline double div(double a, double b) { return a / b; }
inline double conj(double a) { return a; }
inline bool zero(double a) { return vt_decided(a == 0.0) == 1; }
inline Z mul(Z a, Z b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline Z add(Z a, Z b) { return {a.re + b.re, a.im + b.im}; }
inline Z sub(Z a, Z b) { return {a.re - b.re, a.im - b.im}; }
inline Z conj(Z a) { return {a.re, -a.im}; }
inline Z div(Z a, Z b) {
    double n = b.re * b.re + b.im * b.im;
    Z t = mul(a, conj(b));
    return {t.re / n, t.im / n};
}
inline bool zero(Z a) { return vt_decided(a.re == 0.0) == 1 && vt_decided(a.im == 0.0) == 1; }
inline void one(double& x) { x = 1; }
inline void one(Z& x) { x = Z{1, 0}; }
inline void nul(double& x) { x = 0; }
inline void nul(Z& x) { x = Z{0, 0}; }
template <class T>
T at(const T* A, int ld, char tr, int i, int j) {
    if (tr == 'N') return A[i + j * ld];
    T v = A[j + i * ld];
    return tr == 'C' ? conj(v) : v;
}
template <class T>
void gemv(char tr, int m, int n, T alpha, const T* A, int lda, const T* x, int incx, T beta, T* y, int incy) {
    int rows = tr == 'N' ? m : n, cols = tr == 'N' ? n : m;
    for (int i = 0; i < rows; ++i) {
        T s;
        nul(s);
        for (int j = 0; j < cols; ++j) s = add(s, mul(at(A, lda, tr, i, j), x[j * incx]));
        s = mul(alpha, s);
        y[i * incy] = zero(beta) ? s : add(s, mul(beta, y[i * incy]));
    }
}
template <class T>
void gemm(char ta, char tb, int m, int n, int k, T alpha, const T* A, int lda, const T* B, int ldb, T beta, T* C, int ldc) {
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            T s;
            nul(s);
            for (int l = 0; l < k; ++l) s = add(s, mul(at(A, lda, ta, i, l), at(B, ldb, tb, l, j)));
            s = mul(alpha, s);
            C[i + j * ldc] = zero(beta) ? s : add(s, mul(beta, C[i + j * ldc]));
        }
}
template <class T>
void axpy(int n, T a, const T* x, int incx, T* y, int incy) {
    for (int i = 0; i < n; ++i) y[i * incy] = add(y[i * incy], mul(a, x[i * incx]));
}
template <class T>
int getrf(int m, int n, T* A, int lda, int* piv) {
    int info = 0;
    for (int k = 0; k < m && k < n; ++k) {
        int p = k;
        while (p < m && zero(A[p + k * lda])) ++p;
        if (p == m) {
            piv[k] = k + 1;
            if (!info) info = k + 1;
            continue;
        }
        piv[k] = p + 1;
        if (p != k)
            for (int j = 0; j < n; ++j) {
                T t = A[p + j * lda];
                A[p + j * lda] = A[k + j * lda];
                A[k + j * lda] = t;
            }
        for (int i = k + 1; i < m; ++i) {
            T l = div(A[i + k * lda], A[k + k * lda]);
            A[i + k * lda] = l;
            for (int j = k + 1; j < n; ++j) A[i + j * lda] = sub(A[i + j * lda], mul(l, A[k + j * lda]));
        }
    }
    return info;
}
// determinant by cofactors of the rows r[0..n) and columns c[0..n): stays polynomial
template <class T>
T det(const T* A, int lda, const int* r, const int* c, int n) {
    if (n == 0) {
        T v;
        one(v);
        return v;
    }
    if (n == 1) return A[r[0] + c[0] * lda];
    T s;
    nul(s);
    int rr[16];
    for (int k = 0; k < n; ++k) {
        for (int i = 0, q = 0; i < n; ++i)
            if (i != k) rr[q++] = r[i];
        T a = A[r[k] + c[0] * lda];
        if (zero(a)) continue;
        T t = mul(a, det(A, lda, rr, c + 1, n - 1));
        s = k % 2 ? sub(s, t) : add(s, t);
    }
    return s;
}
template <class T>
int gesv(int n, int nrhs, T* A, int lda, int* piv, T* B, int ldb) {
    int id[16];
    for (int i = 0; i < n; ++i) id[i] = i;
    T d = det(A, lda, id, id, n);
    if (zero(d)) return n;
    // Cramer's rule
    T M[16 * 16], X[16];
    for (int q = 0; q < nrhs; ++q) {
        for (int k = 0; k < n; ++k) {
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) M[i + j * n] = j == k ? B[i + q * ldb] : A[i + j * lda];
            X[k] = div(det(M, n, id, id, n), d);
        }
        for (int i = 0; i < n; ++i) B[i + q * ldb] = X[i];
    }
    getrf(n, n, A, lda, piv);
    return 0;
}
template <class T>
int getri(int n, T* A, int lda, const int* piv) {
    // rebuild P*L*U and invert
    T F[16 * 16], I[16 * 16];
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            T s;
            nul(s);
            for (int k = 0; k <= i && k <= j; ++k) s = add(s, k == i ? A[k + j * lda] : mul(A[i + k * lda], A[k + j * lda]));
            F[i + j * n] = s;
        }
    for (int k = n - 1; k >= 0; --k)
        if (piv[k] - 1 != k)
            for (int j = 0; j < n; ++j) {
                T t = F[k + j * n];
                F[k + j * n] = F[piv[k] - 1 + j * n];
                F[piv[k] - 1 + j * n] = t;
            }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) i == j ? one(I[i + j * n]) : nul(I[i + j * n]);
    int pv[16];
    int r = gesv(n, n, F, n, pv, I, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) A[i + j * lda] = I[i + j * n];
    return r;
}
inline double root(double a) { return __builtin_sqrt(a); }
inline Z root(Z a) { return {__builtin_sqrt(a.re), 0}; }
// lower Cholesky factor of a Hermitian matrix given by its lower triangle
template <class T>
int potrf(int n, T* A, int lda) {
    for (int j = 0; j < n; ++j) {
        for (int k = 0; k < j; ++k) A[j + j * lda] = sub(A[j + j * lda], mul(A[j + k * lda], conj(A[j + k * lda])));
        A[j + j * lda] = root(A[j + j * lda]);
        for (int i = j + 1; i < n; ++i) {
            for (int k = 0; k < j; ++k) A[i + j * lda] = sub(A[i + j * lda], mul(A[i + k * lda], conj(A[j + k * lda])));
            A[i + j * lda] = div(A[i + j * lda], A[j + j * lda]);
        }
    }
    return 0;
}
// entries of op(L)
template <class T>
T lop(const T* A, int lda, char tr, int i, int j) {
    T z;
    nul(z);
    if (tr == 'N') return i >= j ? A[i + j * lda] : z;
    T v = j >= i ? A[j + i * lda] : z;
    return tr == 'C' ? conj(v) : v;
}
// op(L) X = B (side L) or X op(L) = B (side R); L lower triangular, non-unit diagonal
template <class T>
void trsm(char side, char tr, int m, int n, T alpha, const T* A, int lda, T* B, int ldb) {
    int N = side == 'L' ? m : n, K = side == 'L' ? n : m;
    bool lower = (tr == 'N') == (side == 'L');
    for (int q = 0; q < K; ++q)
        for (int s = 0; s < N; ++s) {
            int i = lower ? s : N - 1 - s;
            T& x = side == 'L' ? B[i + q * ldb] : B[q + i * ldb];
            T v = mul(alpha, x);
            for (int u = 0; u < s; ++u) {
                int k = lower ? u : N - 1 - u;
                T y = side == 'L' ? B[k + q * ldb] : B[q + k * ldb];
                T a = side == 'L' ? lop(A, lda, tr, i, k) : lop(A, lda, tr, k, i);
                v = sub(v, mul(a, y));
            }
            x = div(v, lop(A, lda, tr, i, i));
        }
}
template <class T>
void potrs(int n, int k, const T* A, int lda, T* B, int ldb) {
    T u;
    one(u);
    trsm('L', 'N', n, k, u, A, lda, B, ldb);
    trsm('L', 'C', n, k, u, A, lda, B, ldb);
}
}  // namespace
extern "C" {
void dpotrf_(const char*, int* n, double* A, int* lda, int* info) { *info = potrf(*n, A, *lda); }
void zpotrf_(const char*, int* n, Z* A, int* lda, int* info) { *info = potrf(*n, A, *lda); }
void dpotrs_(const char*, int* n, int* k, double* A, int* lda, double* B, int* ldb, int* info) { potrs(*n, *k, A, *lda, B, *ldb); *info = 0; }
void zpotrs_(const char*, int* n, int* k, Z* A, int* lda, Z* B, int* ldb, int* info) { potrs(*n, *k, A, *lda, B, *ldb); *info = 0; }
void dtrsm_(const char* s, const char*, const char* t, const char*, int* m, int* n, double* al, double* A, int* lda, double* B, int* ldb) { trsm(*s, *t, *m, *n, *al, A, *lda, B, *ldb); }
void ztrsm_(const char* s, const char*, const char* t, const char*, int* m, int* n, Z* al, Z* A, int* lda, Z* B, int* ldb) { trsm(*s, *t, *m, *n, *al, A, *lda, B, *ldb); }
// least squares: modelled for regular square systems
void dgelss_(int* m, int*, int* k, double* A, int* lda, double* B, int* ldb, double*, double*, int* rank, double*, int*, int* info) { int p[16]; *info = gesv(*m, *k, A, *lda, p, B, *ldb); *rank = *m; }
void zgelss_(int* m, int*, int* k, Z* A, int* lda, Z* B, int* ldb, double*, double*, int* rank, Z*, int*, double* rw, int* info) { int p[16]; for (int i = 0; i < 5 * *m; ++i) rw[i] = 0; *info = gesv(*m, *k, A, *lda, p, B, *ldb); *rank = *m; }
void dgemv_(const char* t, int* m, int* n, double* al, double* A, int* lda, double* x, int* incx, double* be, double* y, int* incy) { gemv(*t, *m, *n, *al, A, *lda, x, *incx, *be, y, *incy); }
void zgemv_(const char* t, int* m, int* n, Z* al, Z* A, int* lda, Z* x, int* incx, Z* be, Z* y, int* incy) { gemv(*t, *m, *n, *al, A, *lda, x, *incx, *be, y, *incy); }
int dgemm_(const char* ta, const char* tb, int* m, int* n, int* k, double* al, double* A, int* lda, double* B, int* ldb, double* be, double* C, int* ldc) { gemm(*ta, *tb, *m, *n, *k, *al, A, *lda, B, *ldb, *be, C, *ldc); return 0; }
int zgemm_(const char* ta, const char* tb, int* m, int* n, int* k, Z* al, Z* A, int* lda, Z* B, int* ldb, Z* be, Z* C, int* ldc) { gemm(*ta, *tb, *m, *n, *k, *al, A, *lda, B, *ldb, *be, C, *ldc); return 0; }
int daxpy_(int* n, double* a, double* x, int* ix, double* y, int* iy) { axpy(*n, *a, x, *ix, y, *iy); return 0; }
int zaxpy_(int* n, Z* a, Z* x, int* ix, Z* y, int* iy) { axpy(*n, *a, x, *ix, y, *iy); return 0; }
void dgetrf_(int* m, int* n, double* A, int* lda, int* p, int* info) { *info = getrf(*m, *n, A, *lda, p); }
void zgetrf_(int* m, int* n, Z* A, int* lda, int* p, int* info) { *info = getrf(*m, *n, A, *lda, p); }
void dgetri_(int* n, double* A, int* lda, int* p, double*, int*, int* info) { *info = getri(*n, A, *lda, p); }
void zgetri_(int* n, Z* A, int* lda, int* p, Z*, int*, int* info) { *info = getri(*n, A, *lda, p); }
void dgesv_(int* n, int* k, double* A, int* lda, int* p, double* B, int* ldb, int* info) { *info = gesv(*n, *k, A, *lda, p, B, *ldb); }
void zgesv_(int* n, int* k, Z* A, int* lda, int* p, Z* B, int* ldb, int* info) { *info = gesv(*n, *k, A, *lda, p, B, *ldb); }
}

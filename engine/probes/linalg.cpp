// Probe: dense linear algebra with symbolic entries.
// symbols (real part; imaginary part +5000): A(r,c)=100+10r+c, B=200+.., C=300+.., x[i]=400+i, y[i]=500+i, s=1, t=2
#include <complex>
#include <array>
#include "vt.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/Axpy.h"
#include "Geometry/PointPhysical.h"
#include "Geometry/PointReference.h"
#include "Geometry/Jacobian.h"
using namespace hpgem;
using namespace LinearAlgebra;
typedef std::complex<double> cplx;
static void setS(double& v, int id) { v = vt_sym(id); }
static void setS(cplx& v, int id) { v = cplx(vt_sym(id), vt_sym(id + 5000)); }
template <class T>
static T S(int id) {
    T v;
    setS(v, id);
    return v;
}
static void em(const char* t, long i, long j, long k, double v) { vt_emit_d(t, i, j, k, v); }
static void em(const char* t, long i, long j, long k, cplx v) {
    vt_emit_d(t, i, j, k, v.real());
    vt_emit_d(t, i, j, k + 1000, v.imag());
}
template <class M>
static void outM(const char* t, long cfg, const M& m, std::size_t R, std::size_t C) {
    vt_emit_i(t, cfg, -1, m.getNumberOfRows(), m.getNumberOfColumns());
    for (std::size_t r = 0; r < R; ++r)
        for (std::size_t c = 0; c < C; ++c) em(t, cfg, r, c, m(r, c));
}
template <class V>
static void outV(const char* t, long cfg, const V& v, std::size_t n) {
    vt_emit_i(t, cfg, -1, v.size(), 1);
    for (std::size_t i = 0; i < n; ++i) em(t, cfg, i, 0, v[i]);
}
#define TRY(op, ...) vtTry(op, [&] { vt_emit_i("try." op, cfg, 0, 0, 1); __VA_ARGS__; })

template <std::size_t R, std::size_t C>
static SmallMatrix<R, C> sm(int base) {
    SmallMatrix<R, C> m;
    for (std::size_t r = 0; r < R; ++r)
        for (std::size_t c = 0; c < C; ++c) m(r, c) = vt_sym(base + 10 * r + c);
    return m;
}
template <std::size_t N, class T = double>
static GSmallVector<N, T> sv(int base) {
    GSmallVector<N, T> v;
    for (std::size_t i = 0; i < N; ++i) v[i] = S<T>(base + i);
    return v;
}
template <std::size_t R, std::size_t C, std::size_t K>
static void rect() {
    const long cfg = R * 100 + C * 10 + K;
    vt_emit_i("rect", cfg, R, C, K);
    typedef SmallMatrix<R, C> M;
    const M A = sm<R, C>(100), B = sm<R, C>(200);
    const SmallMatrix<C, K> X = sm<C, K>(300);
    const SmallMatrix<C, C> Q = sm<C, C>(300);
    TRY("sm.get", outM("sm.get", cfg, A, R, C));
    TRY("sm.linear", { M m; for (std::size_t k = 0; k < R * C; ++k) m[k] = vt_sym(600 + k); outM("sm.linear", cfg, m, R, C); const M& n = m; for (std::size_t k = 0; k < R * C; ++k) em("sm.linearget", cfg, k, 0, n[k]); });
    TRY("sm.zero", outM("sm.zero", cfg, M(), R, C));
    TRY("sm.const", outM("sm.const", cfg, M(vt_sym(1)), R, C));
    TRY("sm.columns", { std::array<SmallVector<R>, C> a; for (std::size_t c = 0; c < C; ++c) a[c] = A.getColumn(c); outM("sm.columns", cfg, M(a), R, C); });
    TRY("sm.copy", { M m(A); outM("sm.copy", cfg, m, R, C); });
    TRY("sm.assign", { M m; m = A; m = m; outM("sm.assign", cfg, m, R, C); });
    TRY("sm.move", { M m(A), n; n = std::move(m); M o(std::move(n)); outM("sm.move", cfg, o, R, C); });
    TRY("sm.add", outM("sm.add", cfg, A + B, R, C));
    TRY("sm.sub", outM("sm.sub", cfg, A - B, R, C));
    TRY("sm.neg", outM("sm.neg", cfg, -A, R, C));
    TRY("sm.adda", { M m(A); M& r = (m += B); vt_emit_i("sm.adda.ref", cfg, 0, 0, &r == &m); outM("sm.adda", cfg, m, R, C); });
    TRY("sm.suba", { M m(A); m -= B; outM("sm.suba", cfg, m, R, C); });
    TRY("sm.dbl", { M m(A); m += m; outM("sm.dbl", cfg, m, R, C); });
    TRY("sm.scale", outM("sm.scale", cfg, A * vt_sym(1), R, C));
    TRY("sm.scalel", outM("sm.scalel", cfg, vt_sym(1) * A, R, C));
    TRY("sm.scalea", { M m(A); m *= vt_sym(1); outM("sm.scalea", cfg, m, R, C); });
    TRY("sm.div", outM("sm.div", cfg, A / vt_sym(1), R, C));
    TRY("sm.diva", { M m(A); m /= vt_sym(1); outM("sm.diva", cfg, m, R, C); });
    TRY("sm.axpy", { M m(A); m.axpy(vt_sym(1), B); outM("sm.axpy", cfg, m, R, C); });
    TRY("sm.gaxpy", { M m(A); axpy(vt_sym(1), B, m); outM("sm.gaxpy", cfg, m, R, C); });
    TRY("sm.mul", outM("sm.mul", cfg, A * X, R, K));
    TRY("sm.mulnc", { M m(A); outM("sm.mulnc", cfg, m * X, R, K); });
    TRY("sm.mula", { M m(A); m *= Q; outM("sm.mula", cfg, m, R, C); });
    TRY("sm.vec", { SmallVector<C> x = sv<C>(400); outV("sm.vec", cfg, A * x, R); });
    TRY("sm.vecnc", { SmallVector<C> x = sv<C>(400); M m(A); outV("sm.vecnc", cfg, m * x, R); outV("sm.vecarg", cfg, x, C); });
    TRY("sm.vecl", { SmallVector<R> y = sv<R>(500); M m(A); outV("sm.vecl", cfg, y * m, C); });
    TRY("sm.trans", outM("sm.trans", cfg, A.transpose(), C, R));
    TRY("sm.col", for (std::size_t c = 0; c < C; ++c) outV("sm.col", cfg * 10 + c, A.getColumn(c), R));
    TRY("sm.row", for (std::size_t r = 0; r < R; ++r) outV("sm.row", cfg * 10 + r, A.getRow(r), C));
    TRY("sm.size", { vt_emit_i("sm.size", cfg, 0, 0, A.size()); vt_emit_i("sm.size", cfg, 1, 0, A.getNRows()); vt_emit_i("sm.size", cfg, 2, 0, A.getNCols()); });
    TRY("sm.tomid", { MiddleSizeMatrix m(A); outM("sm.tomid", cfg, m, R, C); });
    TRY("sm.frommid", { MiddleSizeMatrix m(R, C); for (std::size_t r = 0; r < R; ++r) for (std::size_t c = 0; c < C; ++c) m(r, c) = vt_sym(100 + 10 * r + c); outM("sm.frommid", cfg, M(m), R, C); });
}
template <std::size_t N>
static void square() {
    const long cfg = N;
    typedef SmallMatrix<N, N> M;
    const M A = sm<N, N>(100);
    TRY("sq.det", em("sq.det", cfg, 0, 0, A.determinant()));
    TRY("sq.jdet", { Geometry::Jacobian<N, N> j(A); em("sq.jdet", cfg, 0, 0, j.determinant()); });
    TRY("sq.solvev", { SmallVector<N> b = sv<N>(500); A.solve(b); outV("sq.solvev", cfg, b, N); });
    TRY("sq.solvem", { SmallMatrix<N, 2> b = sm<N, 2>(200); A.solve(b); outM("sq.solvem", cfg, b, N, 2); });
    TRY("sq.self", { M m(A); m *= m; outM("sq.self", cfg, m, N, N); });
    TRY("sq.jj", { Geometry::Jacobian<N, N> j(A), k(sm<N, N>(200)); outM("sq.jj", cfg, j.multiplyJacobiansInto(k), N, N); });
    TRY("sq.jf", { Geometry::Jacobian<N, N> j(A); Geometry::Jacobian<N - 1, N> k(sm<N, N - 1>(200)); outM("sq.jf", cfg, j.multiplyJacobiansInto(k), N, N - 1); });
}
template <std::size_t N>
static void inv() {
    const long cfg = N;
    const SmallMatrix<N, N> A = sm<N, N>(100);
    TRY("sq.inv", outM("sq.inv", cfg, A.inverse(), N, N));
    TRY("sq.lu", outM("sq.lu", cfg, A.LUfactorisation(), N, N));
}
template <std::size_t N>
static void wedge() {
    const long cfg = N;
    const SmallMatrix<N, N - 1> A = sm<N, N - 1>(100);
    TRY("wedge", outV("wedge", cfg, A.computeWedgeStuffVector(), N));
}
template <std::size_t N, class T>
static void vec(long mode) {
    const long cfg = N * 10 + mode;
    vt_emit_i("vec", cfg, N, mode, 1);
    typedef GSmallVector<N, T> V;
    const V x = sv<N, T>(400), y = sv<N, T>(500);
    const T s = S<T>(1);
    TRY("sv.get", outV("sv.get", cfg, x, N));
    TRY("sv.paren", { V v; for (std::size_t i = 0; i < N; ++i) v(i) = S<T>(400 + i); const V& w = v; for (std::size_t i = 0; i < N; ++i) em("sv.paren", cfg, i, 0, w(i)); });
    TRY("sv.zero", outV("sv.zero", cfg, V(), N));
    TRY("sv.const", outV("sv.const", cfg, V::constant(s), N));
    TRY("sv.copy", { V v(x); V w; w = v; w = w; outV("sv.copy", cfg, w, N); });
    TRY("sv.move", { V v(x); V w(std::move(v)); outV("sv.move", cfg, w, N); });
    TRY("sv.ptr", outV("sv.ptr", cfg, V(x.data()), N));
    TRY("sv.stdvec", outV("sv.stdvec", cfg, V(std::vector<T>(x.data(), x.data() + N)), N));
    TRY("sv.add", outV("sv.add", cfg, x + y, N));
    TRY("sv.sub", outV("sv.sub", cfg, x - y, N));
    TRY("sv.neg", outV("sv.neg", cfg, -x, N));
    TRY("sv.adda", { V v(x); v += y; outV("sv.adda", cfg, v, N); });
    TRY("sv.suba", { V v(x); v -= y; outV("sv.suba", cfg, v, N); });
    TRY("sv.scale", outV("sv.scale", cfg, x * s, N));
    TRY("sv.scalel", outV("sv.scalel", cfg, s * x, N));
    TRY("sv.scalea", { V v(x); v *= s; outV("sv.scalea", cfg, v, N); });
    TRY("sv.div", outV("sv.div", cfg, x / s, N));
    TRY("sv.diva", { V v(x); v /= s; outV("sv.diva", cfg, v, N); });
    TRY("sv.axpy", { V v(x); v.axpy(s, y); outV("sv.axpy", cfg, v, N); });
    TRY("sv.axpyself", { V v(x); v.axpy(s, v); outV("sv.axpyself", cfg, v, N); });
    TRY("sv.dot", em("sv.dot", cfg, 0, 0, x * y));
    TRY("sv.norm2", em("sv.norm2", cfg, 0, 0, x.l2NormSquared()));
    TRY("sv.norm", { double n = x.l2Norm(); em("sv.norm", cfg, 0, 0, n * n); });
    TRY("sv.append", { V v(x); outV("sv.append", cfg, v.append(s), N + 1); });
    TRY("sv.real", outV("sv.real", cfg, x.real(), N));
    TRY("sv.imag", outV("sv.imag", cfg, x.imag(), N));
    TRY("sv.conj", outV("sv.conj", cfg, x.conj(), N));
    TRY("sv.tocplx", { GSmallVector<N, cplx> v(x); outV("sv.tocplx", cfg, v, N); });
    TRY("sv.mixdot", { SmallVector<N> r = sv<N>(600); em("sv.mixdot", cfg, 0, 0, x * r); });
    TRY("sv.mixscale", outV("sv.mixscale", cfg, x * cplx(vt_sym(1), vt_sym(5001)), N));
}
template <std::size_t N, class T>
static void cross(long mode) {
    const long cfg = N * 10 + mode;
    const GSmallVector<N, T> x = sv<N, T>(400), y = sv<N, T>(500), z = sv<N, T>(600);
    TRY("cross", outV("cross", cfg, x.crossProduct(y), N));
    TRY("cross2", { GSmallVector<N, T> r = z; x.crossProduct(y, r); outV("cross2", cfg, r, N); });
    TRY("dcross", outV("dcross", cfg, leftDoubledCrossProduct(x, y.crossProduct(z)), N));
}
// ordering: all pairs of vectors with entries 0..2
template <class V, class Set>
static void order(const char* tag, long n, Set set) {
    long total = 1;
    for (long i = 0; i < n; ++i) total *= 3;
    std::vector<V> all;
    for (long a = 0; a < total; ++a) {
        V v = set(a);
        all.push_back(v);
    }
    for (long a = 0; a < total; ++a)
        for (long b = 0; b < total; ++b) vt_emit_i(tag, n, a, b, (all[a] < all[b] ? 1 : 0) + (all[a] == all[b] ? 2 : 0));
}
template <std::size_t N>
static void orders() {
    const long cfg = N;
    TRY("ord.sv", order<SmallVector<N>>("ord.sv", N, [](long a) { SmallVector<N> v; for (std::size_t i = 0; i < N; ++i, a /= 3) v[i] = a % 3; return v; }));
    TRY("ord.pp", order<Geometry::PointPhysical<N>>("ord.pp", N, [](long a) { Geometry::PointPhysical<N> v; for (std::size_t i = 0; i < N; ++i, a /= 3) v[i] = a % 3; return v; }));
    TRY("ord.msv", order<MiddleSizeVector>("ord.msv", N, [](long a) { MiddleSizeVector v(N); for (std::size_t i = 0; i < N; ++i, a /= 3) v[i] = a % 3; return v; }));
    TRY("ord.svc", order<GSmallVector<N, cplx>>("ord.svc", 2 * N, [](long a) { GSmallVector<N, cplx> v; for (std::size_t i = 0; i < N; ++i) { double r = a % 3; a /= 3; double m = a % 3; a /= 3; v[i] = cplx(r, m); } return v; }));
}
template <std::size_t N>
static void point() {
    const long cfg = N;
    typedef Geometry::PointPhysical<N> P;
    typedef Geometry::PointReference<N> Q;
    P x, y;
    Q q, r;
    for (std::size_t i = 0; i < N; ++i) {
        x[i] = vt_sym(400 + i);
        y.setCoordinate(i, vt_sym(500 + i));
        q[i] = vt_sym(400 + i);
        r[i] = vt_sym(500 + i);
    }
    const double s = vt_sym(1);
    TRY("pt.get", { outV("pt.get", cfg, x, N); for (std::size_t i = 0; i < N; ++i) em("pt.getc", cfg, i, 0, x.getCoordinate(i)); });
    TRY("pt.vec", outV("pt.vec", cfg, x.getCoordinates(), N));
    TRY("pt.set", { P z; z.setCoordinates(sv<N>(400)); outV("pt.set", cfg, z, N); });
    TRY("pt.copy", { P z(x), w; w = z; outV("pt.copy", cfg, w, N); });
    TRY("pt.add", outV("pt.add", cfg, x + y, N));
    TRY("pt.sub", outV("pt.sub", cfg, x - y, N));
    TRY("pt.neg", outV("pt.neg", cfg, -x, N));
    TRY("pt.scale", outV("pt.scale", cfg, x * s, N));
    TRY("pt.scalel", outV("pt.scalel", cfg, s * x, N));
    TRY("pt.div", outV("pt.div", cfg, x / s, N));
    TRY("pt.adda", { P z(x); z += y; outV("pt.adda", cfg, z, N); });
    TRY("pt.suba", { P z(x); z -= y; outV("pt.suba", cfg, z, N); });
    TRY("pt.scalea", { P z(x); z *= s; outV("pt.scalea", cfg, z, N); });
    TRY("pt.axpy", { P z(x); z.axpy(s, y); outV("pt.axpy", cfg, z, N); });
    TRY("pt.norm2", em("pt.norm2", cfg, 0, 0, x.l2NormSquared()));
    TRY("pr.add", outV("pr.add", cfg, q + r, N));
    TRY("pr.sub", outV("pr.sub", cfg, q - r, N));
    TRY("pr.scale", outV("pr.scale", cfg, q * s, N));
    TRY("pr.dot", { const Geometry::Point<N>&a = q, &b = r; em("pr.dot", cfg, 0, 0, a * b); });
    TRY("pr.neg", outV("pr.neg", cfg, -q, N));
    TRY("pr.copy", { Q z(q), w; w = z; Q v(std::move(w)); outV("pr.copy", cfg, v, N); });
}
extern "C" void probe_small() {
    rect<1, 1, 1>();
    rect<2, 2, 2>();
    rect<3, 3, 3>();
    rect<4, 4, 4>();
    rect<2, 3, 4>();
    rect<3, 2, 1>();
    rect<4, 3, 2>();
    rect<1, 3, 2>();
    rect<3, 1, 4>();
    square<1>();
    square<2>();
    square<3>();
    square<4>();
    inv<1>();
    inv<2>();
    inv<3>();
    wedge<2>();
    wedge<3>();
    wedge<4>();
    vec<1, double>(0);
    vec<2, double>(0);
    vec<3, double>(0);
    vec<4, double>(0);
    vec<1, cplx>(1);
    vec<2, cplx>(1);
    vec<3, cplx>(1);
    vec<4, cplx>(1);
    cross<2, double>(0);
    cross<3, double>(0);
    cross<2, cplx>(1);
    cross<3, cplx>(1);
    orders<1>();
    orders<2>();
    point<1>();
    point<2>();
    point<3>();
    point<4>();
}
// ------------------------------------------------------------------ run-time sized
typedef MiddleSizeMatrix MM;
typedef MiddleSizeVector MV;
typedef MM::type E;
static MM mm(std::size_t R, std::size_t C, int base) {
    MM m(R, C);
    for (std::size_t r = 0; r < R; ++r)
        for (std::size_t c = 0; c < C; ++c) m(r, c) = S<E>(base + 10 * r + c);
    return m;
}
static MV mv(std::size_t n, int base) {
    MV v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = S<E>(base + i);
    return v;
}
static void mrect(std::size_t R, std::size_t C, std::size_t K) {
    const long cfg = R * 100 + C * 10 + K;
    vt_emit_i("rect", cfg, R, C, K);
    const MM A = mm(R, C, 100), B = mm(R, C, 200), X = mm(C, K, 300), Q = mm(C, C, 300);
    const E s = S<E>(1);
    TRY("mm.get", outM("mm.get", cfg, A, R, C));
    TRY("mm.linear", { MM m(R, C); for (std::size_t k = 0; k < R * C; ++k) m[k] = S<E>(600 + k); outM("mm.linear", cfg, m, R, C); const MM& n = m; for (std::size_t k = 0; k < R * C; ++k) em("mm.linearget", cfg, k, 0, n[k]); for (std::size_t k = 0; k < R * C; ++k) em("mm.data", cfg, k, 0, m.data()[k]); });
    TRY("mm.zero", outM("mm.zero", cfg, MM(R, C), R, C));
    TRY("mm.const", outM("mm.const", cfg, MM(R, C, s), R, C));
    TRY("mm.copy", { MM m(A); outM("mm.copy", cfg, m, R, C); });
    TRY("mm.assign", { MM m; m = A; outM("mm.assign", cfg, m, R, C); });
    TRY("mm.assign2", { MM m(K + 2, K + 1); m = A; outM("mm.assign2", cfg, m, R, C); });
    TRY("mm.move", { MM m(A), n; n = std::move(m); MM o(std::move(n)); outM("mm.move", cfg, o, R, C); });
    TRY("mm.scalar", { MM m(A); m = s; outM("mm.scalar", cfg, m, 1, 1); });
    TRY("mm.glue", { MM m{A, B}; outM("mm.glue", cfg, m, R, 2 * C); });
    TRY("mm.cat", { MM m(A); m.concatenate(mm(K, C, 200)); outM("mm.cat", cfg, m, R + K, C); });
    TRY("mm.add", outM("mm.add", cfg, A + B, R, C));
    TRY("mm.sub", outM("mm.sub", cfg, A - B, R, C));
    TRY("mm.neg", outM("mm.neg", cfg, -A, R, C));
    TRY("mm.adda", { MM m(A); m += B; outM("mm.adda", cfg, m, R, C); });
    TRY("mm.suba", { MM m(A); m -= B; outM("mm.suba", cfg, m, R, C); });
    TRY("mm.scale", outM("mm.scale", cfg, A * s, R, C));
    TRY("mm.scalel", outM("mm.scalel", cfg, s * A, R, C));
    TRY("mm.scalea", { MM m(A); m *= s; outM("mm.scalea", cfg, m, R, C); });
    TRY("mm.div", outM("mm.div", cfg, A / s, R, C));
    TRY("mm.diva", { MM m(A); m /= s; outM("mm.diva", cfg, m, R, C); });
    TRY("mm.axpy", { MM m(A); m.axpy(s, B); outM("mm.axpy", cfg, m, R, C); });
    TRY("mm.gaxpy", { MM m(A); axpy(s, B, m); outM("mm.gaxpy", cfg, m, R, C); });
    TRY("mm.mul", outM("mm.mul", cfg, A * X, R, K));
    TRY("mm.mulnc", { MM m(A); outM("mm.mulnc", cfg, m * X, R, K); });
    TRY("mm.mula", { MM m(A); m *= X; outM("mm.mula", cfg, m, R, K); });
    TRY("mm.vec", { MV x = mv(C, 400); outV("mm.vec", cfg, A * x, R); });
    TRY("mm.vecnc", { MV x = mv(C, 400); MM m(A); outV("mm.vecnc", cfg, m * x, R); outV("mm.vecarg", cfg, x, C); });
    TRY("mm.vecl", { MV y = mv(R, 500); MM m(A); outV("mm.vecl", cfg, y * m, C); });
    TRY("mm.trans", outM("mm.trans", cfg, A.transpose(), C, R));
    TRY("mm.col", for (std::size_t c = 0; c < C; ++c) outV("mm.col", cfg * 10 + c, A.getColumn(c), R));
    TRY("mm.row", for (std::size_t r = 0; r < R; ++r) outV("mm.row", cfg * 10 + r, A.getRow(r), C));
    TRY("mm.resize", { MM m(A); m.resize(K, K + 1); outM("mm.resize", cfg, m, 0, 0); vt_emit_i("mm.resize.size", cfg, 0, 0, m.size()); });
    TRY("mm.fromvec", { MV x = mv(R, 400); outM("mm.fromvec", cfg, MM(x), R, 1); });
}
static void msquare(std::size_t N) {
    const long cfg = N;
    const MM A = mm(N, N, 100);
    TRY("mq.solvev", { MV b = mv(N, 500); A.solve(b); outV("mq.solvev", cfg, b, N); outM("mq.keepv", cfg, A, N, N); });
    TRY("mq.solvem", { MM b = mm(N, 2, 200); A.solve(b); outM("mq.solvem", cfg, b, N, 2); });
    TRY("mq.pseudo", { MV b = mv(N, 500); A.pseudoSolve(b, 1e-10); outV("mq.pseudo", cfg, b, N); });
    TRY("mq.inv", outM("mq.inv", cfg, A.inverse(), N, N));
    TRY("mq.lu", outM("mq.lu", cfg, A.LUfactorisation(), N, N));
    TRY("mq.self", { MM m(A); m *= m; outM("mq.self", cfg, m, N, N); });
    // lower triangular systems
    for (int side = 0; side < 2; ++side)
        for (int tr = 0; tr < 3; ++tr) {
            const long cfg = N * 100 + side * 10 + tr;
            Side sd = side ? Side::OP_RIGHT : Side::OP_LEFT;
            Transpose t = tr == 0 ? Transpose::NOT : tr == 1 ? Transpose::TRANSPOSE : Transpose::HERMITIAN_TRANSPOSE;
            TRY("mq.trim", { MM b = side ? mm(2, N, 200) : mm(N, 2, 200); A.solveLowerTriangular(b, sd, t); outM("mq.trim", cfg, b, side ? 2 : N, side ? N : 2); });
            TRY("mq.triv", { MV b = mv(N, 500); A.solveLowerTriangular(b, sd, t); outV("mq.triv", cfg, b, N); });
        }
    // Cholesky: L L^H given by a lower triangular L with real diagonal
    TRY("mq.cholsolve", { MM b = mm(N, 2, 200); A.solveCholesky(b); outM("mq.cholsolve", cfg, b, N, 2); });
    if (N <= 2) TRY("mq.chol", { MM m(A); for (std::size_t i = 0; i < N; ++i) m(i, i) = E(vt_sym(100 + 11 * i)); m.cholesky(); outM("mq.chol", cfg, m, N, N); });
    TRY("mq.herm", {
        for (int k = 0; k < 3; ++k) {
            MM m(N, N);
            for (std::size_t i = 0; i < N; ++i)
                for (std::size_t j = 0; j < N; ++j) m(i, j) = E(1.0 + i + j + (k && N > 1 && i == N - 1 && j == (k == 1 ? 0 : N - 2) ? 0.5 : 0.0));
            vt_emit_i("mq.herm", cfg, k, 0, m.isHermitian(0.25) ? 1 : 0);
            vt_emit_i("mq.herm", cfg, k, 1, m.isHermitian(0.75) ? 1 : 0);
        }
    });
}
static void mvec(std::size_t N) {
    const long cfg = N * 10;
    vt_emit_i("vec", cfg, N, 0, 1);
    const MV x = mv(N, 400), y = mv(N, 500);
    const E s = S<E>(1);
    TRY("mv.get", outV("mv.get", cfg, x, N));
    TRY("mv.paren", { MV v(N); for (std::size_t i = 0; i < N; ++i) v(i) = S<E>(400 + i); const MV& w = v; for (std::size_t i = 0; i < N; ++i) em("mv.paren", cfg, i, 0, w(i)); });
    TRY("mv.zero", outV("mv.zero", cfg, MV(N), N));
    TRY("mv.set", { MV v(N); v.set(s); outV("mv.set", cfg, v, N); });
    TRY("mv.copy", { MV v(x); MV w; w = v; outV("mv.copy", cfg, w, N); });
    TRY("mv.move", { MV v(x); MV w(std::move(v)); MV u(1); u = std::move(w); outV("mv.move", cfg, u, N); });
    TRY("mv.ptr", outV("mv.ptr", cfg, MV(x.data(), N), N));
    TRY("mv.init", { MV v{S<E>(400), S<E>(401)}; outV("mv.init", cfg, v, 2); MV w(5); w = {S<E>(400), S<E>(401)}; outV("mv.init2", cfg, w, 2); });
    TRY("mv.resize", { MV v(x); v.resize(N + 2); outV("mv.resize", cfg, v, N + 2); });
    TRY("mv.shrink", { MV v(x); v.resize(N - 1); outV("mv.shrink", cfg, v, N - 1); });
    TRY("mv.add", outV("mv.add", cfg, x + y, N));
    TRY("mv.sub", outV("mv.sub", cfg, x - y, N));
    TRY("mv.neg", outV("mv.neg", cfg, -x, N));
    TRY("mv.adda", { MV v(x); v += y; outV("mv.adda", cfg, v, N); });
    TRY("mv.suba", { MV v(x); v -= y; outV("mv.suba", cfg, v, N); });
    TRY("mv.scale", outV("mv.scale", cfg, x * s, N));
    TRY("mv.scalel", outV("mv.scalel", cfg, s * x, N));
    TRY("mv.scalea", { MV v(x); v *= s; outV("mv.scalea", cfg, v, N); });
    TRY("mv.div", outV("mv.div", cfg, x / s, N));
    TRY("mv.diva", { MV v(x); v /= s; outV("mv.diva", cfg, v, N); });
    TRY("mv.axpy", { MV v(x); v.axpy(s, y); outV("mv.axpy", cfg, v, N); });
    TRY("mv.gaxpy", { MV v(x); axpy(s, y, v); outV("mv.gaxpy", cfg, v, N); });
    TRY("mv.dot", em("mv.dot", cfg, 0, 0, x * y));
    TRY("mv.norm2", em("mv.norm2", cfg, 0, 0, x.l2NormSquared()));
    TRY("mv.norm", { double n = x.l2Norm(); em("mv.norm", cfg, 0, 0, n * n); });
}
extern "C" void probe_middle() {
    mrect(1, 1, 1);
    mrect(2, 2, 2);
    mrect(3, 3, 3);
    mrect(2, 3, 4);
    mrect(4, 3, 2);
    mrect(3, 2, 1);
    mrect(1, 4, 2);
    mrect(5, 1, 3);
    msquare(1);
    msquare(2);
    msquare(3);
    mvec(1);
    mvec(2);
    mvec(3);
    mvec(5);
    for (std::size_t N = 2; N <= 4; ++N) {
        const long cfg = N;
        TRY("wedge", { MM m = mm(N, N - 1, 100); outV("wedge", cfg, m.computeWedgeStuffVector(), N); });
    }
    for (std::size_t N = 1; N <= 2; ++N) {
        const long cfg = N;
        TRY("ord.msv", order<MV>("ord.msv", N, [N](long a) { MV v(N); for (std::size_t i = 0; i < N; ++i, a /= 3) v[i] = a % 3; return v; }));
    }
}

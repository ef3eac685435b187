#!/usr/bin/env python3
"""P12: fixed-size vectors, matrices and points."""
from lalib import *


def check():
    c = Check("P12", "abstract interpretation of every operation of SmallVector, SmallMatrix, Jacobian and Point with symbolic real and complex entries (rational-function domain; BLAS/LAPACK by "
              "specification models); obligation: every entry of the result is identical, as a rational function, to the defining formula; orderings are compared with the lexicographic one on all pairs of small vectors")
    G = Geo("linalg", entry="probe_small", dirs=("LinearAlgebra", "Geometry"), strict=False)
    la = LA(c, G, False, "")
    t, e = G.t, la.expect
    s = sym(1, False)
    for (cfg, R, C, ), K in [((x[0], x[1], x[2]), v) for x, v in sorted(t["rect"].items())]:
        A, B, Xm, Q = mat(R, C, 100, 0), mat(R, C, 200, 0), mat(C, K, 300, 0), mat(C, C, 300, 0)
        n = "%dx%d matrix" % (R, C)
        elementwise(la, "sm.", n, cfg, A, B, False)
        e("sm.assign", cfg, A, n + " assignment")
        e("sm.const", cfg, ew(lambda a: s, A), n + " filled with a constant")
        e("sm.columns", cfg, A, n + " from columns")
        L = [[sym(600 + j * R + i, 0) for j in range(C)] for i in range(R)]
        e("sm.linear", cfg, L, n + " linear (column-major) access")
        e("sm.linearget", cfg, [[sym(600 + k, 0)] for k in range(R * C)], n + " linear access", shape=False, at=1)
        e("sm.gaxpy", cfg, ew(lambda a, b: a + s * b, A, B), n + " axpy(s, b, a)")
        e("sm.dbl", cfg, ew(lambda a: a + a, A), n + " a += a")
        e("sm.mul", cfg, mul(A, Xm), n + " product")
        e("sm.mulnc", cfg, mul(A, Xm), n + " product")
        e("sm.mula", cfg, mul(A, Q), n + " a *= b")
        x, y = vec(C, 400, 0), vec(R, 500, 0)
        e("sm.vec", cfg, mul(A, x), n + " times vector")
        e("sm.vecnc", cfg, mul(A, x), n + " times vector")
        e("sm.vecarg", cfg, x, n + " times vector changes its argument", at=1)
        e("sm.vecl", cfg, tr(mul(tr(y), A)), n + ": vector times matrix")
        e("sm.trans", cfg, tr(A), n + " transpose")
        e("sm.tomid", cfg, A, n + " to run-time sized matrix")
        e("sm.frommid", cfg, A, n + " from run-time sized matrix")
        for j in range(C):
            e("sm.col", cfg * 10 + j, [[r[j]] for r in A], n + " column %d" % j, at=1)
        for i in range(R):
            e("sm.row", cfg * 10 + i, [[v] for v in A[i]], n + " row %d" % i, at=1)
        if not la.failed("sm.size", cfg, "operation"):
            z = tuple(t["sm.size"][(cfg, k, 0)] for k in range(3))
            c.require("operation", z == (R * C, R, C), "sm.size/%d" % cfg, "%s reports size/rows/columns %s" % (n, z))
    for N in (1, 2, 3, 4):
        A, B = mat(N, N, 100, 0), mat(N, N, 200, 0)
        D = det(A)
        e("sq.det", N, [[D]], "%dx%d determinant" % (N, N), shape=False)
        e("sq.jdet", N, [[D]], "%dD Jacobian determinant" % N, shape=False)
        la.relation("sq.solvev", N, lambda: la.eq(mul(A, la.mtx("sq.solvev", N, N, 1)), vec(N, 500, 0)), "%dx%d solve: A x = b" % (N, N))
        la.relation("sq.solvem", N, lambda: la.eq(mul(A, la.mtx("sq.solvem", N, N, 2)), mat(N, 2, 200, 0)), "%dx%d solve: A X = B" % (N, N))
        e("sq.self", N, mul(A, A), "%dx%d a *= a" % (N, N))
        e("sq.jj", N, mul(A, B), "%dD Jacobian product" % N)
        if N > 1:
            e("sq.jf", N, mul(A, mat(N, N - 1, 200, 0)), "%dD Jacobian times face Jacobian" % N)
            W = mat(N, N - 1, 100, 0)
            e("wedge", N, [[det([W[r] + [X(1 if r == k else 0)] for r in range(N)])] for k in range(N)], "%dD wedge vector (determinant of the columns and a unit vector)" % N)
        if N < 4:
            la.relation("sq.inv", N, lambda: la.eq(mul(A, la.mtx("sq.inv", N, N, N)), eye(N)), "%dx%d inverse" % (N, N))

            def lu():
                M = la.mtx("sq.lu", N, N, N)
                L = [[M[i][j] if i > j else X(1 if i == j else 0) for j in range(N)] for i in range(N)]
                U = [[M[i][j] if i <= j else X(0) for j in range(N)] for i in range(N)]
                return la.eq(mul(L, U), A)
            la.relation("sq.lu", N, lu, "%dx%d LU factors" % (N, N))
    for cfg, N, mode in sorted(t["vec"]):
        cp = mode == 1
        n = "%d-%svector" % (N, "complex " if cp else "")
        x, y = vec(N, 400, cp), vec(N, 500, cp)
        s = sym(1, cp)
        elementwise(la, "sv.", n, cfg, x, y, cp)
        e("sv.paren", cfg, x, n + " access", shape=False)
        e("sv.const", cfg, [[s]] * N, n + " constant")
        e("sv.ptr", cfg, x, n + " from array")
        e("sv.stdvec", cfg, x, n + " from std::vector")
        e("sv.axpyself", cfg, ew(lambda a: a + s * a, x), n + " v.axpy(s, v)")
        e("sv.dot", cfg, [[tot([a[0] * b[0].conj() for a, b in zip(x, y)])]], n + " inner product (second argument conjugated)", shape=False)
        nn = [[tot([a[0] * a[0].conj() for a in x])]]
        e("sv.norm2", cfg, nn, n + " squared norm", shape=False)
        e("sv.norm", cfg, nn, n + " square of the norm", shape=False)
        e("sv.append", cfg, x + [[s]], n + " append")
        e("sv.real", cfg, [[X(a[0].re)] for a in x], n + " real part")
        e("sv.imag", cfg, [[X(a[0].im)] for a in x], n + " imaginary part")
        e("sv.conj", cfg, [[a[0].conj()] for a in x], n + " conjugate")
        e("sv.tocplx", cfg, x, n + " as complex vector")
        e("sv.mixdot", cfg, [[tot([a[0] * b[0] for a, b in zip(x, vec(N, 600, 0))])]], n + " inner product with a real vector", shape=False)
        sc = sym(1, 1)
        e("sv.mixscale", cfg, ew(lambda a: a * sc, x), n + " times complex number")
        if N in (2, 3):
            z = vec(N, 600, cp)

            def cr(a, b):
                return [[a[(i + 1) % 3][0] * b[(i + 2) % 3][0] - a[(i + 2) % 3][0] * b[(i + 1) % 3][0]] for i in range(3)]

            def c2(a, b):
                return [[a[0][0] * b[1][0] - a[1][0] * b[0][0]], [X(0)]]
            w = cr(x, y) if N == 3 else c2(x, y)
            e("cross", cfg, w, n + " cross product")
            e("cross2", cfg, w, n + " cross product into an existing vector")
            if N == 3:
                d = cr(x, cr(y, z))
            else:  # embed in 3D: y x z = (0,0,w)
                q = c2(y, z)[0][0]
                d = [[x[1][0] * q], [-(x[0][0] * q)]]
            e("dcross", cfg, d, n + " double cross product x X (y X z)")
    s = sym(1, False)
    for N in (1, 2, 3, 4):
        x, y = vec(N, 400, 0), vec(N, 500, 0)
        n = "%dD point" % N
        e("pt.get", N, x, n + " access")
        e("pt.getc", N, x, n + " access", shape=False, at=1)
        e("pt.vec", N, x, n + " coordinate vector")
        e("pt.set", N, x, n + " setCoordinates")
        e("pt.copy", N, x, n + " copy")
        for q in ("pt.", "pr."):
            e(q + "add", N, ew(lambda a, b: a + b, x, y), n + " p + q")
            e(q + "sub", N, ew(lambda a, b: a - b, x, y), n + " p - q")
            e(q + "neg", N, ew(lambda a: -a, x), n + " -p")
            e(q + "scale", N, ew(lambda a: a * s, x), n + " p * s")
        e("pt.scalel", N, ew(lambda a: a * s, x), n + " s * p")
        la.relation("pt.div", N, lambda: la.eq(ew(lambda q: q * s, la.mtx("pt.div", N, N, 1)), x), n + " p / s")
        e("pt.adda", N, ew(lambda a, b: a + b, x, y), n + " p += q")
        e("pt.suba", N, ew(lambda a, b: a - b, x, y), n + " p -= q")
        e("pt.scalea", N, ew(lambda a: a * s, x), n + " p *= s")
        e("pt.axpy", N, ew(lambda a, b: a + s * b, x, y), n + " axpy")
        e("pt.norm2", N, [[tot([a[0] * a[0] for a in x])]], n + " squared norm", shape=False)
        e("pr.dot", N, [[tot([a[0] * b[0] for a, b in zip(x, y)])]], n + " inner product", shape=False)
        e("pr.copy", N, x, n + " copy")
    orders(c, G, ("ord.sv", "ord.pp", "ord.svc"))
    c.expect("operation", 650)
    c.expect("ordering", 6)
    return c.finish({"functions analysed": G.ctx.stats["x"][0]})


def orders(c, G, tags):
    for tag in tags:
        for N in sorted({x[0] for x in G.t.get(tag, {})}):
            bad = None
            for (n, a, b), v in G.t[tag].items():
                if n != N:
                    continue
                va, vb = [a // 3 ** i % 3 for i in range(N)], [b // 3 ** i % 3 for i in range(N)]
                want = (1 if va < vb else 0) + (2 if va == vb else 0)
                if v != want:
                    bad = "%s vs %s: less=%d equal=%d" % (va, vb, v & 1, v >> 1)
            c.require("ordering", bad is None, "%s/%d" % (tag, N), "%s: comparison is not the lexicographic order: %s" % (tag, bad))


if __name__ == "__main__":
    main(check)

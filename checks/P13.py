#!/usr/bin/env python3
"""P13: run-time sized vectors and matrices, real and complex builds."""
import re
from lalib import *
from P12 import orders

# number of arguments of the BLAS/LAPACK routines (reference interface)
ARGS = {"gemv": 11, "gemm": 13, "axpy": 6, "getrf": 6, "getri": 7, "gesv": 8, "potrf": 5, "potrs": 8, "trsm": 11, "scal": 4, "copy": 5, "dot": 5, "nrm2": 3,
        "dgelss": 13, "zgelss": 14}


def interfaces(c):
    """declarations of the external BLAS/LAPACK routines have the argument count of the reference interface"""
    for f in kernel_sources("LinearAlgebra"):
        txt = re.sub(r"/\*.*?\*/|//[^\n]*", "", open(f).read(), flags=re.S)
        for blk in re.finditer(r'extern\s+"C"\s*\{(.*?)\n\}', txt, re.S):
            for m in re.finditer(r"\b([dz])(\w+?)_\s*\(([^)]*)\)\s*;", blk.group(1)):
                want = ARGS.get(m.group(1) + m.group(2), ARGS.get(m.group(2)))
                if want is None:
                    c.unknown("interfaces", m.group(1) + m.group(2), "unknown routine")
                    continue
                n = len(m.group(3).split(","))
                c.require("interfaces", n == want, "%s/%s%s" % (os.path.basename(f), m.group(1), m.group(2)), "%s declares %s%s_ with %d arguments, the routine takes %d" % (f, m.group(1), m.group(2), n, want))


def run(c, cp):
    pre = "complex " if cp else ""
    G = Geo("linalg", entry="probe_middle", dirs=("LinearAlgebra", "Geometry"), strict=False, defs=KDEFS + (["-DHPGEM_USE_ANY_PETSC", "-DHPGEM_USE_COMPLEX_PETSC"] if cp else []))
    la = LA(c, G, cp, pre)
    t, e = G.t, la.expect
    s = sym(1, cp)
    for (cfg, R, C), K in [((x[0], x[1], x[2]), v) for x, v in sorted(t["rect"].items())]:
        A, B, Xm = mat(R, C, 100, cp), mat(R, C, 200, cp), mat(C, K, 300, cp)
        n = "%s%dx%d matrix" % (pre, R, C)
        elementwise(la, "mm.", n, cfg, A, B, cp)
        L = [[sym(600 + j * R + i, cp) for j in range(C)] for i in range(R)]
        lin = [[sym(600 + k, cp)] for k in range(R * C)]
        e("mm.linear", cfg, L, n + " linear (column-major) access")
        e("mm.linearget", cfg, lin, n + " linear access", shape=False, at=1)
        e("mm.data", cfg, lin, n + " data()", shape=False, at=1)
        e("mm.const", cfg, ew(lambda a: s, A), n + " filled with a constant")
        e("mm.assign", cfg, A, n + " assignment")
        e("mm.assign2", cfg, A, n + " assignment to a matrix of another size")
        e("mm.scalar", cfg, [[s]], n + " assignment of a scalar")
        e("mm.glue", cfg, [a + b for a, b in zip(A, B)], n + " glued from two matrices")
        e("mm.cat", cfg, A + mat(K, C, 200, cp), n + " concatenate (rows appended)")
        e("mm.gaxpy", cfg, ew(lambda a, b: a + s * b, A, B), n + " axpy(s, b, a)")
        for q in ("mm.mul", "mm.mulnc", "mm.mula"):
            e(q, cfg, mul(A, Xm), n + " product")
        x, y = vec(C, 400, cp), vec(R, 500, cp)
        e("mm.vec", cfg, mul(A, x), n + " times vector")
        e("mm.vecnc", cfg, mul(A, x), n + " times vector")
        e("mm.vecarg", cfg, x, n + " times vector changes its argument", at=1)
        e("mm.vecl", cfg, tr(mul(tr(y), A)), n + ": vector times matrix")
        e("mm.trans", cfg, tr(A), n + " transpose")
        e("mm.fromvec", cfg, vec(R, 400, cp), n + " from a vector")
        for j in range(C):
            e("mm.col", cfg * 10 + j, [[r[j]] for r in A], n + " column %d" % j, at=1)
        for i in range(R):
            e("mm.row", cfg * 10 + i, [[v] for v in A[i]], n + " row %d" % i, at=1)
        if not la.failed("mm.resize", cfg, "operation"):
            sh = [(k[2], v) for k, v in t["mm.resize"].items() if k[0] == cfg and k[1] == -1][0]
            c.require("operation", sh == (K, K + 1) and t["mm.resize.size"][(cfg, 0, 0)] == K * (K + 1), "%smm.resize/%d" % (pre, cfg), "%s resized to %dx%d reports %s" % (n, K, K + 1, sh))
    for N in (1, 2, 3):
        A = mat(N, N, 100, cp)
        n = "%s%dx%d" % (pre, N, N)
        bm, bv = mat(N, 2, 200, cp), vec(N, 500, cp)
        la.relation("mq.solvev", N, lambda: la.eq(mul(A, la.mtx("mq.solvev", N, N, 1)), bv), n + " solve: A x = b")
        e("mq.keepv", N, A, n + " solve changes the matrix", at=1)
        la.relation("mq.solvem", N, lambda: la.eq(mul(A, la.mtx("mq.solvem", N, N, 2)), bm), n + " solve: A X = B")
        la.relation("mq.pseudo", N, lambda: la.eq(mul(A, la.mtx("mq.pseudo", N, N, 1)), bv), n + " pseudoSolve: A x = b")
        la.relation("mq.inv", N, lambda: la.eq(mul(A, la.mtx("mq.inv", N, N, N)), eye(N)), n + " inverse")
        e("mq.self", N, mul(A, A), n + " a *= a")

        def lu():
            M = la.mtx("mq.lu", N, N, N)
            L = [[M[i][j] if i > j else X(1 if i == j else 0) for j in range(N)] for i in range(N)]
            U = [[M[i][j] if i <= j else X(0) for j in range(N)] for i in range(N)]
            return la.eq(mul(L, U), A)
        la.relation("mq.lu", N, lu, n + " LU factors")
        low = [[A[i][j] if i >= j else X(0) for j in range(N)] for i in range(N)]
        for side in (0, 1):
            for q in (0, 1, 2):
                cfg = N * 100 + side * 10 + q
                op = low if q == 0 else tr(low, q == 2)
                nm = "%s lower triangular solve, %s, %s" % (n, ("left", "right")[side], ("plain", "transposed", "Hermitian transposed")[q])
                if side == 0:
                    la.relation("mq.trim", cfg, lambda: la.eq(mul(op, la.mtx("mq.trim", cfg, N, 2)), bm), nm)
                    la.relation("mq.triv", cfg, lambda: la.eq(mul(op, la.mtx("mq.triv", cfg, N, 1)), bv), nm + " (vector)")
                else:
                    la.relation("mq.trim", cfg, lambda: la.eq(mul(la.mtx("mq.trim", cfg, 2, N), op), mat(2, N, 200, cp)), nm)
                    la.relation("mq.triv", cfg, lambda: la.eq(mul(tr(la.mtx("mq.triv", cfg, N, 1)), op), tr(bv)), nm + " (vector)")
        LL = mul(low, tr(low, True))
        la.relation("mq.cholsolve", N, lambda: la.eq(mul(LL, la.mtx("mq.cholsolve", N, N, 2)), bm), n + " solveCholesky: L L^H X = B")
        if N <= 2:
            def chol():
                M = la.mtx("mq.chol", N, N, N)
                L = [[M[i][j] if i >= j else X(0) for j in range(N)] for i in range(N)]
                H = [[X(F(P.var(100 + 11 * i))) if i == j else (A[i][j] if i > j else A[j][i].conj()) for j in range(N)] for i in range(N)]
                return la.eq(mul(L, tr(L, True)), H)
            la.relation("mq.chol", N, chol, n + " Cholesky factor: L L^H is the matrix")
        if not la.failed("mq.herm", N, "operation"):
            want = {(0, 0): 1, (0, 1): 1}
            for k in (1, 2):
                want[(k, 0)], want[(k, 1)] = (0, 1) if N > 1 else (1, 1)
                if N == 1:
                    want[(k, 0)] = 1
            for (k, j), w in want.items():
                # the perturbed entry of configuration 2 is the sub-diagonal one
                c.require("operation", t["mq.herm"][(N, k, j)] == w, "%smq.herm/%d/%d/%d" % (pre, N, k, j), "%s isHermitian reports %s" % (n, t["mq.herm"][(N, k, j)]))
    for cfg, N, _ in sorted(t["vec"]):
        n = "%s%d-vector" % (pre, N)
        x, y = vec(N, 400, cp), vec(N, 500, cp)
        elementwise(la, "mv.", n, cfg, x, y, cp)
        e("mv.paren", cfg, x, n + " access", shape=False)
        e("mv.set", cfg, [[s]] * N, n + " set")
        e("mv.ptr", cfg, x, n + " from array")
        e("mv.gaxpy", cfg, ew(lambda a, b: a + s * b, x, y), n + " axpy(s, x, y)")
        i2 = [[sym(400, cp)], [sym(401, cp)]]
        e("mv.init", cfg, i2, n + " from a list")
        e("mv.init2", cfg, i2, n + " assigned from a list", at=1)
        e("mv.resize", cfg, x + [[X(0)], [X(0)]], n + " enlarged")
        e("mv.shrink", cfg, x[:N - 1], n + " shrunk") if N > 1 else None
        e("mv.dot", cfg, [[tot([a[0] * b[0] for a, b in zip(x, y)])]], n + " product", shape=False)
        nn = [[tot([a[0] * a[0].conj() for a in x])]]
        e("mv.norm2", cfg, nn, n + " squared norm", shape=False)
        e("mv.norm", cfg, nn, n + " square of the norm", shape=False)
    for N in (2, 3, 4):
        W = mat(N, N - 1, 100, cp)
        e("wedge", N, [[det([W[r] + [X(1 if r == k else 0)] for r in range(N)])] for k in range(N)], "%s%dD wedge vector" % (pre, N))
    orders(c, G, ("ord.msv",)) if not cp else None
    return G.ctx.stats["repo_functions"]


def check():
    c = Check("P13", "abstract interpretation of every operation of MiddleSizeVector and MiddleSizeMatrix with symbolic real and (complex build) complex entries (rational-function domain; BLAS/LAPACK by "
              "specification models); obligation: shape and every entry of the result are identical, as rational functions, to the defining formula, solves/factorisations satisfy their defining equation; "
              "signature lint of the external BLAS/LAPACK declarations against the reference interface")
    interfaces(c)
    a, b = run(c, False), run(c, True)
    c.expect("operation", 900)
    c.expect("interfaces", 10)
    return c.finish({"functions_analysed real": a, "functions_analysed complex": b})


if __name__ == "__main__":
    main(check)

"""Oracle for the linear-algebra probes: matrices of complex rational functions."""
from geomlib import *


class X:
    """complex number with rational-function parts"""

    def __init__(s, re, im=0):
        s.re, s.im = (re if isinstance(re, F) else F(P.const(re))), (im if isinstance(im, F) else F(P.const(im)))

    def __add__(a, b):
        return X(a.re + b.re, a.im + b.im)

    def __sub__(a, b):
        return X(a.re - b.re, a.im - b.im)

    def __neg__(a):
        return X(-a.re, -a.im)

    def __mul__(a, b):
        return X(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)

    def conj(a):
        return X(a.re, -a.im)


def sym(i, cplx):
    return X(F(P.var(i)), F(P.var(i + 5000)) if cplx else 0)


def mat(r, c, base, cplx):
    return [[sym(base + 10 * i + j, cplx) for j in range(c)] for i in range(r)]


def vec(n, base, cplx):
    return [[sym(base + i, cplx)] for i in range(n)]


def mul(A, B):
    return [[tot([A[i][k] * B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def tot(l):
    r = X(0)
    for x in l:
        r = r + x
    return r


def ew(f, *Ms):
    return [[f(*[M[i][j] for M in Ms]) for j in range(len(Ms[0][0]))] for i in range(len(Ms[0]))]


def tr(A, herm=False):
    return [[A[i][j].conj() if herm else A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def det(A):
    n = len(A)
    if n == 0:
        return X(1)
    r = X(0)
    for k in range(n):
        t = A[0][k] * det([row[:k] + row[k + 1:] for row in A[1:]])
        r = r + t if k % 2 == 0 else r - t
    return r


def eye(n):
    return [[X(1 if i == j else 0) for j in range(n)] for i in range(n)]


class LA:
    def __init__(s, c, G, cplx, pre):
        s.c, s.G, s.cplx, s.pre = c, G, cplx, pre
        s.rnd = random.Random(3)

    def got(s, tag, cfg, r, k):
        t = s.G.t[tag]
        im = t.get((cfg, r, k + 1000))
        return X(s.lf(t[(cfg, r, k)]), s.lf(im) if im is not None else 0)

    def lf(s, v):
        return leaf(v)

    def failed(s, tag, cfg, what):
        f = s.G.fail.get((tag, (cfg, 0, 0)))
        if f is None and (tag, (cfg, 0, 0)) not in s.G.fail:
            return False
        key = "%s%s/%s" % (s.pre, tag, cfg)
        (s.c.bad if f["fail"] == "abort" else s.c.unknown)(what, key, "%s: %s at %s" % (tag, f["why"], f["at"]))
        return True

    def same(s, a, b):
        """identity of two complex rational functions: normal form, or evaluation of both normal forms at random points"""
        bad = None
        for x, y in ((a.re, b.re), (a.im, b.im)):
            d = x - y
            if d.zero(1e-9):
                continue
            vs = sorted(x.vars() | y.vars())
            for _ in range(8):
                env = s.G.ctx.env({v: s.rnd.uniform(0.5, 2) * s.rnd.choice((-1, 1)) for v in vs if v < 100000})
                try:
                    p, q = x.ev(env), y.ev(env)
                except (ZeroDivisionError, KeyError):
                    continue
                if abs(p - q) > 1e-7 * max(1, abs(p), abs(q)):
                    bad = (p, q)
        return bad

    def expect(s, tag, cfg, M, desc, shape=True, what="operation", at=None):
        """M: expected matrix"""
        if at is None and s.failed(tag, cfg, what):
            return
        key = "%s%s/%s" % (s.pre, tag, cfg)
        t = s.G.t.get(tag, {})
        if shape:
            sh = [(x[2], v) for x, v in t.items() if x[0] == cfg and x[1] == -1]
            if sh and (sh[0][0] != len(M) or sh[0][1] not in (len(M[0]) if M else 0, 1)):
                s.c.bad(what, key, "%s: result is %d x %d, expected %d x %d" % (desc, sh[0][0], sh[0][1], len(M), len(M[0])))
                return
        for i in range(len(M)):
            for j in range(len(M[0])):
                if (cfg, i, j) not in t:
                    if any(s.failed(tag, x, what) for x in (cfg, cfg // 10)):
                        return
                    s.c.unknown(what, key, "%s: no value" % desc)
                    return
                try:
                    g = s.got(tag, cfg, i, j)
                except Undefined:
                    s.c.bad(what, key, "%s: entry (%d,%d) is undefined" % (desc, i, j))
                    return
                b = s.same(g, M[i][j])
                if b:
                    s.c.bad(what, key, "%s: entry (%d,%d) is %s, expected %s" % (desc, i, j, g.re.text()[:150], M[i][j].re.text()[:150]))
                    return
        s.c.ok(what)

    def relation(s, tag, cfg, ok, desc, what="operation"):
        if s.failed(tag, cfg, what):
            return
        try:
            r = ok()
        except KeyError:
            s.c.unknown(what, "%s%s/%s" % (s.pre, tag, cfg), desc)
            return
        except Undefined:
            r = "undefined value"
        if r:
            s.c.bad(what, "%s%s/%s" % (s.pre, tag, cfg), "%s: %s" % (desc, r))
        else:
            s.c.ok(what)

    def mtx(s, tag, cfg, r, c):
        return [[s.got(tag, cfg, i, j) for j in range(c)] for i in range(r)]

    def eq(s, A, B):
        for i in range(len(A)):
            for j in range(len(A[0])):
                b = s.same(A[i][j], B[i][j])
                if b:
                    return "entry (%d,%d) differs (%.6g instead of %.6g at a sample point)" % (i, j, b[0], b[1])
        return None


def elementwise(la, p, cls, cfg, A, B, cplx, vecs=False):
    """operations common to matrices and vectors; p = tag prefix"""
    s = sym(1, cplx)
    n2 = X(0)
    e = la.expect
    Z = ew(lambda a: X(0), A)
    e(p + "get", cfg, A, "%s element access" % cls)
    e(p + "zero", cfg, Z, "%s default value" % cls)
    e(p + "copy", cfg, A, "%s copy" % cls)
    e(p + "move", cfg, A, "%s move" % cls)
    e(p + "add", cfg, ew(lambda a, b: a + b, A, B), "%s a + b" % cls)
    e(p + "sub", cfg, ew(lambda a, b: a - b, A, B), "%s a - b" % cls)
    e(p + "neg", cfg, ew(lambda a: -a, A), "%s -a" % cls)
    e(p + "adda", cfg, ew(lambda a, b: a + b, A, B), "%s a += b" % cls)
    e(p + "suba", cfg, ew(lambda a, b: a - b, A, B), "%s a -= b" % cls)
    e(p + "scale", cfg, ew(lambda a: a * s, A), "%s a * s" % cls)
    e(p + "scalel", cfg, ew(lambda a: a * s, A), "%s s * a" % cls)
    e(p + "scalea", cfg, ew(lambda a: a * s, A), "%s a *= s" % cls)
    e(p + "axpy", cfg, ew(lambda a, b: a + s * b, A, B), "%s a.axpy(s, b)" % cls)
    # division: result * s = a
    for t in ("div", "diva"):
        la.relation(p + t, cfg, lambda t=t: la.eq(ew(lambda q: q * s, la.mtx(p + t, cfg, len(A), len(A[0]))), A), "%s a / s, multiplied by s, is not a" % cls)

"""Normal forms of the abstract values emitted by the abstract interpreter."""
import math
import random

EPS = 1e-9


class P(dict):
    """polynomial: {((var,exp),...): coef}"""

    @staticmethod
    def const(c):
        return P({(): float(c)}) if c else P()

    @staticmethod
    def var(i):
        return P({((i, 1),): 1.0})

    @staticmethod
    def load(n):
        p = P()
        for m, c in n:
            p[tuple(sorted((m[i], m[i + 1]) for i in range(0, len(m), 2)))] = float(c)
        return p

    def __add__(a, b):
        r = P(a)
        for m, c in _p(b).items():
            s = r.get(m, 0.0) + c
            r[m] = s
        return r

    __radd__ = __add__

    def __neg__(a):
        return P({m: -c for m, c in a.items()})

    def __sub__(a, b):
        return a + (-_p(b))

    def __rsub__(a, b):
        return _p(b) - a

    def __mul__(a, b):
        r = P()
        b = _p(b)
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mm(m1, m2)
                r[m] = r.get(m, 0.0) + c1 * c2
        return r

    __rmul__ = __mul__

    def __pow__(a, n):
        r = P.const(1)
        for _ in range(n):
            r = r * a
        return r

    def d(a, v):
        r = P()
        for m, c in a.items():
            for i, (x, e) in enumerate(m):
                if x == v:
                    mm = m[:i] + (((x, e - 1),) if e > 1 else ()) + m[i + 1:]
                    r[mm] = r.get(mm, 0.0) + c * e
        return r

    def ev(a, env):
        s = 0.0
        for m, c in a.items():
            t = c
            for x, e in m:
                t *= env[x] ** e
            s += t
        return s

    def sub(a, env):
        """substitute polynomials for variables"""
        r = P()
        for m, c in a.items():
            t = P.const(c)
            for x, e in m:
                t = t * (env[x] ** e if x in env else P.var(x) ** e)
            r = r + t
        return r

    def norm(a):
        return max([abs(c) for c in a.values()], default=0.0)

    def zero(a, tol=EPS, scale=1.0):
        return a.norm() <= tol * max(1.0, scale)

    def vars(a):
        return {x for m in a for x, _ in m}

    def deg(a):
        return max([sum(e for _, e in m) for m, c in a.items() if abs(c) > 1e-12], default=0)

    def text(a):
        t = []
        for m, c in sorted(a.items()):
            if abs(c) < 1e-14:
                continue
            t.append("%.12g" % c + "".join("*x%d%s" % (x, "" if e == 1 else "^%d" % e) for x, e in m))
        return " + ".join(t) or "0"


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def _p(x):
    return x if isinstance(x, P) else P.const(x)


class F:
    """rational function num / prod(den_i^e_i)"""

    def __init__(s, n, d=()):
        s.n, s.dn = n, list(d)

    def den(s):
        r = P.const(1)
        for p, e in s.dn:
            r = r * p ** e
        return r

    def ev(s, env):
        d = 1.0
        for p, e in s.dn:
            d *= p.ev(env) ** e
        return s.n.ev(env) / d

    def poly(s):
        return not s.dn

    def d(s, v):
        if not s.dn:
            return F(s.n.d(v))
        den = s.den()
        return F(s.n.d(v) * den - s.n * den.d(v), [(den, 2)])

    def vars(s):
        r = s.n.vars()
        for p, _ in s.dn:
            r |= p.vars()
        return r

    def _bin(a, b, sign):
        if not a.dn and not b.dn:
            return F(a.n + b.n * sign)
        # common denominator: shared factors once
        k1 = {_key(p): (p, e) for p, e in a.dn}
        k2 = {_key(p): (p, e) for p, e in b.dn}
        den, m1, m2 = [], P.const(1), P.const(1)
        for k in set(k1) | set(k2):
            p = (k1.get(k) or k2.get(k))[0]
            e1, e2 = k1.get(k, (p, 0))[1], k2.get(k, (p, 0))[1]
            e = max(e1, e2)
            den.append((p, e))
            m1 = m1 * p ** (e - e1)
            m2 = m2 * p ** (e - e2)
        return F(a.n * m1 + b.n * m2 * sign, den)

    def __add__(a, b):
        return a._bin(_f(b), 1)

    __radd__ = __add__

    def __sub__(a, b):
        return a._bin(_f(b), -1)

    def __mul__(a, b):
        b = _f(b)
        k = {}
        for p, e in list(a.dn) + list(b.dn):
            q = _key(p)
            k[q] = (p, k.get(q, (p, 0))[1] + e)
        return F(a.n * b.n, list(k.values()))

    __rmul__ = __mul__

    def __neg__(a):
        return F(-a.n, a.dn)

    def zero(a, tol=EPS, scale=1.0):
        return a.n.zero(tol, max(scale, a.den().norm()))

    def text(a):
        return a.n.text() + (" / (" + ")*(".join("%s)^%d" % (p.text(), e) for p, e in a.dn) if a.dn else "")


def _key(p):
    return tuple(sorted((m, round(c, 12)) for m, c in p.items() if abs(c) > 1e-13))


def _f(x):
    if isinstance(x, F):
        return x
    return F(_p(x))


class Undefined(Exception):
    pass


def leaf(v):
    """non-conditional value -> F"""
    if isinstance(v, F):
        return v
    if isinstance(v, (int, float)):
        return F(P.const(v))
    if "c" in v:
        return F(P.const(v["c"]))
    if "n" in v:
        return F(P.load(v["n"]), [(P.load(d), e) for d, e in v.get("d", [])])
    raise Undefined(str(v)[:80])


def isite(v):
    return isinstance(v, dict) and "if" in v


def ite(v):
    return v["if"], v["then"], v["else"]


def map1(v, f):
    if isite(v):
        a, x, y = ite(v)
        return {"if": a, "then": map1(x, f), "else": map1(y, f)}
    return f(leaf(v))


def zipn(vs, f, asm=None):
    """apply f to tuples of leaves, keeping conditions"""
    asm = asm or {}
    vs = list(vs)
    for i, v in enumerate(vs):
        while isite(v) and v["if"] in asm:
            v = v["then"] if asm[v["if"]] else v["else"]
        vs[i] = v
    for i, v in enumerate(vs):
        if isite(v):
            a, x, y = ite(v)
            t = zipn(vs[:i] + [x] + vs[i + 1:], f, dict(asm, **{a: True}) if False else {**asm, a: True})
            e = zipn(vs[:i] + [y] + vs[i + 1:], f, {**asm, a: False})
            return {"if": a, "then": t, "else": e}
    return f(*[leaf(v) for v in vs])


def leaves(v, asm=None):
    asm = asm or {}
    if isite(v):
        a, x, y = ite(v)
        if a in asm:
            yield from leaves(x if asm[a] else y, asm)
        else:
            yield from leaves(x, {**asm, a: True})
            yield from leaves(y, {**asm, a: False})
    else:
        yield asm, v


class Rand(dict):
    """an environment that draws a value for every indeterminate it is asked for"""

    def __init__(s, rnd, lo=-2, hi=2, given=None):
        dict.__init__(s, given or {})
        s.rnd, s.lo, s.hi = rnd, lo, hi

    def __missing__(s, k):
        if k < 0:
            raise KeyError(k)
        s[k] = s.rnd.uniform(s.lo, s.hi)
        return s[k]


def anywhere(r):
    return Rand(r)


class Ctx:
    """atoms and opaque functions of one analysis run"""

    def __init__(s, recs):
        s.atoms = {}
        s.opq = {}
        for r in recs:
            if r["t"] == "_atom":
                s.atoms[r["x"][0]] = (leaf(r["v"]), r["x"][1])
            elif r["t"] == "_opaque":
                s.opq[r["x"][0]] = (r["fn"], [leaf(v) for v in r["v"]])
        s.stats = [r for r in recs if r["t"] == "_stats"][0]

    def env(s, base):
        env = base if isinstance(base, Rand) else dict(base)
        for v in sorted(s.opq, key=lambda k: -k if k < 0 else k):
            fn, args = s.opq[v]
            try:
                a = [x.ev(env) for x in args]
                env[v] = FN[fn](*a)
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                pass
        return env

    def truth(s, atom, env):
        f, rel = s.atoms[atom]
        x = f.ev(env)
        return x > 0 if rel == 0 else x == 0

    def ev(s, v, env):
        while isite(v):
            a, x, y = ite(v)
            v = x if s.truth(a, env) else y
        return leaf(v).ev(env)

    def witness(s, asm, variables, sampler, tries=400):
        """a point at which the listed atom truth values hold, or None"""
        rnd = random.Random(1)
        for _ in range(tries):
            env = s.env(sampler(rnd))
            try:
                if all(s.truth(a, env) == t for a, t in asm.items()):
                    return env
            except (KeyError, ZeroDivisionError):
                continue
        return None

    def equal(s, a, b, sampler, tol=EPS):
        """True / (False, env, va, vb) / None undecided: a == b as functions"""
        und = False

        def cmp(x, y):
            return x - y
        z = zipn([a, b], cmp)
        for asm, d in leaves(z):
            d = leaf(d)
            if any(s.atoms[k][1] == 1 and t for k, t in asm.items() if k in s.atoms):
                continue  # a measure-zero branch (equality atom): not compared
            if d.zero(tol):
                continue
            w = s.witness(asm, None, sampler)
            if w is None:
                und = True
                continue
            try:
                va, vb = s.ev(a, w), s.ev(b, w)
            except (KeyError, ZeroDivisionError):
                und = True
                continue
            if abs(va - vb) > 1e-8 * max(1, abs(va), abs(vb)):
                return (False, w, va, vb)
            # coefficients differ, values agree numerically: look at more points
            bad = None
            rnd = random.Random(7)
            for _ in range(200):
                e = s.env(sampler(rnd))
                try:
                    if not all(s.truth(k, e) == t for k, t in asm.items()):
                        continue
                    x, y = s.ev(a, e), s.ev(b, e)
                except (KeyError, ZeroDivisionError):
                    continue
                if abs(x - y) > 1e-8 * max(1, abs(x), abs(y)):
                    bad = (False, e, x, y)
                    break
            if bad:
                return bad
            if s.opq:
                und = und  # identities among opaque functions: numerically equal
        return None if und else True


FN = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "log": math.log,
      "abs": abs, "fabs": abs, "tan": math.tan, "atan": math.atan, "atan2": math.atan2, "pow": math.pow,
      "acos": math.acos, "asin": math.asin, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh}


def box(n, lo=-0.9, hi=0.95):
    return lambda r: {i: r.uniform(lo, hi) for i in range(n)}


def simplex(n):
    def f(r):
        while True:
            x = [r.uniform(0.02, 0.95) for _ in range(n)]
            if sum(x) < 0.98:
                return dict(enumerate(x))
    return f


# moments of the reference shapes, by name
def boxmom(a):
    return 0.0 if a % 2 else 2.0 / (a + 1)


def simplexmom(e):
    num = 1
    for k in e:
        num *= math.factorial(k)
    return num / math.factorial(sum(e) + len(e))


DIM = {"point": 0, "line": 1, "square": 2, "triangle": 2, "cube": 3, "tetrahedron": 3, "pyramid": 3, "prism": 3, "hypercube": 4}


def moment(shape, e):
    if shape in ("point", "line", "square", "cube", "hypercube"):
        r = 1.0
        for k in e:
            r *= boxmom(k)
        return r
    if shape in ("triangle", "tetrahedron"):
        return simplexmom(e)
    if shape == "prism":
        return simplexmom(e[:2]) * boxmom(e[2])
    if shape == "pyramid":
        a, b, c = e
        return boxmom(a) * boxmom(b) * math.factorial(c) * math.factorial(a + b + 2) / math.factorial(a + b + c + 3)
    raise KeyError(shape)


def inside(shape, p, t=1e-9):
    if shape in ("point", "line", "square", "cube", "hypercube"):
        return all(-1 - t <= x <= 1 + t for x in p)
    if shape in ("triangle", "tetrahedron"):
        return all(x >= -t for x in p) and sum(p) <= 1 + t
    if shape == "prism":
        return p[0] >= -t and p[1] >= -t and p[0] + p[1] <= 1 + t and abs(p[2]) <= 1 + t
    if shape == "pyramid":
        return -t <= p[2] <= 1 + t and abs(p[0]) <= 1 - p[2] + t and abs(p[1]) <= 1 - p[2] + t
    raise KeyError(shape)


def integrate(p, shape):
    d = DIM[shape]
    s = 0.0
    for m, c in p.items():
        e = [0] * d
        for x, k in m:
            e[x] = k
        s += c * moment(shape, e)
    return s


def sampler(shape):
    d = DIM[shape]

    def f(r):
        while True:
            p = [r.uniform(-1, 1) for _ in range(d)]
            if inside(shape, p, -0.01):
                return dict(enumerate(p))
    return f

#!/usr/bin/env python3
"""P11: every Runge-Kutta tableau has the accuracy, stability class and error estimate it advertises."""
from geomlib import *


def trees(n):
    """rooted trees with n nodes, as sorted tuples of subtrees"""
    if n == 1:
        return [()]
    out = set()

    def forests(m, mx):
        if m == 0:
            yield ()
            return
        for k in range(min(m, mx), 0, -1):
            for t in trees(k):
                for f in forests(m - k, k):
                    yield (t,) + f
    for f in forests(n - 1, n - 1):
        out.add(tuple(sorted(f)))
    return sorted(out)


def size(t):
    return 1 + sum(size(s) for s in t)


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def stagew(t, A):
    n = len(A)
    w = [1.0] * n
    for s in t:
        u = stagew(s, A)
        for i in range(n):
            w[i] *= sum(A[i][j] * u[j] for j in range(n))
    return w


def order_ok(A, b, p):
    for q in range(1, p + 1):
        for t in trees(q):
            w = stagew(t, A)
            v = sum(b[i] * w[i] for i in range(len(b)))
            if abs(v - 1.0 / gamma(t)) > 1e-12:
                return "condition for tree %s of order %d: %.15g instead of 1/%d" % (t, q, v, gamma(t))
    return None


def check():
    c = Check("P11", "constant propagation through the tableau registry and classes; obligations per method: abscissae are the row sums, all "
              "rooted-tree order conditions up to the advertised order, embedded weights consistent one order lower, nonnegative-coefficient "
              "(SSP) structure if advertised as TVD; the registry returns a method with the requested order and stage count")
    G = Geo("tableaux", dirs=("Base/TimeIntegration",))
    t = G.t
    seen = {}
    for (o, s, tvd), v in sorted(t.get("rule", {}).items()):
        x = (o, s, tvd)
        if ("rule", x) in G.fail:
            fl = G.fail[("rule", x)]
            (c.bad if fl["fail"] == "abort" else c.unknown)("methods", "%s" % (x,), fl["why"])
            continue
        who = G.cls("rule", x)
        name = v["class"].split("::")[-1]
        n = t["stages"][x]
        p = t["order"][x]
        istvd = t["tvd"][x]
        c.require("selection", p == o and n == s, "%s/%d/%d/%d" % (name, o, s, tvd), "asking for order %d with %d stages returns %s of order %d with %d stages" % (o, s, who, p, n))
        if name in seen:
            continue
        seen[name] = x
        id = (o * 100 + s) * 10 + tvd
        A = [[G.num("a", (id, i, j)) if j < i else 0.0 for j in range(n)] for i in range(n)]
        b = [G.num("b", (id, i, 0)) for i in range(n)]
        cc = [G.num("c", (id, i, 0)) for i in range(n)]
        for i in range(n):
            c.require("abscissae", abs(cc[i] - sum(A[i])) < 1e-12, "%s/c%d" % (name, i), "%s: stage %d is evaluated at time fraction %.12g, but its stage weights add up to %.12g "
                      "(time-dependent right-hand sides lose the advertised order)" % (who, i, cc[i], sum(A[i])))
        e = order_ok(A, b, p)
        c.require("order", e is None, name, "%s advertises order %d: %s" % (who, p, e))
        if istvd:
            # Kraaijevanger: a positive radius of absolute monotonicity needs A >= 0, b > 0, Inc(A^2) <= Inc(A)
            pos = all(a >= 0 for r in A for a in r) and all(x > 0 for x in b)
            A2 = [[sum(A[i][k] * A[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            inc = all(A[i][j] > 0 or abs(A2[i][j]) < 1e-14 for i in range(n) for j in range(n))
            c.require("tvd", pos and inc, name, "%s is advertised as total variation diminishing, but has no positive SSP coefficient" % who)
        if t["haserr"][x]:
            er = [G.num("e", (id, i, 0)) for i in range(n)]
            bh = [b[i] - er[i] for i in range(n)]
            e = order_ok(A, bh, p - 1)
            c.require("error estimate", e is None, name, "%s: the embedded method is not of order %d: %s" % (who, p - 1, e))
            c.require("error estimate", order_ok(A, bh, p) is not None, name + "/nontrivial", "%s: the error estimate vanishes to the method's own order" % who)
        else:
            h = [G.num("h", (id, i, 0)) for i in range(n) if (id, i, 0) in t.get("h", {})]
            c.require("error estimate", len(h) < n or not any(h), name + "/advertised", "%s knows how to estimate its error, but says it does not, so adaptive time steps are refused" % who)
        c.ok("methods")
    c.expect("methods", 6)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "methods": sorted(seen)})


main(check)

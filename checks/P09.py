#!/usr/bin/env python3
"""P09: maps from reference elements to physical elements."""
from geomlib import *

NAME = dict(SH)
NAME.update({23: "triangle", 25: "tetrahedron"})


def lab(g):
    return SH[g] if g in SH else "quadratic " + NAME[g]



def check():
    c = Check("P09", "abstract interpretation of every reference-to-physical map with symbolic node positions and a symbolic reference point "
              "(rational-function domain); obligations: corner i is mapped to node i, affine node positions give the affine map, the Jacobian is the symbolic "
              "derivative of the map, the image of a facet depends only on the nodes of that facet and is its affine/bilinear interpolation, after moving the "
              "nodes and reinitialising the map is that of the new nodes, a copy behaves the same, and (simplices) inverse after map is the identity")
    G = Geo("mapping")
    t, ctx = G.t, G.ctx
    for (g, d, n) in sorted(t["shape"]):
        name = NAME[g]
        who = "%s (nodes of %s)" % (G.cls("map", (g, 0, 0)), lab(g))
        aff = g == 8
        nsym = d * (d + 1) if aff else n * d
        rs = sampler(name)
        X = [tuple(leaf(v).ev({}) for v in G.pt("refnode", g, i, d)) for i in range(n)]

        def smp(base):
            def f(r):
                e = rs(r)
                for k in range(nsym):
                    e[base + k] = r.uniform(-2, 2)
                return e
            return f
        for st, nm in ((0, "initially"), (1, "after moving the nodes"), (2, "of a copy")):
            base = 10 if st == 0 else 110
            key = "%s/%d" % (lab(g), st)
            bad = [G.fail[k] for k in (("tr", (g, st, 0)), ("jac", (g, st, 0)), ("reinit", (g, 0, 0)), ("copy", (g, 0, 0)), ("shape", (g, 0, 0))) if k in G.fail]
            if bad:
                (c.bad if bad[0]["fail"] == "abort" else c.unknown)("maps", key, "%s: %s at %s" % (who, bad[0]["why"], bad[0]["at"]))
                continue
            T = G.pt("tr", g, st, d)
            # only current node positions
            allowed = set(range(d)) | {base + k for k in range(nsym)}
            for i in range(d):
                vs = set()
                for _, l in leaves(T[i]):
                    vs |= leaf(l).vars()
                stale = {v for v in vs if v >= 0} - allowed
                c.require("current nodes", not stale, "%s/%d" % (key, i), "%s: coordinate %d of the map %s depends on node data that is not current (indeterminates %s)" % (who, i, nm, sorted(stale)))
                if stale:
                    continue
                # derivative
                for j in range(d):
                    J = t["jac"][(g, st, i * 10 + j)]
                    D = map1(T[i], lambda f: f.d(j))
                    r = ctx.equal(J, D, smp(base), 1e-8)
                    if r is True:
                        c.ok("jacobian")
                    elif r is None:
                        c.unknown("jacobian", "%s/J%d%d" % (key, i, j), who)
                    else:
                        c.bad("jacobian", "%s/J%d%d" % (key, i, j), "%s: %s, Jacobian entry (%d,%d) is %.6g at reference point %s where the derivative of the map is %.6g" %
                              (who, nm, i, j, r[2], [round(r[1][k], 3) for k in range(d)], r[3]))
            # affine reproduction and corner values, by evaluation of the abstract map at random points of its indeterminates
            rnd = random.Random(5)
            ok, w = True, None
            for _ in range(12):
                A = [[rnd.uniform(-1, 1) for _ in range(d + 1)] for _ in range(d)]
                e = rs(rnd)
                if aff:
                    for i in range(d):
                        for k in range(d + 1):
                            e[base + i * (d + 1) + k] = A[i][k]
                else:
                    for q in range(n):
                        for i in range(d):
                            e[base + q * d + i] = A[i][d] + sum(A[i][k] * X[q][k] for k in range(d))
                e = ctx.env(e)
                for i in range(d):
                    want = A[i][d] + sum(A[i][k] * e[k] for k in range(d))
                    try:
                        got = ctx.ev(T[i], e)
                    except KeyError:
                        got = want  # reported above as stale
                    if abs(got - want) > 1e-8:
                        ok, w = False, (i, got, want)
            c.require("affine", ok, key, "%s: %s, nodes placed affinely do not give the affine map (coordinate, got, expected: %s)" % (who, nm, w))
            if st == 0 and not aff:
                # facets: dependence on the facet's own nodes, affine / bilinear interpolation
                for a, b in HALF[name]:
                    on = [q for q in range(n) if abs(sum(x * y for x, y in zip(a, X[q])) - b) < 1e-9]
                    V = [X[q] for q in on]
                    bad = None
                    for _ in range(6):
                        # random point in the facet: convex combination of its corners
                        lam = [rnd.uniform(0.05, 1) for _ in V]
                        s = sum(lam)
                        p = [sum(l * v[k] for l, v in zip(lam, V)) / s for k in range(d)]
                        e1 = {k: p[k] for k in range(d)}
                        e2 = dict(e1)
                        for q in range(n):
                            for i in range(d):
                                e1[base + q * d + i] = rnd.uniform(-1, 1)
                                e2[base + q * d + i] = e1[base + q * d + i] if q in on else rnd.uniform(-1, 1)
                        e1, e2 = ctx.env(e1), ctx.env(e2)
                        for i in range(d):
                            if d > 1 and abs(ctx.ev(T[i], e1) - ctx.ev(T[i], e2)) > 1e-8:
                                bad = "the image of the point %s of the facet with nodes %s depends on nodes outside the facet" % ([round(x, 3) for x in p], on)
                            if d == 3 and len(on) == 4 or d == 2 and len(on) == 2:
                                N = shapefn(V, p)
                                want = sum(N[k] * e1[base + on[k] * d + i] for k in range(len(on)))
                                if abs(ctx.ev(T[i], e1) - want) > 1e-8:
                                    bad = "on the facet with nodes %s the map is not the %slinear interpolation of the nodes" % (on, "bi" if d == 3 else "")
                    c.require("facet image", bad is None, "%s/facet%s" % (lab(g), on), "%s: %s" % (who, bad))
        for q in range(n):
            if ("corner", (g, q, 0)) in G.fail:
                f = G.fail[("corner", (g, q, 0))]
                c.unknown("corners", "%s/%d" % (lab(g), q), f["why"])
                continue
            for i in range(d):
                r = ctx.equal(t["corner"][(g, q, i)], t["want"][(g, q, i)], smp(10))
                if r is None:
                    c.unknown("corners", "%s/%d" % (lab(g), q), who)
                else:
                    c.require("corners", r is True, "%s/%d/%d" % (lab(g), q, i), "%s: coordinate %d of the image of reference corner %d is not that of node %d" % (who, i, q, q))
    for g in (1, 3, 5):
        d = DIM[SH[g]]
        key = SH[g] + "/inverse"
        if ("inv", (g, 0, 0)) in G.fail:
            f = G.fail[("inv", (g, 0, 0))]
            (c.bad if f["fail"] == "abort" else c.unknown)("inverse", key, "%s at %s" % (f["why"], f["at"]))
            continue

        def smp(r):
            e = sampler(SH[g])(r)
            for k in range((d + 1) * d):
                e[10 + k] = r.uniform(-2, 2)
            return e
        for i in range(d):
            r = ctx.equal(t["inv"][(g, 0, i)], F(P.var(i)), smp, 1e-7)
            if r is None:
                c.unknown("inverse", key, "coordinate %d" % i)
            else:
                c.require("inverse", r is True, "%s/%d" % (key, i), "%s: mapping a reference point to the element and back changes coordinate %d: %s" %
                          (G.cls("map", (g, 0, 0)), i, r if r is True else "%.6g instead of %.6g" % (r[2], r[3])))
    c.expect("jacobian", 210)
    c.expect("corners", 180)
    c.expect("facet image", 30)
    c.expect("inverse", 6)
    return c.finish({"functions analysed": ctx.stats["x"][0], "skipped": SKIPPED})


def shapefn(V, p):
    """bilinear (4 nodes of a parallelogram) or linear (2 nodes) shape functions at p"""
    if len(V) == 2:
        k = max(range(len(p)), key=lambda j: abs(V[1][j] - V[0][j]))
        s = (p[k] - V[0][k]) / (V[1][k] - V[0][k])
        return [1 - s, s]
    # V0 and its opposite corner: the one with V0 + Vo = sum of the other two
    for o in (1, 2, 3):
        q = [k for k in (1, 2, 3) if k != o]
        if close(tuple(a + b for a, b in zip(V[0], V[o])), tuple(a + b for a, b in zip(V[q[0]], V[q[1]]))):
            break
    a, b = q
    u = [x - y for x, y in zip(V[a], V[0])]
    v = [x - y for x, y in zip(V[b], V[0])]
    w = [x - y for x, y in zip(p, V[0])]
    # parallelograms with orthogonal sides
    s = sum(x * y for x, y in zip(u, w)) / sum(x * x for x in u)
    r = sum(x * y for x, y in zip(v, w)) / sum(x * x for x in v)
    N = [0.0] * 4
    N[0], N[a], N[b], N[o] = (1 - s) * (1 - r), s * (1 - r), (1 - s) * r, s * r
    return N


main(check)

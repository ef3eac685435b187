#!/usr/bin/env python3
"""P14: coordinate transformations of function values (H1, H(curl), H(div))."""
from geomlib import *
from pairlib import *


def V(i):
    return F(P.var(i))


def check():
    c = Check("P14", "abstract interpretation of the H1-, H(curl)- and H(div)-conforming transformations with a fully symbolic Jacobian and symbolic reference values "
              "(rational-function domain); obligations are the polynomial identities J^T grad = grad_ref, J^T v = v_ref, det curl = J curl_ref, det v = J v_ref, det div = div_ref, u = u_ref, "
              "for every non-singular Jacobian of every dimension")
    G = Geo("transform", dirs=("LinearAlgebra", "Geometry", "Base", "FE"), strict=False)
    t, ctx = G.t, G.ctx

    def where(tag, D, *_):
        n = {"h1": "H1ConformingTransformation", "hc": "HCurlConformingTransformation", "hd": "HDivConformingTransformation", "da": "ValueCoordinateTransformationData"}[tag[:2]]
        return "%s<%s> %s" % (n, D, {"val": "value", "grad": "gradient", "curl": "curl", "div": "divergence"}.get(tag.split(".")[-1], tag))
    failures(c, G, "interpreted", where)

    def same(group, key, got, want, msg):
        r = ctx.equal(got, want, anywhere, 1e-9)
        if r is True:
            c.ok(group)
        elif r is None:
            c.unknown(group, key, msg)
        else:
            c.bad(group, key, "%s: %.6g instead of %.6g" % (msg, r[2], r[3]))

    def got(tag, D):
        return [t[tag][(D, i, 0)] for i in range(D)] if (D, 0, 0) in t.get(tag, {}) else None

    def lin(coef, vals):
        def f(*xs):
            s = F(P.const(0))
            for a, x in zip(coef, xs):
                s = s + a * (x if isinstance(x, F) else leaf(x))
            return s
        return zipn(vals, f)
    for D in (1, 2, 3, 4):
        J = [[V(100 + 10 * r + q) for q in range(D)] for r in range(D)]
        JT = [[J[r][q] for r in range(D)] for q in range(D)]
        if (D, 0, 0) in t.get("data.J", {}):
            for r in range(D):
                for q in range(D):
                    same("data", "data/%d/J%d%d" % (D, r, q), t["data.J"][(D, r, q)], J[r][q], where("data.Jacobian", D))
                    same("data", "data/%d/T%d%d" % (D, r, q), t["data.T"][(D, r, q)], J[q][r], where("data.transpose", D))
        det = t.get("data.det", {}).get((D, 0, 0))
        if det is not None:
            same("data", "data/%d/det" % D, det, detF(J), where("data.determinant", D))
        dv = detF(J)
        if (D, 0, 0) in t.get("h1.val", {}):
            same("H1 value", "h1.val/%d" % D, t["h1.val"][(D, 0, 0)], V(200), where("h1.val", D))
        g = got("h1.grad", D)
        if g:
            for i in range(D):
                same("H1 gradient", "h1.grad/%d/%d" % (D, i), lin(JT[i], g), V(210 + i), where("h1.grad", D) + " component %d, J^T times the transformed gradient" % i)
        v = got("hcurl.val", D)
        if v:
            for i in range(D):
                same("H(curl) value", "hcurl.val/%d/%d" % (D, i), lin(JT[i], v), V(200 + i), where("hcurl.val", D) + " component %d, J^T times the transformed vector" % i)
        q = got("hcurl.curl", D)
        if q:
            for i in range(D):
                if D == 3:
                    want = J[i][0] * V(220) + J[i][1] * V(221) + J[i][2] * V(222)
                else:
                    want = V(220) if i == 0 else F(P.const(0))
                same("H(curl) curl", "hcurl.curl/%d/%d" % (D, i), lin([dv], [q[i]]), want, where("hcurl.curl", D) + " component %d, det J times the transformed curl" % i)
        v = got("hdiv.val", D)
        if v:
            for i in range(D):
                want = F(P.const(0))
                for k in range(D):
                    want = want + J[i][k] * V(200 + k)
                same("H(div) value", "hdiv.val/%d/%d" % (D, i), lin([dv], [v[i]]), want, where("hdiv.val", D) + " component %d, det J times the transformed vector" % i)
        if (D, 0, 0) in t.get("hdiv.div", {}):
            same("H(div) divergence", "hdiv.div/%d" % D, lin([dv], [t["hdiv.div"][(D, 0, 0)]]), V(230), where("hdiv.div", D) + ", det J times the transformed divergence")
    c.expect("data", 60)
    for g, n in (("H1 gradient", 10), ("H(curl) value", 5), ("H(curl) curl", 5), ("H(div) value", 5), ("H(div) divergence", 2)):
        if not any(u[0] == "interpreted" for u in c.undec + c.viol):
            c.expect(g, n)
    return c.finish(stats(G))


def detF(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    s = F(P.const(0))
    for j in range(n):
        m = A[0][j] * detF([r[:j] + r[j + 1:] for r in A[1:]])
        s = s + m if j % 2 == 0 else s - m
    return s


def stats(*Gs):
    return {"functions_analysed": sum(G.ctx.stats.get("functions", 0) if isinstance(G.ctx.stats, dict) else 0 for G in Gs)}


if __name__ == "__main__":
    main(check)

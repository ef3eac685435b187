#!/usr/bin/env python3
"""P07: maps from reference faces/edges into reference elements."""
from geomlib import *


def check():
    c = Check("P07", "abstract interpretation of every face-to-element and edge-to-element reference map at a symbolic point (rational-"
              "function domain); obligations: corners go to the listed corners in order, the Jacobian equals the symbolic "
              "derivative of the map, and sign * generalised cross product of the Jacobian is the outward facet normal")
    G = Geo()
    t = G.t
    for g, name in SH.items():
        d = DIM[name]
        if d == 0:
            continue
        V = G.nodes(g)
        for f in range(t["nf"][(g, 0, 0)]):
            key = "%s/facet %d" % (name, f)
            if ("face", (g, f, 0)) in G.fail:
                fl = G.fail[("face", (g, f, 0))]
                (c.bad if fl["fail"] == "abort" else c.unknown)("facet maps", key, "%s at %s" % (fl["why"], fl["at"]))
                continue
            who = G.cls("fmapcls", (g, f, 0))
            idx = G.list("fidx", g, f)
            for k, n in enumerate(idx):
                p = G.cpt("fnode", g * 100 + f, k, d)
                c.require("corner correspondence", n < len(V) and close(p, V[n]), "%s/%d" % (key, k),
                          "%s maps corner %d of face %d of the %s to %s, but that face lists corner %d = %s there" % (who, k, f, name, p, n, V[n] if n < len(V) else None))
            fname = TYPE[t["ftype"][(g, f, 0)]]
            X = [leaf(v) for v in G.pt("fmap", g, f, d)]
            # the map is the polynomial (affine) interpolation of its corners on the whole face
            for i in range(d):
                c.require("affine", X[i].poly() and X[i].n.deg() <= 1, "%s/%d" % (key, i), "%s: coordinate %d of the map is %s, not affine" % (who, i, X[i].text()))
                for j in range(d - 1):
                    J = leaf(t["fjac"][(g, f, i * 10 + j)])
                    D = X[i].d(j)
                    c.require("jacobian", (J - D).zero(), "%s/J%d%d" % (key, i, j), "%s: Jacobian entry (%d,%d) is %s, but the map's derivative is %s" % (who, i, j, J.text(), D.text()))
            s = G.num("fsign", (g, f, 0))
            c.require("sign", s in (1.0, -1.0), key, "%s: normal sign %g" % (who, s))
            if d > 1:
                w = [leaf(v) for v in G.pt("fwedge", g, f, d)]
                # outward normal scaled with the ratio of facet measures: a * |facet measure|/|a| / |ref facet|
                h = [(a, b) for a, b in HALF[name] if frozenset(i for i, p in enumerate(V) if abs(sum(x * y for x, y in zip(a, p)) - b) < 1e-12) == frozenset(idx)]
                if not h:
                    c.unknown("normal", key, "not a facet (see P06)")
                    continue
                a = h[0][0]
                na = math.sqrt(sum(x * x for x in a))
                area = facet_measure([V[i] for i in idx])
                sc = area / na / MEASURE[fname]
                ok = all((w[i] * s - sc * a[i]).zero(1e-9) for i in range(d))
                c.require("normal", ok, key, "%s: sign*cross product is (%s), the outward normal of face %d of the %s is %s" %
                          (who, ", ".join((x * s).text() for x in w), f, name, [sc * x for x in a]))
        if d == 3:
            for e in range(t["ne"][(g, 0, 0)]):
                if (g, e, 0) not in t.get("emapcls", {}):
                    continue
                key = "%s/edge %d" % (name, e)
                who = G.cls("emapcls", (g, e, 0))
                idx = G.list("eidx", g, e)
                X = [leaf(v) for v in G.pt("emap", g, e, d)]
                ends = [tuple(x.ev({0: s}) for x in X) for s in (-1.0, 1.0)]
                c.require("edge maps", close(ends[0], V[idx[0]]) and close(ends[1], V[idx[1]]), key, "%s maps the edge ends to %s, edge lists corners %s" % (who, ends, idx))
                for i in range(d):
                    J = leaf(t["ejac"][(g, e, i * 10)])
                    c.require("jacobian", (J - X[i].d(0)).zero(), "%s/J%d" % (key, i), "%s: Jacobian entry %d is %s, the map's derivative is %s" % (who, i, J.text(), X[i].d(0).text()))
    c.expect("normal", 30)
    c.expect("jacobian", 150)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "joins": st["joins"], "files": sorted(st["files"])})


def facet_measure(p):
    d = len(p[0])
    v = lambda a, b: [y - x for x, y in zip(a, b)]
    if d == 2:
        return math.dist(p[0], p[1])
    if d == 3:
        def cr(a, b):
            return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        nrm = lambda a: math.sqrt(sum(x * x for x in a))
        if len(p) == 3:
            return nrm(cr(v(p[0], p[1]), v(p[0], p[2]))) / 2
        # planar parallelogram with any corner order: two sides from a corner
        o = p[0]
        best = sorted(p[1:], key=lambda q: math.dist(o, q))[:2]
        return nrm(cr(v(o, best[0]), v(o, best[1])))
    return 8.0  # facets of the hypercube


main(check)

#!/usr/bin/env python3
"""P06: reference-shape tables agree with the geometry they describe."""
from geomlib import *


def check():
    c = Check("P06", "abstract interpretation of all reference-geometry classes; obligations: node coordinates, centre, measure, "
              "dimension and membership predicate equal those of the shape; the listed corner indices of the facets/edges are "
              "exactly the facets/edges of the convex hull of the nodes, each once, with the advertised shape")
    G = Geo()
    for g, name in SH.items():
        d = DIM[name]
        who = G.cls("shape", (g, d, 0))
        t = G.t
        c.require("dimension", t["dim"][(g, 0, 0)] == d and TYPE.get(t["type"][(g, 0, 0)]) == name, name, "%s reports dimension %d / type %d" % (who, t["dim"][(g, 0, 0)], t["type"][(g, 0, 0)]))
        V = G.nodes(g)
        c.require("nodes", len(V) == len(VERT[name]) and all(nodename(V, v) is not None for v in VERT[name]), name,
                  "%s: node coordinates %s are not the corners of the %s" % (who, V, name))
        m = G.num("measure", (g, 0, 0))
        c.require("measure", abs(m - MEASURE[name]) < 1e-12, name, "%s reports measure %.17g instead of %.17g" % (who, m, MEASURE[name]))
        cen = G.cpt("center", g, 0, d)
        bary = tuple(integrate(P.var(i), name) / MEASURE[name] for i in range(d))
        # the centre has to be an interior point (hpGEM uses the barycentre)
        c.require("centre", close(cen, bary, 1e-12), name, "%s: centre %s is not the barycentre %s" % (who, cen, bary))
        if d:
            if ("inside", (0, 0, 0)) in G.fail or (g, 0, 0) not in t.get("inside", {}):
                c.unknown("membership", name, "membership predicate not analysable")
            else:
                v = t["inside"][(g, 0, 0)]
                n = {1: 41, 2: 25, 3: 13, 4: 7}[d]
                bad = None
                for k in itertools.product(range(n), repeat=d):
                    # grid reaches outside; offset keeps it away from the boundary
                    p = [-1.5 + 3.0 * i / (n - 1) + 0.00137 * (j + 1) for j, i in enumerate(k)]
                    if inside(name, p, 0) != (G.ctx.ev(v, dict(enumerate(p))) == 1):
                        bad = p
                        break
                c.require("membership", bad is None, name, "%s: membership predicate is wrong at %s" % (who, bad))
        topo = [t["topo"][(g, i, 0)] for i in range(len(V))]
        c.require("topological index", topo == list(range(len(V))), name, "%s: topological node indices %s" % (who, topo))
        # facets
        if d >= 1:
            facets = [frozenset(i for i, p in enumerate(V) if abs(sum(a * x for a, x in zip(h, p)) - b) < 1e-12) for h, b in HALF[name]]
            nf = t["nf"][(g, 0, 0)]
            c.require("facets", nf == len(facets), name, "%s reports %d facets instead of %d" % (who, nf, len(facets)))
            seen = []
            for f in range(nf):
                key = "%s/facet %d" % (name, f)
                if ("face", (g, f, 0)) in G.fail:
                    fl = G.fail[("face", (g, f, 0))]
                    (c.bad if fl["fail"] == "abort" else c.unknown)("facets", key, "%s: facet %d: %s at %s" % (who, f, fl["why"], fl["at"]))
                    continue
                idx = G.list("fidx", g, f)
                seen.append(frozenset(idx))
                nn = t["fnn"][(g, f, 0)]
                ft = TYPE.get(t["ftype"][(g, f, 0)])
                loc = [t["flocal"][(g, f, k)] for k in range(nn)]
                want = {1: "point", 2: "line", 3: "triangle", 4: "square", 8: "cube"}[len(idx)] if len(idx) in (1, 2, 3, 4, 8) else None
                c.require("facets", frozenset(idx) in facets and len(set(idx)) == len(idx) == nn and loc == idx and ft == want, key,
                          "%s: facet %d lists corners %s (shape %s, %d nodes), which is not a facet of the %s" % (who, f, idx, ft, nn, name))
            c.require("facets", len(set(seen)) == len(seen), name, "%s lists a facet twice" % who)
        if d in (2, 3):
            ne = t["ne"][(g, 0, 0)]
            if d == 2:
                edges = [frozenset([i]) for i in range(len(V))]
            else:
                fs = [frozenset(i for i, p in enumerate(V) if abs(sum(a * x for a, x in zip(h, p)) - b) < 1e-12) for h, b in HALF[name]]
                edges = list({a & b for a in fs for b in fs if len(a & b) == 2})
            c.require("edges", ne == len(edges), name, "%s reports %d codimension-2 parts instead of %d" % (who, ne, len(edges)))
            seen = []
            for e in range(ne):
                key = "%s/edge %d" % (name, e)
                if ("edge", (g, e, 0)) in G.fail:
                    fl = G.fail[("edge", (g, e, 0))]
                    (c.bad if fl["fail"] == "abort" else c.unknown)("edges", key, "%s: edge %d: %s at %s" % (who, e, fl["why"], fl["at"]))
                    continue
                idx = G.list("eidx", g, e)
                seen.append(frozenset(idx))
                et = TYPE.get(t["etype"][(g, e, 0)])
                c.require("edges", frozenset(idx) in edges and len(idx) == d - 1 == t["enn"][(g, e, 0)] and et == ("point" if d == 2 else "line"), key,
                          "%s: edge %d lists corners %s (shape %s), which is not an edge of the %s" % (who, e, idx, et, name))
            c.require("edges", len(set(seen)) == len(seen), name, "%s lists an edge twice" % who)
        if d == 3:
            n3 = t["nc3"][(g, 0, 0)]
            ok = n3 == len(V) and all(G.list("c3idx", g, i) == [i] for i in range(n3))
            c.require("corners", ok, name, "%s: codimension-3 parts are not its corners" % who)
    c.expect("facets", 40)
    c.expect("edges", 40)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "joins": st["joins"], "files": sorted(st["files"])})


main(check)

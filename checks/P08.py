#!/usr/bin/env python3
"""P08: relative face orientation between the two sides of a face."""
from geomlib import *


def check():
    c = Check("P08", "abstract interpretation of the orientation-index computation for every node ordering that is a symmetry of the face "
              "shape (enumerated from the node coordinates) followed by the selected map at a symbolic point; obligations: the map "
              "takes each reference corner to the corner holding the same physical node on the other side, its Jacobian is its derivative")
    G = Geo()
    t = G.t
    for g, want in ((1, 2), (2, 8), (3, 6), (4, 48)):
        name = SH[g]
        d = DIM[name]
        V = G.nodes(g)
        n = t["nperm"][(g, 0, 0)]
        if n != want:
            c.unknown("orientations", name, "%d symmetric orderings enumerated instead of %d" % (n, want))
        for i in range(n):
            perm = [t["perm"][(g, i, k)] for k in range(len(V))] if (g, i, 0) in t["perm"] else None
            key = "%s/%s" % (name, "".join(map(str, perm or ["?"])))
            if ("c0", (g, i, 0)) in G.fail:
                fl = G.fail[("c0", (g, i, 0))]
                if name == "cube" and fl["fail"] == "abort":
                    c.note("orientation %s of a cubic face is rejected loudly (not supported in 4D)" % key)
                    continue
                (c.bad if fl["fail"] == "abort" else c.unknown)("orientations", key, "ordering %s: %s at %s" % (perm, fl["why"], fl["at"]))
                continue
            who = G.cls("c0cls", (g, i, 0))
            got = [nodename(V, G.cpt("c0node", g * 100 + i, k, d)) for k in range(len(V))]
            c.require("orientations", got == perm, key + "->" + "".join(str(x) for x in got), "for the relative ordering %s index %d selects %s, which sends corner k to %s: points seen from "
                      "the two sides of a %s face differ" % (perm, t["c0idx"][(g, i, 0)], who, got, name))
            X = [leaf(v) for v in G.pt("c0map", g, i, d)]
            for a in range(d):
                c.require("affine", X[a].poly() and X[a].n.deg() <= 1, "%s/%d" % (key, a), "%s is not affine" % who)
                for b in range(d):
                    J = leaf(t["c0jac"][(g, i, a * 10 + b)])
                    c.require("jacobian", (J - X[a].d(b)).zero(), "%s/J%d%d" % (key, a, b), "%s: Jacobian entry (%d,%d) = %s, derivative of the map = %s" % (who, a, b, J.text(), X[a].d(b).text()))
    c.expect("orientations", 24)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "joins": st["joins"], "files": sorted(st["files"])})


main(check)

#!/usr/bin/env python3
"""P03: curl and divergence of vector basis functions are those of the value."""
from baslib import *


def check():
    c = Check("P03", "abstract interpretation of value, curl and divergence routines of every vector-valued basis function (orders 1-5) at one "
              "symbolic reference point; obligation: curl/divergence routine == exact curl/divergence of the abstract value")
    G = basis("probe_basis_vector")
    t = G.t
    nodiv = 0
    for (id, D, _), n in sorted(t["size"].items()):
        fam, p = divmod(id, 100)
        shape, fname = FAM[fam]
        if outcome(c, G, "set", (id, 0, 0), "sets", "%s order %d" % (fname, p)):
            continue
        c.ok("sets")
        for i in range(n):
            key = "%s p%d #%d" % (fname, p, i)
            if outcome(c, G, "val", (id, i, 0), "values", key):
                continue
            who = "%s: function %d of order %d, %s" % (fname, i, p, G.cls("cls", (id, i, 0)))
            v = [t["val"][(id, i, d)] for d in range(D)]
            c.ok("values")
            sub = lambda a, b: zipn([a, b], lambda x, y: x - y)
            if D == 2:
                curl = [sub(der(v[1], 0), der(v[0], 1)), None]
            else:
                curl = [sub(der(v[2], 1), der(v[1], 2)), sub(der(v[0], 2), der(v[2], 0)), sub(der(v[1], 0), der(v[0], 1))]
            if not outcome(c, G, "curl", (id, i, 0), "curls", key):
                for d in range(D):
                    if curl[d] is not None:
                        cmp(c, G, "curls", "%s c%d" % (key, d), who, t["curl"][(id, i, d)], curl[d], shape, "component %d of the curl is not that of the value" % d)
            if (id, i, 0) in t.get("div", {}):
                dv = zipn([der(v[d], d) for d in range(D)], lambda *a: sum(a[1:], a[0]))
                cmp(c, G, "divergences", key, who, t["div"][(id, i, 0)], dv, shape, "the divergence is not that of the value")
            else:
                nodiv += 1
    c.expect("sets", 15)
    c.expect("values", 600)
    c.note("%d functions announce that they do not implement a divergence" % nodiv)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "joins": st["joins"]})


main(check)

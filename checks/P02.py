#!/usr/bin/env python3
"""P02: the gradient a scalar basis function returns is the gradient of the value it returns."""
from baslib import *


KIND = ("interior", "vertex", "edge", "face")


def name(id):
    if id < 100000:
        fam, p = divmod(id, 100)
        return FAM[fam][0], "%s p%d" % (FAM[fam][1], p)
    fam, r = divmod(id, 1000000)
    p, r = divmod(r, 100000)
    k, n = divmod(r, 10000)
    return FAM[fam][0], "conforming %s p%d %s set %d" % (FAM[fam][1], p, KIND[k], n)


def check():
    c = Check("P02", "abstract interpretation of value and derivative routines of every basis function of every scalar set, discontinuous and conforming with "
              "every orientation (orders 0-5), at one symbolic reference point; obligation per function and direction: derivative routine == exact "
              "derivative of the abstract value; the gradient routine returns the same components")
    steps, funcs = 0, 0
    for entry in ("probe_basis_scalar", "probe_basis_confder"):
        G = basis(entry)
        t = G.t
        for (kind, x), fl in G.fail.items():
            if kind == "set":
                outcome(c, G, "set", x, "sets", name(x[0])[1])
        for (id, D, _), n in sorted(t["size"].items()):
            shape, fname = name(id)
            c.ok("sets")
            for i in range(n):
                key = "%s #%d" % (fname, i)
                if outcome(c, G, "val", (id, i, 0), "values", key):
                    continue
                if (id, i, 0) not in t["val"]:
                    continue  # the set itself failed, reported above
                who = "%s: function %d, %s" % (fname, i, G.cls("cls", (id, i, 0)))
                v = t["val"][(id, i, 0)]
                c.ok("values")
                for d in range(D):
                    k = "%s d%d" % (key, d)
                    if outcome(c, G, "der", (id, i, d), "derivatives", k):
                        continue
                    cmp(c, G, "derivatives", k, who, t["der"][(id, i, d)], der(v, d), shape, "derivative %d is not the derivative of the value" % d)
                if outcome(c, G, "grad", (id, i, 0), "gradients", key):
                    continue
                for d in range(D):
                    cmp(c, G, "gradients", "%s g%d" % (key, d), who, t["grad"][(id, i, d)], der(v, d), shape,
                        "component %d of the gradient is not the derivative of the value" % d)
        steps += G.ctx.stats["steps"]
        funcs = max(funcs, G.ctx.stats["repo_functions"])
    c.expect("sets", 500)
    c.expect("values", 3000)
    return c.finish({"functions_analysed": funcs, "ir_steps": steps})


main(check)

#!/usr/bin/env python3
"""P16: basis function evaluations cached by quadrature rules."""
from geomlib import *
from pairlib import *
from concurrent.futures import ThreadPoolExecutor

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
SHAPE = {1: "line", 2: "square", 3: "triangle", 4: "cube", 5: "tetrahedron", 6: "pyramid", 7: "prism"}
PHASE = ["first set", "second set on the same rules", "first set again, other order of requests", "another set constructed at the address of a destroyed one", "a set that survived the destruction of another"]


def where(tag, i, j, k):
    sh, i = divmod(i, 10000)
    ph, i = divmod(i, 1000)
    m = "interior rule" if i == 0 else "rule of face %d%s" % ((i - 1) // 20, "" if (i - 1) % 20 == 0 else " through orientation %d concatenated with the face map" % ((i - 1) % 20 - 1))
    return "QuadratureRule: %s of function %d at sampled point %d of the %s on the %s (%s)" % (tag, j % 10, j // 10, m, SHAPE.get(sh, sh), PHASE[ph] if ph < len(PHASE) else ph)


def check():
    c = Check("P16", "abstract interpretation of the caches of QuadratureRule (tables per basis function set, keyed on interior, face map or pair of maps) along histories of requests, with opaque basis functions "
              "(independent indeterminates per function, component and point); each cached value is compared with the function evaluated at the (mapped) quadrature point")
    lower(kernel_sources(*DIRS))

    def run(n):
        try:
            return Geo("qrcache", entry="probe_qrcache%d" % n, dirs=DIRS, strict=False)
        except Broken as e:
            return e
    with ThreadPoolExecutor(4) as ex:
        Gs = list(ex.map(run, (1, 2, 3, 4)))
    for n, G in enumerate(Gs, 1):
        if isinstance(G, Broken):
            raise G
        failures(c, G, "cached requests", where)
        for tag in sorted(G.t):
            if tag.startswith("_") or tag.startswith("try."):
                continue
            pairs(c, G, tag, tag, where, keytag="qrcache%d/%s" % (n, tag))
    if not c.viol and not c.undec:
        for g, n in (("value", 6000), ("gradient", 15000), ("vector", 15000), ("curl", 15000), ("divergence", 6000)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": sum(G.ctx.stats.get("analysed", 0) for G in Gs)})


main(check)

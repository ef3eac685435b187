#!/usr/bin/env python3
"""P17: element and face integrals are the quadrature sums over the current element/face; default rules match the orders."""
from geomlib import *
from pairlib import *
from concurrent.futures import ThreadPoolExecutor

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
SHAPE = {1: "line", 2: "square", 3: "triangle", 4: "cube", 5: "tetrahedron", 6: "pyramid", 7: "prism", 8: "quadratic triangle", 9: "mirrored cube", 10: "mirrored prism", 11: "mirrored pyramid"}
EH = {1: "default rule", 2: "another element, default rule", 3: "one-point/low rule", 4: "high rule", 5: "without scaling", 6: "scaling back on", 7: "integrand object"}
FH = {1: "default rule", 2: "another face, default rule", 3: "boundary face", 4: "low rule", 5: "high rule", 6: "without scaling", 7: "boundary face without scaling", 8: "scaling back on", 11: "default rule", 12: "low rule",
      13: "another face", 14: "boundary face", 15: "without scaling", 16: "integrand object", 17: "face matrix"}


def where(tag, i, j, k):
    sh, h = divmod(i, 100)
    if tag in ("order", "ruleshape"):
        return "default quadrature rule of the %s of %s elements of orders %d and %d (%s), assignment history %d" % (["element", "face"][k % 10], {8: "square and triangle"}.get(sh, SHAPE.get(sh, sh)), h // 10, h % 10,
                                                                                                         "order too low" if tag == "order" else "rule for another shape", j)
    n = "FaceIntegral" if h >= 50 else "ElementIntegral"
    return "%s on %s: %s result, entry %d, %s" % (n, SHAPE.get(sh, sh), tag, k, (FH if h >= 50 else EH).get(h % 50, h))


def check():
    c = Check("P17", "abstract interpretation of ElementIntegral and FaceIntegral along sequences of integrals (elements, faces, rules, scaling, return types), with opaque integrands and symbolic node positions; each result is compared with "
              "the sum over the rule of weight x |det J| (faces: length of the normal vector) x integrand at that point; default rules are enumerated over orders and assignment histories")
    lower(kernel_sources(*DIRS))

    def run(n):
        try:
            return Geo("integral", entry="probe_integral%d" % n, dirs=DIRS, strict=False)
        except Broken as e:
            return e
    with ThreadPoolExecutor(6) as ex:
        Gs = list(ex.map(run, range(1, 7)))
    for n, G in enumerate(Gs, 1):
        if isinstance(G, Broken):
            raise G
        failures(c, G, "integrals", where)
        for tag in sorted(G.t):
            if tag.startswith("_") or tag.startswith("try."):
                continue
            pairs(c, G, tag, tag, where, keytag="integral%d/%s" % (n, tag))
    if not c.viol and not c.undec:
        for g, n in (("double", 100), ("vector", 250), ("matrix", 200), ("pair", 90), ("facematrix", 90), ("order", 1700), ("base", 50)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": sum(G.ctx.stats.get("analysed", 0) for G in Gs)})


main(check)

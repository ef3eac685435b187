#!/usr/bin/env python3
"""P15: evaluation through PhysicalElement and PhysicalFace along histories of setter calls."""
from geomlib import *
from pairlib import *
from concurrent.futures import ThreadPoolExecutor

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
WHAT = {"elem": "bookkeeping", "geo": "geometry", "absdet": "absolute Jacobian determinant", "invt": "inverse transposed Jacobian", "bf": "basis function value", "bfd": "basis function gradient",
        "bf0": "scalar access without unknown", "bfv": "vector basis function value", "bfc": "basis function curl", "bfdiv": "basis function divergence", "bfv0": "vector access without unknown",
        "sol": "solution", "sold": "solution gradient", "res": "result storage (zero, sized for the current element/face)", "face": "bookkeeping", "bfn": "basis function times normal",
        "bfun": "basis function times unit normal", "cross": "normal cross basis function", "hist": "history"}
EH = {1: "after setElement(A), setPointReference(x)", 2: "after another point on the same element", 3: "after moving to element B (other numbers of functions)", 4: "back at element A",
      5: "after changing the transformation of unknown 0", 6: "after changing the transformation of unknown 1", 7: "after changing the transformation of unknown 0 at a quadrature point", 8: "after changing both transformations at a quadrature point", 74: "uniform unknowns, after changing the transformation at a quadrature point", 51: "after setQuadratureRule", 52: "at the last quadrature point", 53: "at a quadrature point of element B",
      54: "with another quadrature rule", 55: "at a point after quadrature points", 56: "through the map of face 0", 57: "through the map of face 1", 58: "back at an interior rule",
      71: "uniform unknowns, point x", 72: "uniform unknowns, point y", 73: "uniform unknowns, quadrature point"}
FH = {1: "after setFace(F1), setPointReference(x)", 2: "after another point on the same face", 3: "after moving to face F2 (other numbers of functions)", 4: "back at face F1", 5: "after changing the transformation", 6: "after changing the transformation of unknown 1", 15: "after changing the transformation at a quadrature point", 16: "after changing both transformations at a quadrature point", 24: "boundary face, after changing the transformation", 34: "uniform unknowns, after changing the transformation",
      11: "after setQuadratureRule", 12: "at the last quadrature point", 13: "at a quadrature point of face F2", 14: "at a point after quadrature points", 21: "boundary face", 22: "second boundary face (other number of functions)",
      23: "boundary face, quadrature point", 31: "uniform unknowns, point x", 32: "uniform unknowns, point y", 33: "uniform unknowns, quadrature point", 41: "rotated periodic face", 42: "rotated periodic face, other point",
      43: "ordinary face after a rotated one", 44: "rotated face again"}
TRF = ["H1/H1", "first vector/H1", "second vector/first vector", "scaling/scaling"]


def check():
    c = Check("P15", "abstract interpretation of PhysicalElement and PhysicalFace (and the quadrature-rule caches behind them) along setter histories, with opaque basis functions (every value, derivative, vector component, curl and divergence an "
              "affine function of the point with independent indeterminates), symbolic node positions, points and coefficients; every accessor is compared, as a rational function, with its definition for the current element/face, point and transformation")
    jobs = [("physelem", d) for d in (1, 2, 3)] + [("physface", d) for d in (1, 2, 3)]
    lower(kernel_sources(*DIRS))

    def run(j):
        try:
            return Geo(j[0], entry="probe_%s%d" % j, dirs=DIRS, strict=False)
        except Broken as e:
            return e
    with ThreadPoolExecutor(6) as ex:
        Gs = list(ex.map(run, jobs))
    for (probe, D), G in zip(jobs, Gs):
        if isinstance(G, Broken):
            raise G
        elem = probe == "physelem"

        def where(tag, i, j, k):
            cfg = i
            b = tag.split(".")[0]
            if elem and b in ("bf", "bfd", "bf0", "bfv", "bfc", "bfdiv", "bfv0"):
                cfg = i // 100
                f = " of function %d of unknown %d" % (i % 10, i // 10 % 10)
            elif not elem and b in ("bf", "bfd", "bf0", "bfv", "bfc", "bfdiv", "bfv0", "bfn", "bfun", "cross"):
                cfg = i // 1000
                f = " of function %d of unknown %d on the %s" % (i % 10, i // 10 % 10, ["left", "right"][i // 100 % 10])
            else:
                f = ""
            h = cfg % 1000
            return "%s<%d>: %s%s, transformations %s, %s" % ("PhysicalElement" if elem else "PhysicalFace", D, WHAT.get(b, b) + ("" if "." not in tag else " (%s)" % tag.split(".")[1]), f, TRF[min(h // 100, 3)],
                                                             (EH if elem else FH).get(h % 100, "history %d" % (h % 100)))
        nm = "element" if elem else "face"
        failures(c, G, "%s accessors" % nm, where)
        for tag in sorted(G.t):
            if tag.startswith("_") or tag.startswith("try."):
                continue
            pairs(c, G, tag, "%s %s" % (nm, tag.split(".")[0]), where, keytag="%s%d/%s" % (probe, D, tag))
    if not any(u[0].endswith("accessors") for u in c.undec + c.viol):
        for g, n in (("element bf", 700), ("element bfd", 1200), ("face bf", 1500), ("face bfd", 2500), ("face bfn", 1500), ("element res", 9000), ("face res", 25000), ("element bfv", 800), ("face bfv", 2500), ("face cross", 1500)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": sum(G.ctx.stats.get("analysed", 0) for G in Gs)})


main(check)

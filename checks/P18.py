#!/usr/bin/env python3
"""P18: geometry of faces."""
from geomlib import *
from pairlib import *
from concurrent.futures import ThreadPoolExecutor

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
SHAPE = {1: "line", 2: "square", 3: "triangle", 4: "cube", 5: "tetrahedron", 6: "pyramid", 7: "prism"}
WHAT = {"normal": "J^T n against |det J| times the outward normal of the reference face", "map": "map of a face point into the left element", "physical": "physical position of a face point", "boundary": "bookkeeping of a boundary face",
        "diameter": "diameter", "index": "selected orientation", "type": "classification and bookkeeping", "left": "map into the left element", "right": "map into the right element", "across": "map from left to right face coordinates",
        "rightjacobian": "Jacobian of the map into the right element", "meet": "physical position seen from both sides"}
KIND = ["internal face", "periodic face", "boundary face that gets a second element"]


def where(tag, i, j, k):
    if tag in ("normal", "map", "physical", "boundary", "diameter"):
        return "face %d of the %s: %s (entry %d)" % (i % 100, SHAPE.get(i // 100, i // 100), WHAT[tag], k)
    o, i = i % 10, i // 10
    fr, fl, sr, sl = i % 10, i // 10 % 10, i // 100 % 10, i // 1000
    return "face %d of the %s next to face %d of the %s, corner ordering %d, %s: %s (entry %d)" % (fl, SHAPE.get(sl, sl), fr, SHAPE.get(sr, sr), o, KIND[j] if j < 3 else "", WHAT.get(tag, tag), k)


def check():
    c = Check("P18", "abstract interpretation of FaceGeometry and Face for every face of every shape and every pair of neighbouring faces and corner ordering, with symbolic face points and node positions; identities of rational functions "
              "(Nanson's relation for the normal, composition of the maps) and coincidence of both sides wherever the selected orientation matches the corners")
    lower(kernel_sources(*DIRS))

    def run(n):
        try:
            return Geo("facegeom", entry="probe_facegeom%d" % n, dirs=DIRS, strict=False)
        except Broken as e:
            return e
    with ThreadPoolExecutor(3) as ex:
        Gs = list(ex.map(run, range(1, 4)))
    for n, G in enumerate(Gs, 1):
        if isinstance(G, Broken):
            raise G
        failures(c, G, "faces", where)
        for tag in sorted(G.t):
            if tag.startswith("_") or tag.startswith("try."):
                continue
            pairs(c, G, tag, tag, where, keytag="facegeom%d/%s" % (n, tag))
    if not c.viol and not c.undec:
        for g, n in (("normal", 70), ("index", 4500), ("right", 26000), ("left", 26000), ("meet", 7000), ("rightjacobian", 25000), ("diameter", 50), ("type", 20000)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": sum(G.ctx.stats.get("analysed", 0) for G in Gs)})


main(check)

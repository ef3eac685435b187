#!/usr/bin/env python3
"""P19: storage on elements and faces, local numbering of degrees of freedom."""
from geomlib import *
from pairlib import *

DIRS = ("LinearAlgebra", "Geometry", "Geometry/Mappings", "Base", "FE", "Integration", "Integration/QuadratureRules")
FILES = ["/repo/kernel/Utilities/ElementLocalIndexing.cpp", "/repo/kernel/Utilities/FaceLocalIndexing.cpp"]
KIND = ["different numbers of functions per unknown", "other numbers of functions", "interior, face and vertex functions", "vertex functions only"]
STEP = {1: "written one by one", 2: "written per unknown", 3: "written as one vector", 4: "written through a reference", 11: "fresh", 12: "written one by one", 13: "written per unknown", 14: "written as one vector", 15: "after writing other data",
        31: "in a copy", 32: "in a copy", 33: "after changing a copy", 34: "after changing a copy"}


def where(tag, i, j, k):
    if i < 10:
        return "Element (%s): %s [%d,%d]%s" % (KIND[i] if i < 4 else i, tag, j, k, ", " + STEP[j] if j in STEP and tag.split(".")[0] in ("level", "integration") else "")
    if i < 200:
        return "Face between elements with %s and %s: %s [%d,%d]" % (KIND[(i - 100) // 10], KIND[i % 10], tag, j, k)
    if i < 300:
        return "FaceMatrix with %d left and %d right functions: %s, step %d [%d]" % ((i - 200) // 10, i % 10, tag, j, k)
    return "%s: case %d [%d,%d]" % ({"elementindex": "ElementLocalIndexing", "faceindex": "FaceLocalIndexing", "table": "Table2D"}.get(tag, tag), i, j, k)


def check():
    c = Check("P19", "abstract interpretation of the storage of elements, faces and face matrices and of the local numberings, every stored number an indeterminate of its own: each accessor is compared with a reference model (a plain array indexed by "
              "unknown and function), over assignment orders of interior, face and vertex functions and pairs of neighbours with different numbers of functions")
    G = Geo("storage", entry="probe_storage", dirs=DIRS, files=FILES, strict=False)
    failures(c, G, "accessors", where)
    for tag in sorted(G.t):
        if tag.startswith("_") or tag.startswith("try."):
            continue
        pairs(c, G, tag, tag.split(".")[0], where, keytag="storage/" + tag)
    if not c.viol and not c.undec:
        for g, n in (("level", 3000), ("integration", 1800), ("number", 50), ("function", 300), ("facenumber", 1100), ("facefunction", 900), ("facematrix", 4200), ("elementindex", 440), ("faceindex", 1100), ("size", 1200)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0)})


main(check)

"""The integrals the API classes compute by default (part of P24)."""
from meshlib import *
from pairlib import *

GROUP = {"mass": "mass matrix", "mass.n": "mass matrix", "initial": "projected initial solution", "source": "source terms", "facesource": "source terms", "error": "error integral", "largest": "largest error", "stiffness": "stiffness matrices", "facematrix": "stiffness matrices",
         "solution": "solution in a point", "gradient": "solution in a point", "direct": "basis functions in a point", "written": "written solution", "vec.n": "sizes"}
SHAPE = {1: "line", 2: "triangle", 3: "square", 4: "tetrahedron", 5: "prism"}


def where(tag, i, j, k):
    return "%s (%s), entry %d %d" % (GROUP.get(tag, tag), SHAPE.get(i, "case %d" % i), j, k)


def defaults(c):
    G = run("api", "probe_api", [], dirs=MDIRS + ("Base/TimeIntegration", "Output"), exclude=(), defs=["-fno-access-control"])
    failures(c, G, "default integrals", where)
    for tag in GROUP:
        pairs(c, G, tag, GROUP[tag], where)
    if not c.viol and not c.undec:
        for g, n in (("mass matrix", 180), ("projected initial solution", 60), ("source terms", 140), ("error integral", 5), ("largest error", 12), ("stiffness matrices", 500), ("solution in a point", 60), ("basis functions in a point", 200), ("written solution", 20)):
            c.expect(g, n)
    return G

"""Facts extracted by the geometry probe, shared by the geometry checks."""
import itertools
from alg import *
from vlib import *

SH = {0: "point", 1: "line", 2: "square", 3: "triangle", 4: "cube", 5: "tetrahedron", 6: "pyramid", 7: "prism", 8: "hypercube"}
TYPE = {0: "point", 1: "line", 2: "triangle", 3: "square", 4: "tetrahedron", 5: "pyramid", 6: "cube", 7: "prism", 8: "hypercube"}
VERT = {
    "point": [()], "line": [(-1,), (1,)],
    "square": list(itertools.product((-1, 1), repeat=2)), "triangle": [(0, 0), (1, 0), (0, 1)],
    "cube": list(itertools.product((-1, 1), repeat=3)), "hypercube": list(itertools.product((-1, 1), repeat=4)),
    "tetrahedron": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyramid": [(0, 0, 1), (-1, -1, 0), (1, -1, 0), (-1, 1, 0), (1, 1, 0)],
    "prism": [(x, y, z) for z in (-1, 1) for x, y in ((0, 0), (1, 0), (0, 1))]}
MEASURE = {"point": 1, "line": 2, "square": 4, "triangle": .5, "cube": 8, "tetrahedron": 1 / 6, "pyramid": 4 / 3, "prism": 1, "hypercube": 16}
# outward half-spaces a.x <= b
HALF = {
    "line": [((1,), 1), ((-1,), 1)],
    "triangle": [((-1, 0), 0), ((0, -1), 0), ((1, 1), 1)],
    "tetrahedron": [((-1, 0, 0), 0), ((0, -1, 0), 0), ((0, 0, -1), 0), ((1, 1, 1), 1)],
    "pyramid": [((0, 0, -1), 0), ((1, 0, 1), 1), ((-1, 0, 1), 1), ((0, 1, 1), 1), ((0, -1, 1), 1)],
    "prism": [((-1, 0, 0), 0), ((0, -1, 0), 0), ((1, 1, 0), 1), ((0, 0, 1), 1), ((0, 0, -1), 1)]}
for n, d in (("square", 2), ("cube", 3), ("hypercube", 4)):
    HALF[n] = [(tuple(s if i == j else 0 for j in range(d)), 1) for i in range(d) for s in (1, -1)]


GEODIRS = ("Geometry", "Integration/QuadratureRules", "Geometry/Mappings")


class Geo:
    """runs the abstract interpreter on a probe linked with kernel directories"""

    def __init__(s, probe="geometry", entry=None, dirs=GEODIRS, text=None, files=(), exclude=(), **kw):
        entry = entry or "probe_" + probe
        tmp = None
        src = ENGINE + "/probes/%s.cpp" % probe
        if text is not None:
            tmp = tempfile.mkdtemp()
            src = "%s/%s.cpp" % (tmp, probe)
            open(src, "w").write(text)
        try:
            bcs = lower(kernel_sources(*dirs, exclude=exclude) + list(files) + [src, ENGINE + "/models/libstdcxx.cpp", ENGINE + "/models/blas.cpp"], **kw)
            s.recs = interpret(entry, bcs)
        finally:
            if tmp:
                shutil.rmtree(tmp)
        s.ctx = Ctx(s.recs)
        s.t = {}
        s.fail = {}
        last = {}
        for r in s.recs:
            t, x = r["t"], tuple(r["x"])
            if t.startswith("try."):
                last[t[4:]] = x
            if "fail" in r:
                s.fail[(t, last.get(t, (0, 0, 0)))] = r
            else:
                s.t.setdefault(t, {})[x] = r.get("v")

    def num(s, tag, x):
        return leaf(s.t[tag][x]).ev({})

    def list(s, tag, g, i):
        n = s.t[tag][(g, i, -1)]
        return [s.t[tag][(g, i, k)] for k in range(n)]

    def pt(s, tag, i, j, d):
        return [s.t[tag][(i, j, k)] for k in range(d)]

    def cpt(s, tag, i, j, d):
        return tuple(leaf(v).ev({}) for v in s.pt(tag, i, j, d))

    def cls(s, tag, x):
        v = s.t[tag][x]
        return "%s (%s)" % (v["class"].split("::")[-1], v["file"])

    def nodes(s, g):
        d = DIM[SH[g]]
        return [s.cpt("node", g, i, d) for i in range(s.t["nn"][(g, 0, 0)])]


def close(a, b, t=1e-10):
    return len(a) == len(b) and all(abs(x - y) <= t for x, y in zip(a, b))


def nodename(pts, p):
    for i, q in enumerate(pts):
        if close(q, p):
            return i
    return None

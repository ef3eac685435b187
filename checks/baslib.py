"""Facts about the basis function sets, shared by the basis checks."""
from geomlib import *

FAM = {1: ("line", "H1 line"), 2: ("square", "H1 square"), 3: ("triangle", "H1 triangle"), 4: ("cube", "H1 cube"), 5: ("prism", "H1 prism"),
       6: ("pyramid", "H1 pyramid"), 7: ("tetrahedron", "H1 tetrahedron"), 11: ("line", "monomial 1D"), 12: ("square", "monomial 2D"),
       13: ("cube", "monomial 3D"), 14: ("hypercube", "monomial 4D"), 15: ("line", "constant 1D"), 16: ("square", "constant 2D"),
       17: ("cube", "constant 3D"), 18: ("hypercube", "constant 4D"), 20: ("triangle", "Nedelec 2D"), 21: ("tetrahedron", "Ainsworth-Coyle 3D"),
       22: ("tetrahedron", "Nedelec 3D")}


def basis(entry):
    return Geo("basis", entry=entry, dirs=GEODIRS + ("FE",))


def outcome(c, G, kind, x, group, key):
    """record a failed analysis step; True if the step failed"""
    fl = G.fail.get((kind, x))
    if not fl:
        return False
    (c.bad if fl["fail"] == "abort" else c.unknown)(group, key, "%s: %s at %s" % (key, fl["why"], fl["at"].split(" < ")[0]))
    return True


def cmp(c, G, group, key, who, got, want, shape, what):
    """obligation: two abstract values are the same function on the shape"""
    r = G.ctx.equal(got, want, sampler(shape))
    if r is True:
        c.ok(group)
    elif r is None:
        c.unknown(group, key, "%s: %s" % (who, what))
    else:
        pt = {k: round(v, 6) for k, v in r[1].items() if 0 <= k < 4}
        c.bad(group, key, "%s: %s; at %s it is %.12g instead of %.12g" % (who, what, pt, r[2], r[3]))


def der(v, d):
    return map1(v, lambda x: x.d(d))

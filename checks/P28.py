#!/usr/bin/env python3
"""P28: the discretisations of DG-Max."""
from meshlib import *
from pairlib import *


def meshes():
    M = meshgen.Mesh
    t = M("2 triangles", 2, [(0, 0), (2, .25), (.5, 1.5), (2.25, 2)], [[0, 1, 2], [3, 2, 1]])
    s = M("2 tetrahedra", 3, [(0, 0, 0), (2, .25, 0), (.5, 1.5, .25), (.25, 0, 1.5), (2, 2, 1.75)], [[0, 1, 2, 3], [2, 4, 1, 3]])
    return [t, s]


def gather():
    cs = meshes()
    A = REPO + "/applications/DG-Max/"
    U = REPO + "/kernel/Utilities/"
    G = run("dgmax", "probe_dgmax", cs, texts=[m.text(number=lambda m, p, c: ("%.4f" % m.points[p][c])) for m in cs],
            files=[A + x for x in ("Algorithms/DGMaxDiscretization.cpp", "Algorithms/DivDGMaxDiscretization.cpp", "Algorithms/AbstractDiscretization.cpp", "ElementInfos.cpp")] + [U + x + ".cpp" for x in ("ElementLocalIndexing", "FaceLocalIndexing")],
            defs=["-DHPGEM_USE_COMPLEX_PETSC", "-I" + A], pre=[ENGINE + "/shadow/dgmax"])
    return G


NAME = {"mass": "mass matrix of element %d", "stiffness": "stiffness matrix of element %d", "projector": "projector of element %d", "source": "source vector of element %d", "source.none": "empty source vector of element %d",
        "face": "matrix of face %d", "impedance": "impedance matrix of face %d", "boundary": "boundary vector of face %d", "boundary.none": "empty boundary vector of face %d", "field": "field in element %d", "curl": "curl of the field in element %d",
        "written": "output in element %d", "l2error": "error norm", "faceintegral": "integral of the field over face %d", "flux": "energy flux through face %d",
        "invert": "inverted mass matrix of element %d", "cholesky": "factor of the mass matrix of element %d", "ortho": "rescaled stiffness matrix of element %d", "orthoface": "rescaled matrix of face %d", "orthoproj": "rescaled projector of element %d"}
GROUP = {"mass": "element matrices", "stiffness": "element matrices", "projector": "element matrices", "source": "source vectors", "source.none": "source vectors", "face": "face matrices", "impedance": "face matrices", "boundary": "boundary vectors",
         "boundary.none": "boundary vectors", "field": "fields", "curl": "fields", "written": "fields", "l2error": "error norms", "faceintegral": "integrals over faces", "flux": "energy fluxes",
         "invert": "rescaled systems", "cholesky": "rescaled systems", "ortho": "rescaled systems", "orthoface": "rescaled systems", "orthoproj": "rescaled systems"}


def conf(c):
    return "%dD, %s, %s" % (c // 100, "tensors (PML)" if c % 100 >= 50 else "scalar materials", {1: "DGMax", 2: "DGMax with projector", 10: "DivDGMax (IP)", **{20 + k: "DivDGMax (Brezzi fluxes %s)" % " ".join(str(b + 1) for b in range(3) if k >> b & 1) for k in range(1, 8)}, 3: "DGMax, inverted mass", 4: "DGMax, orthogonalised"}.get(c % 50, "DGMax"))


def where(tag, i, j, k):
    if tag not in NAME:
        return tag + " of " + conf(i if i < 1000 else i // 10)
    e = i % 100
    n = NAME[tag] % (e % 10) if "%" in NAME[tag] else NAME[tag]
    return "%s%s, entry %d (%s)" % (n, " (boundary condition %d)" % (e // 10) if e >= 10 else "", j, conf(i // 100))


def check():
    c = Check("P28", "abstract interpretation of the DG-Max discretisations on meshes with opaque basis functions: matrices, vectors, fields, energy fluxes and norms are compared, as expressions in the indeterminates, with their definitions")
    G = gather()
    failures(c, G, "interpretation", where)
    for tag in GROUP:
        pairs(c, G, tag, GROUP[tag], where)
    if not c.viol and not c.undec:
        for g, n in (("boundary vectors", 1600), ("element matrices", 1000), ("energy fluxes", 360), ("error norms", 12), ("face matrices", 7000), ("fields", 600), ("integrals over faces", 48), ("rescaled systems", 550), ("source vectors", 300)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0)})


if __name__ == "__main__":
    main(check)

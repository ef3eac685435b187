#!/usr/bin/env python3
"""P30: the problems of the applications assemble the forms of their equations."""
from meshlib import *
from pairlib import *

APPS = {1: "TutorialPoisson", 2: "PoissonTest", 3: "TutorialAdvection", 4: "AcousticWave", 5: "AcousticWaveLinear", 6: "Euler"}
FILES = {1: "TutorialPoisson/main.cpp", 2: "PoissonTest/main.cpp", 3: "TutorialAdvection/main.cpp", 4: "ExampleMultipleVariableProblem/AcousticWave.h", 5: "ExampleMultipleVariableProblem/AcousticWaveLinear.h", 6: "Euler/Euler.h"}
GROUP = {"element": "element terms", "face": "face terms", "mass": "mass matrices", "initial": "initial solutions", "facesource": "boundary sources", "penalty": "penalties"}


def meshes():
    M = meshgen.Mesh
    return [M("2 lines", 1, [(0,), (.75,), (1.,)], [[0, 1], [1, 2]]),
            M("2 triangles", 2, [(0, 0), (1, 0), (0, 1), (1, 1)], [[0, 1, 2], [3, 2, 1]]),
            M("2 triangles along the flow", 2, [(0, 0), (.5, 1), (1, 0), (0, .75)], [[0, 1, 2], [1, 3, 0]]),
            M("3 tetrahedra", 3, [(0, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, .25), (1, 1, 0), (1, .25, 1)], [[0, 1, 2, 3], [1, 2, 3, 4], [2, 3, 4, 5]])]


def where(tag, i, j, k):
    a = i // 1000
    return "%s, %s %d of mesh %d, entry %d %d" % (APPS.get(a, a), tag, i % 100, i // 100 % 10, j, k)


def gather(app, axes=0):
    src = open("%s/applications/%s" % (REPO, FILES[app]), "rb").read()  # a part of the translation unit that the cache does not know about
    d = {1: 2, 2: 3, 3: 2}.get(app, axes)
    cs = [m for m in meshes() if m.dim == d]
    return run("apps", "probe_apps", cs, texts=[m.text(number=lambda m, p, c: "%.4f" % m.points[p][c]) for m in cs], dirs=MDIRS + ("Base/TimeIntegration", "Output"), exclude=(),
               preamble='#define APP %d\n#define AXES %d\n#define APPFILE "%s/applications/%s"\n// %s\n' % (app, axes, REPO, FILES[app], hashlib.sha1(src).hexdigest()))


def check():
    c = Check("P30", "abstract interpretation of the applications' problems on meshes with opaque basis functions: the matrices and vectors they assemble are compared, as expressions in the indeterminates, with the forms of the equations they state")
    n = 0
    todo = ((1, 0), (2, 0), (3, 0), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (5, 3), (6, 2), (6, 3))
    first = gather(*todo[0])  # compiles what all of them share
    with cf.ThreadPoolExecutor(8) as ex:
        results = [first] + list(ex.map(lambda t: gather(*t), todo[1:]))
    for (app, axes), G in zip(todo, results):
        failures(c, G, "interpretation", where)
        for tag in GROUP:
            pairs(c, G, tag, GROUP[tag], where, keytag="%s/%d/%s" % (APPS[app], axes, tag))
        n += G.ctx.stats.get("analysed", 0)
    if not c.viol and not c.undec:
        for g, m in (("element terms", 600), ("face terms", 3000), ("mass matrices", 500), ("initial solutions", 60), ("boundary sources", 50), ("penalties", 2)):
            c.expect(g, m)
    return c.finish({"functions_interpreted": n})


if __name__ == "__main__":
    main(check)

#!/usr/bin/env python3
"""P27: a mesh read from a Gmsh file is the mesh of the file."""
from prelib import *
import P26

# Gmsh type and, for every vertex of the Gmsh element, the vertex of ours
GMSH = {"line": (1, [0, 1]), "triangle": (2, [0, 1, 2]), "square": (3, [0, 1, 3, 2]), "tetrahedron": (4, [0, 1, 2, 3]), "cube": (5, [0, 1, 3, 2, 4, 5, 7, 6]), "prism": (6, [0, 1, 2, 3, 4, 5]), "pyramid": (7, [1, 2, 4, 3, 0]),
        "quadratic triangle": (9, [0, 2, 5, 1, 4, 3]), "quadratic tetrahedron": (11, [0, 2, 5, 9, 1, 4, 3, 6, 8, 7])}
# lower dimensional elements by the number of vertices of the entity (vertices in our order -> Gmsh order)
FACE = {2: (1, [0, 1]), 3: (2, [0, 1, 2]), 4: (3, [0, 1, 3, 2])}
STYLES = {0: "names of physical groups", 1: "unordered node numbers with gaps, data per element", 2: "numbers of physical groups", 3: "no tags"}


def number(x):
    s = "%.12f" % x
    assert float(s) == x, x
    return s.rstrip("0").rstrip(".")


def gmsh(m, style):
    """the mesh as text of a Gmsh file (version 2.2, ASCII) and the name of the zone of every element"""
    o = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    n = len(m.points)
    zone = [m.zones[z] for z in m.zone]
    tags = [5 + 3 * z for z in m.zone]
    tag = {p: p + 1 for p in range(n)}
    order = list(range(n))
    if style == 1:
        # the numbers of the nodes are neither dense nor ordered
        k = next(k for k in (7, 5, 3, 11, 13, 2) if n % k)
        order = [(k * i + 2) % n for i in range(n)]
        tag = {p: 3 * ((p * k + 1) % n) + 2 for p in range(n)}
        o = ["$Comments", "a comment", "$Nodes are not here", "$EndComments"] + o
    if style == 0:
        o += ["$PhysicalNames", str(len(m.zones) + m.dim - 0)]
        for d in range(m.dim):
            # numbers are used again for other dimensions
            o.append('%d %d "lower %d"' % (d, tags[0], d))
        for z, name in enumerate(m.zones):
            o.append('%d %d "%s"' % (m.dim, 5 + 3 * z, name))
        o.append("$EndPhysicalNames")
    o += ["$Nodes", str(n)]
    for p in order:
        x = [number(position(m, p, a)) for a in range(m.dim)] + ["0"] * (3 - m.dim)
        o.append("%d %s" % (tag[p], " ".join(x)))
    o += ["$EndNodes", "$Elements"]
    els = []
    number_of = []
    if style in (0, 1, 3):
        els.append("15 2 %d 1 %d" % (tags[0], tag[m.elements[0][0]]))
    # faces on one side of every other element
    for e, v in enumerate(m.elements):
        sh = m.shape[e]
        if style == 0 and m.dim > 1 and "quadratic" not in sh and e % 2 == 0:
            f = meshgen.FACES[sh][e % len(meshgen.FACES[sh])]
            if not (m.dim == 3 and len(f) == 4 and sh in ("prism", "pyramid")):
                t, perm = FACE[len(f)]
                els.append("%d 2 %d 4 %s" % (t, tags[0], " ".join(str(tag[v[f[k]]]) for k in perm)))
        t, perm = GMSH[sh]
        number_of.append(len(els) + 1)
        head = {0: "2 %d 9" % tags[e], 1: "4 3 7 1 1", 2: "3 %d 1 0" % tags[e], 3: "0"}[style]
        els.append("%d %s %s" % (t, head, " ".join(str(tag[v[k]]) for k in perm)))
    o.append(str(len(els)))
    o += ["%d %s" % (i + 1, e) for i, e in enumerate(els)]
    o.append("$EndElements")
    ms = merges(m)
    if ms:
        o += ["$Periodic", str(len(ms))]
        for k, (pairs, _) in enumerate(ms):
            o += ["%d %d %d" % (m.dim - 1, 10 + k, 20 + k), str(len(pairs))]
            o += ["%d %d" % (tag[i], tag[j]) for i, j in pairs]
        o.append("$EndPeriodic")
    if style == 1:
        o += ["$ElementData", "1", '"zones"', "2", "0.0", "1.5", "4", "0", "1", str(len(number_of)), "0"]
        o += ["%d %d.%s" % (i, tags[e], "0") for e, i in enumerate(number_of)]
        o.append("$EndElementData")
        zone = [str(t) for t in tags]
    if style == 0:
        o += ["$NodeData", "1", "ignored", "$EndNodeData", "$ElementData", "1", "ignored", "$EndElementData"]
    if style == 2:
        zone = [str(t) for t in tags]
    if style == 3:
        zone = ["Main"] * len(m.elements)
    eol = "\r\n" if style == 1 else "\n"
    return eol.join(o) + ("" if style == 2 else eol), zone


def esc(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r") + '"'


def cases():
    cs = meshgen.cases()
    out = []
    simp = lambda m, s: all(x == s for x in m.shape)
    for m in list(cs):
        if simp(m, "triangle") or simp(m, "tetrahedron"):
            cs.append(meshgen.quadratic(m, "curved: " + m.name))
    for i, m in enumerate(cs):
        for s in STYLES:
            # every mesh in at least two ways
            if i % 4 in (s, (s + 1) % 4) or "tetrahedr" in m.name or s == 1:
                text, zone = gmsh(m, s)
                z = sorted(set(zone))
                k = meshgen.Mesh("%s as Gmsh file with %s" % (m.name, STYLES[s]), m.dim, m.points, m.elements, m.glue, m.part, [z.index(x) for x in zone], z)
                out.append((k, text))
    return out


def faces(shape, v):
    return {frozenset(v[x] for x in f) for f in meshgen.FACES[shape]} | {frozenset(v[x] for x in f) for f in meshgen.EDGES.get(shape, [])}


def check():
    c = Check("P27", "abstract interpretation of the reader of Gmsh files followed by the construction and output of the mesh, on texts of Gmsh files generated from meshes of every shape of element; the file written is parsed and compared "
              "with the mesh of the Gmsh file")
    cs = cases()
    o = []
    for i, (m, t) in enumerate(cs):
        o.append("static const int pa%d[] = {%s};" % (i, ", ".join(map(str, m.part))))
    o.append("static const Case cases[] = {%s};\nstatic const int numberOfCases = %d;" % (",\n".join("{%d, %d, %d, pa%d, %s}" % (m.dim, m.size, len(m.elements), i, esc(t)) for i, (m, t) in enumerate(cs)), len(cs)))
    G = run("gmsh", "probe_gmsh", "\n".join(o))
    for (t, x), r in sorted(G.fail.items()):
        name = cs[x[0]][0].name
        (c.bad if r["fail"] == "abort" else c.unknown)("mesh files", name, "%s: %s at %s" % (name, r["why"], r["at"]))
    failed = {x[0] for _, x in G.fail}
    files = {}
    for (i, n, kind), v in sorted(G.t.get("file", {}).items()):
        files.setdefault(i, []).append(v if isinstance(v, str) else v["c"] if isinstance(v, dict) and "c" in v else v)
    for i, (m, _) in enumerate(cs):
        if i in failed:
            continue
        f = P26.read(c, m.name, files.get(i))
        if f is None:
            continue
        c.ok("mesh files", 2)
        if G.t["dimension"].get((i, 0, 0)) != m.dim or G.t.get("valid", {}).get((i, 0, 0)) != 1:
            c.bad("mesh files", m.name + "/valid", "%s: the mesh has dimension %s or is not valid" % (m.name, G.t["dimension"].get((i, 0, 0))))
            continue
        # the vertices may be numbered in any way that gives the same faces and edges
        P = {tuple(position(m, p, a) for a in range(m.dim)): p for p in range(len(m.points))}
        where = {frozenset(e): j for j, e in enumerate(m.elements)}
        els = list(m.elements)
        bad = None
        for k, (v, _, _, _) in enumerate(f["elements"]):
            try:
                pts = [P.get(f["nodes"][n][1][q]) for n, q in v]
            except IndexError:
                pts = [None]
            j = where.get(frozenset(pts))
            c.ok("elements")
            if j is None or len(pts) != len(m.elements[j]):
                bad = "element %d has the vertices %s" % (k, [f["nodes"][n][1][q] if n < len(f["nodes"]) and q < len(f["nodes"][n][1]) else None for n, q in v])
                break
            c.ok("order of the vertices")
            if faces(m.shape[j], pts) != faces(m.shape[j], m.elements[j]) or "quadratic" in m.shape[j] and not middles(m.shape[j], pts, m.elements[j]):
                bad = "the vertices of element %d are numbered %s, which is no numbering of the vertices of the %s %s" % (k, pts, m.shape[j], m.elements[j])
                break
            els[j] = pts
        if bad:
            c.bad("elements", m.name, "%s: %s" % (m.name, bad))
            continue
        P26.compare(c, m.name, f, meshgen.Mesh(m.name, m.dim, m.points, els, m.glue, m.part, m.zone, m.zones))
    if not c.viol and not c.undec:
        for g, n in (("elements", 800), ("order of the vertices", 300), ("nodes", 1500), ("faces and edges", 1200), ("processes", 3000), ("mesh files", 150)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "Gmsh files": len(cs)})


def middles(shape, pts, e):
    """the corners are the corners and every vertex between two corners is the middle of that edge"""
    corners = [0, 2, 5] if "triangle" in shape else [0, 2, 5, 9]
    between = {(0, 2): 1, (0, 5): 3, (2, 5): 4, (0, 9): 6, (2, 9): 7, (5, 9): 8}
    if {pts[x] for x in corners} != {e[x] for x in corners}:
        return False
    mid = {frozenset((e[a], e[b])): e[k] for (a, b), k in between.items() if a in corners and b in corners}
    return all(pts[k] == mid[frozenset((pts[a], pts[b]))] for (a, b), k in between.items() if a in corners and b in corners)


if __name__ == "__main__":
    main(check)

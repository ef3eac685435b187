#!/usr/bin/env python3
"""P26: the mesh files written by the Preprocessor describe the mesh it was given."""
from prelib import *

MODES = {0: "points identified by node numbers", 1: "with merged points", 2: "with periodic translations", 3: "as mesh file", 4: "with its periodicity ignored"}
NAMES = {1: "faces", 2: "edges"}


def structured(spec):
    n, lo, hi, tri, per = spec
    return "structured 1 %d\n%s\n%s\n%s\n%s\n%s\n" % (len(n), " ".join(map(str, n)), " ".join(map(str, lo)), " ".join(map(str, hi)), "triangular" if tri else "rectangular", " ".join("true" if p else "false" for p in per))


BOXES = [((4,), (-1,), (3,), False, (False,)), ((3,), (0.5,), (2,), False, (True,)),
         ((3, 2), (0, -1), (3, 3), False, (False, False)), ((3, 4), (1, 2), (2.5, 4), False, (True, False)), ((4, 3), (0, 0), (1, 3), False, (False, True)), ((3, 3), (-2, -2), (1, 4), False, (True, True)),
         ((3, 2), (0, -1), (3, 3), True, (False, False)), ((2, 3), (0, 0), (2, 1.5), True, (False, False)), ((4, 3), (1, 2), (3, 3.5), True, (True, False)), ((3, 4), (1, 2), (2.5, 3), True, (False, True)), ((4, 4), (0, 0), (2, 1), True, (True, True)),
         ((1, 1), (0, 0), (2, 1), True, (False, False)),
         ((2, 3, 1), (0, -1, 1), (1, 2, 3), False, (False, False, False)), ((3, 1, 2), (0, 0, 0), (1.5, 1, 2), False, (True, False, False)), ((2, 3, 2), (0, 0, 0), (1, 3, 2), False, (False, True, False)),
         ((3, 3, 3), (0, 0, 0), (3, 1.5, 6), False, (True, True, True)), ((2, 1, 3), (0, 0, 0), (2, 1, 6), False, (False, False, True)),
         ((2, 2, 1), (0, -1, 1), (1, 1, 2), True, (False, False, False)), ((3, 1, 2), (0, 0, 0), (1.5, 1, 2), True, (False, False, False)), ((1, 2, 2), (0, 0, 0), (1, 2, 3), True, (False, False, False)), ((4, 1, 1), (0, 0, 0), (2, 2, 3), True, (True, False, False))]


def check():
    c = Check("P26", "abstract interpretation of the Preprocessor library (mesh sources, Mesh, MergePlan, translationConnect, readers of hpGEM files, outputMesh): the text of every mesh file written is parsed and compared with the mesh "
              "that was described, whose faces, edges, nodes and neighbours are enumerated independently")
    cs = meshgen.cases()
    G = run("preproc", "probe_preproc", inc(cs, [(len(b[0]), structured(b)) for b in BOXES]))
    for (t, x), r in sorted(G.fail.items()):
        name = "%s, %s" % (cs[x[0]].name, MODES[x[1]]) if x[1] >= 0 else "structured mesh %s" % (BOXES[x[0]],)
        (c.bad if r["fail"] == "abort" else c.unknown)("mesh files", name, "%s: %s at %s" % (name, r["why"], r["at"]))
    failed = {x[:2] for _, x in G.fail}
    files = {}
    for (i, n, kind), v in sorted(G.t.get("file", {}).items()):
        files.setdefault(i, []).append(v if isinstance(v, str) else v["c"] if isinstance(v, dict) and "c" in v else v)
    for ci, m in enumerate(cs):
        for mode in MODES:
            if (ci, mode) in failed or mode in (1, 2, 4) and not merges(m):
                continue
            name = "%s, %s" % (m.name, MODES[mode])
            f = read(c, name, files.get(10 * ci + mode))
            if f is None:
                continue
            if G.t.get("valid", {}).get((10 * ci + mode, 0, 0)) != 1:
                c.bad("mesh files", name + "/valid", "%s: the mesh is not valid" % name)
            compare(c, name, f, m if mode != 4 else meshgen.Mesh(m.name, m.dim, m.points, m.elements, None, m.part, m.zone, m.zones), zones=mode != 3)
    for bi, b in enumerate(BOXES):
        if (bi, -1) in failed:
            continue
        name = "structured mesh %s" % (b,)
        f = read(c, name, files.get(100000 + bi))
        if f is not None:
            box(c, name, f, b)
    if not c.viol and not c.undec:
        for g, n in (("elements", 500), ("nodes", 1000), ("faces and edges", 900), ("processes", 2000), ("structured meshes", 400), ("mesh files", 60)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "meshes": len(cs), "structured meshes": len(BOXES)})


def read(c, name, parts):
    c.ok("mesh files")
    if not parts:
        c.bad("mesh files", name, "%s: no file is written" % name)
        return None
    if any(isinstance(p, dict) for p in parts):
        c.unknown("mesh files", name, "%s: coordinates not evaluated to numbers" % name)
        return None
    try:
        return parse(parts)
    except (Bad, ValueError, IndexError) as e:
        c.bad("mesh files", name, "%s: the file cannot be read: %s" % (name, e))
        return None


def compare(c, name, f, m, zones=True):
    """a file against the mesh it should describe; numbers of nodes, elements and other entities are free"""
    bad = []

    def req(rule, ok, msg):
        c.ok(rule)
        if not ok:
            bad.append((rule, msg))
    req("mesh files", f["dim"] == m.dim, "dimension %d" % f["dim"])
    req("processes", f["processes"] == m.size, "written for %d processes" % f["processes"])
    if f["dim"] == m.dim:
        P = [tuple(position(m, p, a) for a in range(m.dim)) for p in range(len(m.points))]
        used = {p for e in m.elements for p in e}
        # elements, found by the coordinates of their vertices
        where = {tuple(P[p] for p in e): i for i, e in enumerate(m.elements)}
        emap, nmap = {}, {}
        for i, (v, part, shadow, zone) in enumerate(f["elements"]):
            try:
                key = tuple(f["nodes"][n][1][k] for n, k in v)
            except IndexError:
                req("elements", False, "element %d refers to a node or coordinate that is not there" % i)
                continue
            j = where.pop(key, None)
            req("elements", j is not None, "element %d with vertices %s is not an element of the mesh or is there twice" % (i, key))
            if j is None:
                continue
            emap[i] = j
            for (n, _), p in zip(v, m.elements[j]):
                req("nodes", nmap.setdefault(n, m.node_of[p]) == m.node_of[p], "node %d stands for two different nodes" % n)
            req("processes", part == m.part[j], "element %d belongs to process %d, not %d" % (i, part, m.part[j]))
            req("processes", sorted(shadow) == m.shadow[j], "element %d is also needed by the processes %s, not %s" % (i, m.shadow[j], sorted(shadow)))
            req("elements", 0 <= zone < len(f["zones"]) and (not zones or f["zones"][zone] == m.zones[m.zone[j]]), "element %d is in zone %s" % (i, f["zones"][zone] if 0 <= zone < len(f["zones"]) else zone))
        for k, j in where.items():
            req("elements", False, "the element with vertices %s is missing" % (k,))
        req("nodes", len(set(nmap.values())) == len(nmap), "a node of the mesh is split")
        req("nodes", len(nmap) == len(f["nodes"]), "%d nodes, %d used by elements" % (len(f["nodes"]), len(nmap)))
        for n, (parts, co) in enumerate(f["nodes"]):
            if n in nmap:
                req("nodes", sorted(co) == sorted({P[p] for p in m.coords[nmap[n]] if p in used}), "node %d has the coordinates %s" % (n, co))
                req("processes", sorted(parts) == m.nparts[nmap[n]], "node %d is needed by the processes %s, not %s" % (n, m.nparts[nmap[n]], sorted(parts)))
        req("processes", f["per process"] == [sum(1 for p, _ in f["nodes"] if r in p) for r in range(m.size)], "the numbers of nodes per process are %s" % f["per process"])
        for codim, ents in f["entities"].items():
            want = {tuple(sorted(x)): x for x in (m.faces if codim == 1 else m.edges)}
            for v, parts in f["entities"][codim]:
                key = tuple(sorted((emap.get(e, -1), k) for e, k in v))
                w = want.pop(key, None)
                req("faces and edges", w is not None, "an entity of codimension %d consists of %s (elements and local numbers), which is no entity of the mesh" % (codim, list(key)))
                if w is not None:
                    req("processes", sorted(parts) == m.eparts(w), "the entity %s of codimension %d is needed by the processes %s, not %s" % (list(key), codim, m.eparts(w), sorted(parts)))
            for key in want:
                req("faces and edges", False, "the entity %s of codimension %d (elements and local numbers) is missing" % (list(key), codim))
    for rule, msg in bad[:3]:
        c.bad(rule, name + "/" + rule, "%s: %s" % (name, msg))


def volume(s, d):
    e = [[s[k][i] - s[0][i] for i in range(d)] for k in range(1, d + 1)]
    if d == 2:
        return abs(e[0][0] * e[1][1] - e[0][1] * e[1][0]) / 2
    return abs(sum(e[0][i] * (e[1][(i + 1) % 3] * e[2][(i + 2) % 3] - e[1][(i + 2) % 3] * e[2][(i + 1) % 3]) for i in range(3))) / 6


def box(c, name, f, spec):
    """a structured mesh: the cells of the box, or simplices that fill every cell, connected where they touch and across periodic sides only"""
    n, lo, hi, tri, per = spec
    d = len(n)
    bad = []

    def req(ok, msg):
        c.ok("structured meshes")
        if not ok:
            bad.append(msg)
    req(f["dim"] == d, "dimension %d" % f["dim"])
    if f["dim"] == d:
        h = [(hi[i] - lo[i]) / n[i] for i in range(d)]
        # every vertex on the lattice
        grid, els = {}, []
        for i, (v, part, shadow, zone) in enumerate(f["elements"]):
            l = []
            for a, k in v:
                x = f["nodes"][a][1][k]
                q = tuple(round((x[j] - lo[j]) / h[j]) for j in range(d))
                if any(abs(x[j] - lo[j] - q[j] * h[j]) > 1e-9 for j in range(d)) or any(not 0 <= q[j] <= n[j] for j in range(d)):
                    req(False, "vertex %s of element %d is no point of the mesh" % (x, i))
                    break
                l.append(q)
            else:
                els.append(l)
        if len(els) == len(f["elements"]):
            glue = lambda q: tuple(q[j] % n[j] if per[j] else q[j] for j in range(d))
            vol = {}
            for e in els:
                cell = tuple(min(p[j] for p in e) for j in range(d))
                req(all(max(p[j] for p in e) == cell[j] + 1 for j in range(d)), "the element with vertices %s does not lie in one cell" % (e,))
                if tri:
                    req(len(e) == d + 1, "an element with %d vertices" % len(e))
                    vol[cell] = vol.get(cell, 0) + (volume(e, d) if len(e) == d + 1 else 0)
                else:
                    want = [tuple(cell[j] + (k >> j & 1) for j in range(d)) for k in range(2 ** d)]
                    req(sorted(e) == sorted(want) and e == [want[k] for k in range(2 ** d)], "the element %s is not the cell in the order of its corners" % (e,))
                    vol[cell] = vol.get(cell, 0) + 1
            req(len(vol) == len(list(itertools.product(*[range(x) for x in n]))) and all(abs(x - 1) < 1e-9 for x in vol.values()), "the elements do not fill every cell of the box once: %s" % vol)
            if tri:
                req(all(not inside(a, b, d) for a, b in itertools.combinations(els, 2)), "two elements overlap")
            M = meshgen.Mesh("box", d, sorted({p for e in els for p in e}), [[sorted({p for e in els for p in e}).index(p) for p in e] for e in els], part=[k % 3 for k in range(len(els))] if len(els) > 2 else None)
            pts = M.points
            rep = {}
            for p in pts:
                rep.setdefault(glue(p), p)
            M = meshgen.Mesh("box", d, pts, M.elements, {i: pts.index(rep[glue(p)]) for i, p in enumerate(pts)}, [k % 3 for k in range(len(els))])
            # faces with one element lie on sides of the box that are not periodic
            for ent in (M.faces if d > 1 else [l for l in M.node_elems]):
                req(len(ent) <= 2, "a face of %d elements" % len(ent))
                e, k = ent[0]
                vs = [els[e][x] for x in meshgen.FACES[M.shape[e]][k]]
                side = any(not per[j] and (all(v[j] == 0 for v in vs) or all(v[j] == n[j] for v in vs)) for j in range(d))
                req((len(ent) == 1) == side, "the face %s has %d elements" % (vs, len(ent)))
            sub = []
            M.size = f["processes"]
            nodes = {}
            for e, (v, *_) in zip(els, f["elements"]):
                for (a, k), p in zip(v, e):
                    req(nodes.setdefault(a, glue(p)) == glue(p), "node %d stands for two different nodes" % a)
            req(len(nodes) == len(f["nodes"]) == len(set(nodes.values())), "%d nodes where there are %d" % (len(f["nodes"]), len(set(nodes.values()))))
            for codim, ents in f["entities"].items():
                req(sorted(tuple(sorted(v)) for v, _ in ents) == sorted(tuple(sorted(x)) for x in (M.faces if codim == 1 else M.edges)), "the %s are not those of the mesh" % NAMES[codim])
    for msg in bad[:3]:
        c.bad("structured meshes", name, "%s: %s" % (name, msg))


def inside(a, b, d):
    """whether the interiors of two simplices on the lattice intersect, by a separating direction"""
    if any(max(p[j] for p in a) <= min(p[j] for p in b) or max(p[j] for p in b) <= min(p[j] for p in a) for j in range(d)):
        return False
    for s, t in ((a, b), (b, a)):
        for k in range(d + 1):
            o = [s[i] for i in range(d + 1) if i != k]
            if d == 2:
                u = [o[1][i] - o[0][i] for i in range(2)]
                nrm = (u[1], -u[0])
            else:
                u, v = [[o[q][i] - o[0][i] for i in range(3)] for q in (1, 2)]
                nrm = tuple(u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3] for i in range(3))
            z = sum(nrm[i] * o[0][i] for i in range(d))
            sg = sum(nrm[i] * s[k][i] for i in range(d)) - z
            if all((sum(nrm[i] * p[i] for i in range(d)) - z) * sg <= 0 for p in t):
                return False
    if d == 3:
        for p, q in itertools.combinations(a, 2):
            for r, w in itertools.combinations(b, 2):
                u, v = [q[i] - p[i] for i in range(3)], [w[i] - r[i] for i in range(3)]
                nrm = tuple(u[(i + 1) % 3] * v[(i + 2) % 3] - u[(i + 2) % 3] * v[(i + 1) % 3] for i in range(3))
                if any(nrm):
                    x, y = [sum(nrm[i] * t[i] for i in range(3)) for t in a], [sum(nrm[i] * t[i] for i in range(3)) for t in b]
                    if max(x) <= min(y) or max(y) <= min(x):
                        return False
    return True


if __name__ == "__main__":
    main(check)

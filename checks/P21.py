#!/usr/bin/env python3
"""P21: reading a (partitioned) mesh file."""
from meshlib import *

TYPES = ["WALL_BC", "INTERNAL", "PERIODIC_BC", "SUBDOMAIN_BOUNDARY", "PERIODIC_SUBDOMAIN_BC", "PARTIAL_FACE", "REFINEMENT_BOUNDARY"]


def facetypes():
    """the enumerators of FaceType in the order of the source"""
    s = open(REPO + "/kernel/Geometry/FaceGeometry.h").read()
    m = re.search(r"enum\s+class\s+FaceType[^{]*\{(.*?)\}", s, re.S)
    out, v = {}, 0
    if m:
        body = re.sub(r"//[^\n]*|/\*.*?\*/", "", m.group(1), flags=re.S)
        for it in body.split(","):
            it = it.strip()
            if not it:
                continue
            n, _, x = it.partition("=")
            if x.strip():
                v = int(x)
            out[v] = n.strip()
            v += 1
    return out


def vertex(shape, p):
    v = [tuple(float(x) for x in q) for q in VERT[shape]]
    return nodename([q[::-1] for q in v] if shape in ("square", "cube") else v, p)


def check():
    c = Check("P21", "abstract interpretation of MeshManipulator::readMesh on simulated processes (one copy of all globals each, message passing modelled), with the coordinates of the mesh file indeterminates: the elements, nodes, faces, "
              "edges, zones, owners and push/pull lists every process ends up with are compared with the mesh the file describes")
    cs = meshgen.cases()
    texts = [m.text() for m in cs]
    v1 = meshgen.grid((2, 1), name="2x1 squares on 2 processes, format version 1", part=[0, 1], zones=("Main",))
    cs.append(v1)
    texts.append(v1.text(version=1))
    G = run("meshread", "probe_meshread", cs, texts)
    part(c, cs, G)
    one = [i for i, m in enumerate(cs) if m.size == 1]
    S = run("meshread", "probe_meshread", [cs[i] for i in one], [texts[i] for i in one], mpi=False)
    for i in one:
        cs[i].name += " (built without MPI)"
    part(c, [cs[i] for i in one], S)
    if not c.viol and not c.undec:
        for gname, n in (("element", 500), ("node", 1200), ("face", 1300), ("face type", 500), ("matching", 1100), ("edge", 900), ("owner", 600), ("push/pull", 120), ("identity", 900), ("local lists", 100)):
            c.expect(gname, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0) + S.ctx.stats.get("analysed", 0), "meshes": len(cs) + len(one)})


def part(c, cs, G):
    T = G.t
    types = facetypes()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        key = "%s/%s" % (m.name, r.get("x", [0])[0])
        msg = "%s, process %s: %s at %s" % (m.name, r.get("x", [0])[0], r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("reading", key, msg)
    failed = {x[0] for (t, x) in G.fail}

    def g(tag, *x):
        return T.get(tag, {}).get(x)

    symof = {}

    def sym(v):
        """the indeterminate a coordinate is, or None"""
        k = repr(v)
        if k not in symof:
            try:
                e = leaf(v)
                symof[k] = e.text().replace("1*x", "s")
            except Exception:
                symof[k] = None
        return symof[k]

    for ci, m in enumerate(cs):
        if ci in failed:
            continue
        ids = {"element": {}, "face": {}, "edge": {}, "node": {}}
        lists = {}
        for r in range(m.size):
            q = 10 * ci + r
            at = "%s, process %d of %d" % (m.name, r, m.size)
            k0 = "%s/%d/" % (m.name, r)

            def need(group, ok, what, key):
                return c.require(group, ok, k0 + key, "%s: %s" % (at, what))

            st = g("process", m.size, r, 2 * ci)
            if not need("reading", st == 1, "reading the file %s" % ("waits forever for another process" if st == 2 else "does not finish"), "process"):
                continue
            cnt = [g("count", q, 0, k) for k in range(8)]
            byid, where = {}, {}
            coordkey = {tuple("s%d" % m.sym(p, d) for p in e for d in range(m.dim)): i for i, e in enumerate(m.elements)}
            ok = True
            for n in range(cnt[0]):
                e = [g("elem", q, n, k) for k in range(6)]
                co = tuple(sym(g("ecoord", q, n, 4 * k + d)) for k in range(e[3]) for d in range(m.dim))
                i = coordkey.get(co)
                if i is None:
                    loose = {tuple(sorted(k)): v for k, v in coordkey.items()}
                    near = loose.get(tuple(sorted(map(str, co))))
                    ok = need("element", False, "an element has the vertices %s%s" % ([co[j:j + m.dim] for j in range(0, len(co), m.dim)], ", the file gives them in the order %s" % m.elements[near] if near is not None else ", which is no element of the file"), "coords%d" % n)
                    continue
                byid[e[0]] = i
                where[i] = n
                need("element", e[1] == m.part[i] and e[2] == (m.part[i] == r), "element %d belongs to process %s (%s), the file says %d" % (i, e[1], "owned here" if e[2] else "not owned here", m.part[i]), "owner%d" % i)
                need("element", g("zone", q, n, 0) == m.zones[m.zone[i]], "element %d is in zone '%s', the file says '%s'" % (i, g("zone", q, n, 0), m.zones[m.zone[i]]), "zone%d" % i)
                need("element", g("zoneid", q, n, 0) == m.zone[i], "element %d is in zone number %s, the file says %d" % (i, g("zoneid", q, n, 0), m.zone[i]), "zoneid%d" % i)
                ids["element"].setdefault(i, {})[r] = e[0]
            if not ok:
                continue
            want = {i for i in range(len(m.elements)) if r in m.present[i]}
            if not need("element", set(where) == want and cnt[0] == len(want), "the elements are %s, the file puts %s here" % (sorted(where), sorted(want)), "elements"):
                continue
            loc = [byid.get(g("local", q, 0, k)) for k in range(cnt[4])]
            need("element", sorted(map(str, loc)) == sorted(str(i) for i in want if m.part[i] == r), "the elements iterated over are %s, the process owns %s" % (loc, [i for i in want if m.part[i] == r]), "local")
            # nodes
            nid = {}
            for i, n in where.items():
                for k in range(len(m.elements[i])):
                    x = g("enode", q, n, k)
                    nid.setdefault(m.enodes[i][k], set()).add(x)
            for n in range(len(m.coords)):
                if n in nid:
                    need("node", len(nid[n]) == 1, "the elements around node %d know it as different nodes %s" % (n, sorted(nid[n])), "same%d" % n)
            inv = {}
            for n, s in nid.items():
                for x in s:
                    inv.setdefault(x, set()).add(n)
            for x, s in inv.items():
                need("node", len(s) == 1, "nodes %s of the file are the same node" % sorted(s), "distinct%s" % x)
            seen = set()
            for k in range(cnt[3]):
                x, ne, own = (g("node", q, k, j) for j in range(3))
                n = min(inv.get(x, {-1}))
                if not need("node", n >= 0 and r in m.nparts[n] and n not in seen, "node %s is not in the part of the mesh of this process, or twice" % x, "extra%s" % x):
                    continue
                seen.add(n)
                ids["node"].setdefault(n, {})[r] = x
                got = [(byid.get(g("nodeelem", q, k, 2 * j)), g("nodeelem", q, k, 2 * j + 1)) for j in range(ne)]
                exp = [(e, l) for e, l in m.node_elems[n] if e in want]
                need("node", sorted(map(str, got)) == sorted(map(str, exp)), "the elements (and their vertex) at node %d are %s, the file says %s" % (n, got, exp), "elems%d" % n)
                first = m.part[m.node_elems[n][0][0]]
                if any(m.part[e] == r for e, _ in exp):
                    need("owner", own == (first == r), "node %d is %s by this process, its first element is on process %d" % (n, "owned" if own else "not owned", first), "nowner%d" % n)
            need("node", seen == {n for n in range(len(m.coords)) if r in m.nparts[n]}, "nodes %s, the file puts %s here" % (sorted(seen), [n for n in range(len(m.coords)) if r in m.nparts[n]]), "nodes")
            # faces
            fidx = {x: i for i, f in enumerate(m.faces) for x in f}
            seen = set()
            for k in range(cnt[1]):
                F = [g("face", q, k, j) for j in range(9)]
                left = (byid.get(F[2]), F[3])
                right = (byid.get(F[4]), F[5]) if F[4] != -1 else None
                i = fidx.get(left)
                if not need("face", i is not None and i not in seen and (right is None or fidx.get(right) == i), "a face joins %s and %s (element, local face), which are not the two sides of one face" % (left, right), "sides%d" % k):
                    continue
                seen.add(i)
                ids["face"].setdefault(i, {})[r] = F[0]
                here = [x for x in m.faces[i] if x[0] in want]
                need("face", [left] + ([right] if right else []) == here, "face %d has the sides %s, the file says %s" % (i, [left, right], here), "face%d" % i)
                name = types.get(F[1], F[1])
                if len(here) == 2:
                    (e0, f0), (e1, f1) = here
                    pts = [sorted(m.elements[e][x] for x in meshgen.FACES[m.shape[e]][f]) for e, f in here]
                    per = pts[0] != pts[1]
                    owned = [m.part[e] == r for e, _ in here]
                    sub = not all(owned)
                    exp = {True: {True: ["PERIODIC_SUBDOMAIN_BC"], False: ["SUBDOMAIN_BOUNDARY"]}, False: {True: ["PERIODIC_BC"], False: ["INTERNAL"]}}[sub][per]
                    if not any(owned):
                        exp = exp + (["PERIODIC_BC"] if per else ["INTERNAL"])
                    need("face type", F[6] == 1 and name in exp, "face %d between elements %d and %d (owned here: %s) has type %s, must be %s" % (i, e0, e1, owned, name, " or ".join(exp)), "type%d" % i)
                    need("face type", name not in exp or F[8] == (name in ("SUBDOMAIN_BOUNDARY", "PERIODIC_SUBDOMAIN_BC")), "face %d: isSubdomainBoundary() is %s with type %s" % (i, F[8], name), "sub%d" % i)
                else:
                    whole = len(m.faces[i]) == 1
                    exp = ["WALL_BC"] if whole else ["PARTIAL_FACE"] if m.dim > 1 else ["PARTIAL_FACE", "WALL_BC"]
                    need("face type", F[6] == 0 and name in exp, "face %d of element %d has type %s, must be %s" % (i, here[0][0], name, " or ".join(exp)), "type%d" % i)
                if any(m.part[e] == r for e, _ in here):
                    first = m.part[m.faces[i][0][0]]
                    need("owner", F[7] == (first == r), "face %d is %s by this process, its left element is on process %d" % (i, "owned" if F[7] else "not owned", first), "fowner%d" % i)
                for side in here:
                    got = g("eface", q, where[side[0]], side[1])
                    need("face", got == F[0], "element %d has face %s at its local face %d, must be %d" % (side[0], got, side[1], F[0]), "eface%d/%d" % side)
                if m.dim > 1:
                    lnodes = meshgen.FACES[m.shape[left[0]]][left[1]]
                    quarter = False
                    if right:  # quarter turns of square faces: see the known finding of P08
                        a = [m.enodes[left[0]][x] for x in lnodes]
                        b = [m.enodes[right[0]][x] for x in meshgen.FACES[m.shape[right[0]]][right[1]]]
                        quarter = len(a) == 4 and [a.index(x) for x in b] in ([1, 3, 0, 2], [2, 0, 3, 1])
                    for v in range(len(lnodes)):
                        p = tuple(leaf(g("fleft", q, k, 4 * v + d)).ev({}) for d in range(m.dim))
                        a = vertex(m.shape[left[0]], p)
                        need("matching", a is not None and a in lnodes, "vertex %d of face %d maps to %s in its left element" % (v, i, p), "fl%d/%d" % (i, v))
                        if right and not quarter and a is not None:
                            p = tuple(leaf(g("fright", q, k, 4 * v + d)).ev({}) for d in range(m.dim))
                            b = vertex(m.shape[right[0]], p)
                            need("matching", b is not None and m.enodes[right[0]][b] == m.enodes[left[0]][a], "vertex %d of face %d is node %d in the left element %d but node %s in the right element %d" % (v, i, m.enodes[left[0]][a], left[0], m.enodes[right[0]][b] if b is not None else p, right[0]), "fr%d/%d" % (i, v))
                nn = [min(inv.get(g("fnode", q, k, j), {-1})) for j in range(g("fnodes", q, k, 0))]
                exp = [m.enodes[left[0]][x] for x in meshgen.FACES[m.shape[left[0]]][left[1]]]
                need("face", sorted(nn) == sorted(exp), "the nodes of face %d are %s, must be %s" % (i, nn, exp), "fnodes%d" % i)
            exp = {i for i, f in enumerate(m.faces) if any(e in want for e, _ in f)}
            need("face", seen == exp, "faces %s, the file puts %s here" % (sorted(seen), sorted(exp)), "faces")
            # edges
            eidx = {x: i for i, f in enumerate(m.edges) for x in f}
            seen = set()
            for k in range(cnt[2]):
                x, ne, own = (g("edge", q, k, j) for j in range(3))
                got = [(byid.get(g("edgeelem", q, k, 3 * j)), g("edgeelem", q, k, 3 * j + 1)) for j in range(ne)]
                ori = [g("edgeelem", q, k, 3 * j + 2) for j in range(ne)]
                i = eidx.get(got[0]) if got else None
                if not need("edge", i is not None and i not in seen, "an edge joins %s (element, local edge), which is no edge of the mesh" % got, "edge%d" % k):
                    continue
                seen.add(i)
                ids["edge"].setdefault(i, {})[r] = x
                exp = [y for y in m.edges[i] if y[0] in want]
                if not need("edge", sorted(map(str, got)) == sorted(map(str, exp)), "edge %d joins %s, the file says %s" % (i, got, exp), "eelems%d" % i):
                    continue
                dirs = [tuple(m.enodes[e][v] for v in meshgen.EDGES[m.shape[e]][l]) for e, l in got]
                for j in range(1, ne):
                    need("edge", (ori[j] == ori[0]) == (dirs[j] == dirs[0]), "edge %d: elements %d and %d run along it in %s direction but have orientations %s and %s" % (i, got[0][0], got[j][0], "the same" if dirs[j] == dirs[0] else "opposite", ori[0], ori[j]), "eori%d/%d" % (i, j))
                lists.setdefault(("edge", i), []).append((r, {e: (o, d) for (e, _), o, d in zip(got, ori, dirs)}))
                for e, l in got:
                    need("edge", g("eedge", q, where[e], l) == x, "element %d has edge %s at its local edge %d, must be %d" % (e, g("eedge", q, where[e], l), l, x), "eedge%d/%d" % (e, l))
                if any(m.part[e] == r for e, _ in exp):
                    first = m.part[m.edges[i][0][0]]
                    need("owner", own == (first == r), "edge %d is %s by this process, its first element is on process %d" % (i, "owned" if own else "not owned", first), "eowner%d" % i)
            exp = {i for i, f in enumerate(m.edges) if any(e in want for e, _ in f)}
            need("edge", seen == exp, "edges %s, the file puts %s here" % (sorted(seen), sorted(exp)), "edges")
            for k, nm, al, w in ((1, "faces", cnt[5], cnt[1]), (2, "edges", cnt[6], cnt[2]), (3, "nodes", cnt[7], cnt[3])):
                tag = {1: "face", 2: "edge", 3: "node"}[k]
                a = sorted(g("local", q, k, j) for j in range(al))
                b = sorted(g(tag, q, j, 0) for j in range(w))
                need("local lists", a == b, "the %s iterated over are %s, the process knows %s" % (nm, a, b), "loc" + nm)
            for tag in ("push", "pull"):
                for p in range(m.size):
                    l = []
                    while g(tag, q, p, len(l)) is not None:
                        l.append(byid.get(g(tag, q, p, len(l))))
                    lists[tag, r, p] = l
                    if tag == "push":
                        exp = [i for i in sorted(want) if m.part[i] == r and p in m.shadow[i]]
                    else:
                        exp = [i for i in sorted(want) if m.part[i] == p and p != r]
                    need("push/pull", sorted(map(str, l)) == sorted(map(str, exp)), "the elements %s process %d are %s, must be %s" % ("sent to" if tag == "push" else "received from", p, l, exp), "%s%d" % (tag, p))
        # between processes
        for r in range(m.size):
            for p in range(m.size):
                if ("push", r, p) in lists and ("pull", p, r) in lists:
                    c.require("push/pull", lists["push", r, p] == lists["pull", p, r], "%s/%d-%d" % (m.name, r, p), "%s: process %d sends the elements %s to process %d, which expects %s" % (m.name, r, lists["push", r, p], p, lists["pull", p, r]))
        for kind, d in ids.items():
            allids = {}
            for i, per in sorted(d.items()):
                c.require("identity", len(set(per.values())) == 1, "%s/%s%d" % (m.name, kind, i), "%s: %s %d has the numbers %s on the different processes" % (m.name, kind, i, per))
                for x in set(per.values()):
                    allids.setdefault(x, set()).add(i)
            for x, s in sorted(allids.items()):
                c.require("identity", len(s) == 1, "%s/%s/%s" % (m.name, kind, x), "%s: number %d denotes several %ss: %s" % (m.name, x, kind, sorted(s)))
        for key, l in lists.items():
            if key[0] == "edge":
                flat = {}
                for _, d in l:
                    for o, dd in d.values():
                        flat.setdefault(dd, set()).add(o)
                c.require("edge", all(len(s) == 1 for s in flat.values()) and len({min(s) for s in flat.values()}) == len(flat), "%s/edge%d" % (m.name, key[1]), "%s: edge %d has orientations %s on the different processes" % (m.name, key[1], flat))


main(check)

#!/usr/bin/env python3-vt
"""P29: the space chosen for a mesh is the space its elements carry."""
import numpy as np
from meshlib import *

SPACES = ("monomials", "DG", "conforming", "conforming, DG and conforming by unknown", "DG after conforming", "Nedelec", "Ainsworth-Coyle")
KINDS = ("elem", "face", "edge", "node")


def monomials(D, deg, per=False):
    return [e for e in itertools.product(range(deg + 1), repeat=D) if per or sum(e) <= deg]


def prisms():
    """two layers of two triangles, extruded; the corners of the second layer are numbered the other way round"""
    pts = [(2 * x, 2 * y, 2 * z) for z in range(3) for y in range(2) for x in range(2)]
    tri = ([0, 1, 2], [3, 2, 1])
    els = [[4 * z + t[k] for k in (0, 1, 2)] + [4 * z + 4 + t[k] for k in (0, 1, 2)] for z in range(2) for t in tri]
    els[2] = [els[2][k] for k in (1, 2, 0, 4, 5, 3)]
    els[3] = [els[3][k] for k in (3, 5, 4, 0, 2, 1)]
    return meshgen.Mesh("4 prisms on 2 processes", 3, pts, els, part=[0, 1, 1, 0])


def orders(m, space, u):
    """order and kind of the space of an unknown"""
    mixed, tets, pri = "pyramid" in m.name, "tetrahedra" in m.name and "cube" not in m.name, "prisms" in m.name
    high = 1 if mixed else 4 if tets else 2 if pri else 3
    if space == 3:
        return (("H1", high), ("DG", 1), ("H1", 1 if mixed else 2))[u]
    return [("mono", 2), ("DG", 1 if mixed else 2), ("H1", high), None, ("DG", 1), ("ned", 2), ("ac", 2)][space]


def target(kind, p, shape, D):
    if kind == "mono":
        return len(monomials(D, p)), monomials(D, p)
    if kind == "ned":
        return (p * (p + 2) if D == 2 else p * (p + 2) * (p + 3) // 2), monomials(D, p - 1)
    if kind == "ac":
        return 3 * len(monomials(3, p)), monomials(3, p)
    if shape in ("line", "square", "cube"):
        return (p + 1) ** D, monomials(D, p, True)
    if shape == "prism":
        return (p + 1) * (p + 1) * (p + 2) // 2, monomials(3, p)
    if shape == "pyramid":
        return 5, monomials(3, p)
    return len(monomials(D, p)), monomials(D, p)


def digest(v):
    return json.dumps(v, sort_keys=True, default=str)


def check():
    c = Check("P29", "abstract interpretation of the assignment of basis functions on simulated processes that read partitioned meshes: every function every element carries is obtained as a polynomial of the reference point (and of the "
              "point on each of its faces); obligations: the functions of each unknown are a basis of the space that was asked for, all processes give an element the same functions, and in a conforming space functions shared through a "
              "vertex, edge or face have the same trace from both sides of every face while all others vanish on it")
    cs = meshgen.cases() + [prisms()]
    for mpi in (True, False):
        sub = cs if mpi else [m for m in cs if m.size == 1]
        G = run("conform", "probe_conform", sub, mpi=mpi)
        part(c, sub, G, "" if mpi else " (built without MPI)")
    if not c.viol and not c.undec:
        for g, n in (("spaces", 1500), ("counts", 2000), ("processes agree", 20000), ("equal traces", 4000), ("vanishing traces", 30000), ("no process waits forever", 20)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "meshes": len(cs)})


def part(c, cs, G, note):
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add(x[0])
        (c.bad if r["fail"] == "abort" else c.unknown)("assignment", "%s%s/%s" % (m.name, note, r.get("x", [0])[0]), "%s%s: %s at %s" % (m.name, note, r["why"], r["at"]))
    by = {}
    for tag, d in G.t.items():
        for x, v in d.items():
            by.setdefault(x[0], {}).setdefault(tag, {})[x[1:]] = v
    procs = G.t.get("process", {})
    for ci, m in enumerate(cs):
        if ci in failed:
            continue
        st = [procs.get((m.size, r, ci)) for r in range(m.size)]
        if None in st:
            c.unknown("assignment", m.name + note, "%s was not analysed" % m.name)
            continue
        if not c.require("no process waits forever", all(x == 1 for x in st), m.name + note, "%s: processes %s never finish" % (m.name, [r for r in range(m.size) if st[r] != 1])):
            continue
        for space in range(7):
            Q = [by.get((ci * 8 + space) * 10 + r) for r in range(m.size)]
            if all(q is None for q in Q):
                continue
            one(c, G, m, "%s%s, %s" % (m.name, note, SPACES[space]), space, [q or {} for q in Q])


def one(c, G, m, name, space, Q):
    nu = 3 if space == 3 else 1 if space > 4 else 2
    D = m.dim
    ctx = G.ctx
    seen, cache, tcache = {}, {}, {}
    vector = space > 4
    for r, q in enumerate(Q):
        def fail(rule, key, msg):
            c.bad(rule, "%s/%d/%s" % (name, r, key), "%s, process %d: %s" % (name, r, msg))
        order = {}
        for (e, _), sh in sorted(q.get("shape", {}).items()):
            shape = TYPE[sh]
            order[e] = [("elem", e)]
            for k in KINDS[1:]:
                n = 0
                while (e, n) in q.get("a." + k, {}):
                    if not (k == "node" and D == 1):
                        order[e].append((k, q["a." + k][e, n], n))
                    n += 1
            for u in range(nu):
                kind, p = orders(m, space, u)
                n = q["n.all"][e, u]
                dim, mons = target(kind, p, shape, D)
                total = sum(q["n." + x[0]][x[1], u] for x in order[e])
                c.ok("counts")
                if total != n:
                    fail("counts", "count/%d/%d" % (e, u), "element %d has %d functions of unknown %d, its own, its faces', edges' and nodes' are %d" % (e, n, u, total))
                    continue
                if vector:
                    F_ = [[q["vec"].get((e, (u * 1000 + i) * 4 + d)) for d in range(D)] for i in range(n)]
                else:
                    F_ = [[q["val"].get((e, u * 1000 + i))] for i in range(n)]
                key = (shape, kind, p, digest(F_))
                if key not in cache:
                    cache[key] = basis(ctx, F_, n, dim, mons, shape, D)
                res = cache[key]
                c.ok("spaces")
                if res is None:
                    c.unknown("spaces", "%s/%d/%d/%d" % (name, r, e, u), "%s: the functions of element %d cannot be evaluated" % (name, e))
                elif res is not True:
                    fail("spaces", "space/%d/%d" % (e, u), "the functions of unknown %d on element %d (%s) are not a basis of the %s space of order %d: %s" % (u, e, shape, {"mono": "monomial", "H1": "conforming", "ned": "Nedelec", "ac": "Ainsworth-Coyle"}.get(kind, kind), p, res))
                for i in range(n):
                    k = (e, u, i)
                    c.ok("processes agree")
                    if seen.setdefault(k, key[3]) != key[3]:
                        # element numbers are the same everywhere, so are its functions
                        fail("processes agree", "agree/%d/%d" % (e, u), "the functions of unknown %d on element %d differ from those on another process" % (u, e))
                        break
        # traces
        for (f, _), l in sorted(q.get("left", {}).items()):
            rgt = q.get("right", {}).get((f, 0))
            sides = [l] + ([rgt] if rgt is not None else [])
            if any(len({x[:2] for x in order[e]}) != len(order[e]) for e in sides):
                continue  # an element that touches itself
            lists = []
            for s, e in enumerate(sides):
                k = next(n for (ff, n) in q["c.face"] if ff == 2 * f + s)
                lists.append([q["a.node"].get((e, x)) for x in meshgen.FACES[TYPE[q["shape"][e, 0]]][k]])
            # quarter turns of square faces: see the known finding of P08
            quarter = len(lists) == 2 and len(lists[0]) == 4 and [lists[0].index(x) for x in lists[1] if x in lists[0]] in ([1, 3, 0, 2], [2, 0, 3, 1])
            for u in range(nu):
                if orders(m, space, u)[0] != "H1":
                    continue
                tr = []
                for s, e in enumerate(sides):
                    inside = {(k, n) for k in KINDS[1:] for (ff, n) in q.get("c." + k, {}) if ff == 2 * f + s}
                    pos, mine = 0, {}
                    for x in order[e]:
                        for j in range(q["n." + x[0]][x[1], u]):
                            v = q["trace"].get((2 * f + s, u * 1000 + pos))
                            pos += 1
                            if x[0] != "elem" and (x[0], x[2]) in inside:
                                mine[x[0], x[1], j] = v
                            else:
                                c.ok("vanishing traces")
                                d = same(ctx, v, 0, tcache)
                                if d is None:
                                    c.unknown("vanishing traces", "%s/%d/%d/%d/%s" % (name, r, f, u, x[:2]), name)
                                elif d is not True:
                                    fail("vanishing traces", "%d/%d/%s" % (f, u, x[:2]), "the function of unknown %d attached to %s %d does not vanish on face %d of element %d, which does not contain it" % (u, x[0], x[1], f, e))
                    tr.append(mine)
                if len(tr) == 2 and not quarter:
                    if set(tr[0]) != set(tr[1]):
                        d = sorted(set(tr[0]) ^ set(tr[1]))[0]
                        fail("equal traces", "set/%d/%d" % (f, u), "the function of unknown %d attached to %s %d lives on one side of face %d only" % (u, d[0], d[1], f))
                        continue
                    for k in sorted(tr[0]):
                        c.ok("equal traces")
                        d = same(ctx, tr[0][k], tr[1][k], tcache)
                        if d is None:
                            c.unknown("equal traces", "%s/%d/%d/%d/%s" % (name, r, f, u, k), name)
                        elif d is not True:
                            fail("equal traces", "%d/%d/%s" % (f, u, k), "function %d of unknown %d attached to %s %d has different traces on face %d seen from elements %d and %d" % (k[2], u, k[0], k[1], f, l, rgt))


def same(ctx, a, b, cache):
    k = (digest(a), digest(b))
    if k not in cache:
        if a is None or b is None:
            cache[k] = None
        else:
            r = ctx.equal(a, b, sampler("triangle"))
            cache[k] = r
    return cache[k]


def basis(ctx, fns, n, dim, mons, shape, D):
    if n != dim:
        return "there are %d functions, the space has dimension %d" % (n, dim)
    comp = len(fns[0])
    m = dim // comp + 40
    rnd = random.Random(5)
    smp = sampler(shape)
    pts = [smp(rnd) for _ in range(m)]
    M = np.zeros((m * comp, n))
    try:
        for i, f in enumerate(fns):
            for d in range(comp):
                if f[d] is None:
                    return None
                for k, x in enumerate(pts):
                    M[k * comp + d, i] = ctx.ev(f[d], ctx.env(x) if ctx.opq else x)
    except (KeyError, ZeroDivisionError):
        return None
    nrm = np.linalg.norm(M, axis=0)
    if (nrm < 1e-12).any():
        return "function %d vanishes" % int(nrm.argmin())
    u, s, vt = np.linalg.svd(M / nrm, full_matrices=False)
    rank = int((s > 1e-9 * s[0]).sum())
    if rank != n:
        return "the %d functions span only %d dimensions" % (n, rank)
    for e in mons:
        val = np.array([math.prod(x[j] ** e[j] for j in range(D)) for x in pts])
        for d in range(comp):
            b = np.zeros(m * comp)
            b[d::comp] = val
            if np.linalg.norm(b - u @ (u.T @ b)) > 1e-8 * np.linalg.norm(b):
                return "the polynomial with exponents %s is not in the span" % (e,)
    return True


if __name__ == "__main__":
    main(check)

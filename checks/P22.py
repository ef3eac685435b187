#!/usr/bin/env python3
"""P22: global numbering of the degrees of freedom."""
from meshlib import *

KINDS = ("elem", "face", "edge", "node")
LAYOUT = ("SEQUENTIAL", "BLOCKED_PROCESSOR", "BLOCKED_GLOBAL")


def check():
    c = Check("P22", "abstract interpretation of GlobalIndexing on simulated processes that read partitioned meshes (message passing modelled, receives from any source taken in both orders): the numbers of all basis functions "
              "of all elements, faces, edges and nodes on all processes are compared with each other and with the layout that was asked for")
    cs = meshgen.cases()
    files = [REPO + "/kernel/Utilities/GlobalIndexing.cpp"]
    G = run("globalindex", "probe_globalindex", cs, files=files)
    part(c, cs, G, "")
    serial = [m for m in cs if m.size == 1]
    S = run("globalindex", "probe_globalindex", serial, files=files, mpi=False)
    part(c, serial, S, " (built without MPI)")
    if not c.viol and not c.undec:
        for g, n in (("numbers are unique and consecutive", 15000), ("the numbers of an element's functions", 20000), ("the numbers of a face's functions", 60000), ("global to process-local", 20000),
                     ("all processes give a basis function the same number", 15000), ("the layout is the one asked for", 300), ("process-local numbers", 15000), ("sizes", 3000), ("no process waits forever", 50)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0) + S.ctx.stats.get("analysed", 0), "meshes": len(cs) + len(serial)})


def part(c, cs, G, note):
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add(x[0])
        p = r.get("x", [0])[0]
        msg = "%s%s, process %s: %s at %s" % (m.name, note, p, r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("indexing", "%s%s/%s" % (m.name, note, p), msg)
    by = {}
    for tag, d in G.t.items():
        for x, v in d.items():
            by.setdefault(x[0], {}).setdefault(tag, {})[x[1:]] = v
    none = {}
    procs = G.t.get("process", {})
    for ci, m in enumerate(cs):
        P = m.size
        for o in range(2 if P > 2 else 1):
            seq = 2 * ci + o
            st = {r: procs.get((P, r, seq)) for r in range(P)}
            if ci in failed:
                continue
            if any(v is None for v in st.values()):
                c.unknown("indexing", "%s/%d" % (m.name, o), "%s was not analysed" % m.name)
                continue
            c.ok("no process waits forever", n=P)
            stuck = [r for r in range(P) if st[r] != 1]
            if stuck:
                c.bad("no process waits forever", "%s/%d" % (m.name, o), "%s: processes %s never finish numbering" % (m.name, stuck))
                continue
            for space in range(2):
                base = seq * 2 + space
                C = [by.get(base * 10 + r, none) for r in range(P)]
                nu = 3 if space else 2
                name = "%s%s%s, %s spaces" % (m.name, note, " (other message order)" if o else "", ("DG", "mixed conforming")[space])
                one(c, m, name, base, C, nu, by, P, space)


def one(c, m, name, base, C, nu, by, P, space):
    # entities: number of functions, the same on all processes; the adjacency too
    num, adj, owner, side, both = {}, {}, {}, {}, {}

    def merge(d, k, v, r, what):
        c.ok("the processes agree on the entities")
        if d.setdefault(k, v) != v:
            c.bad("the processes agree on the entities", "%s/%s/%s" % (name, what, k), "%s: %s of %s is %s on process %d and %s on another" % (name, what, k, v, r, d[k]))
    for r in range(P):
        for kind in KINDS:
            for (i, u), v in C[r].get("n." + kind, {}).items():
                merge(num, (kind, i, u), v, r, "number of functions")
            for (i, k), v in C[r].get("a." + kind, {}).items():
                merge(adj, (kind, i, k), v, r, "neighbour")
        S = C[r].get("s.face", {})
        for (i, k), v in S.items():
            side[r, i, k] = v
            if (i, 0) in S and (i, 1) in S:
                merge(both, (i, k), v, r, "element at the face")
        for (i, _), v in C[r].get("o.elem", {}).items():
            if v:
                if i in owner:
                    c.bad("the processes agree on the entities", "%s/owner/%d" % (name, i), "%s: element %d is owned by processes %d and %d" % (name, i, r, owner[i]))
                owner[i] = r
    dim1 = m.dim == 1
    kinds = [k for k in KINDS if not (dim1 and k == "node")]
    ids = {k: sorted({i for (kk, i, u) in num if kk == k}) for k in kinds}
    if len(owner) != len(m.elements) or len(ids["elem"]) != len(m.elements):
        c.bad("the processes agree on the entities", "%s/elements" % name, "%s: %d elements are owned by a process, %d are known, the mesh has %d" % (name, len(owner), len(ids["elem"]), len(m.elements)))
        return
    # local order of an element's functions
    order = {}
    for e in ids["elem"]:
        order[e] = [("elem", e)]
        for k in kinds[1:]:
            n = 0
            while (k, e, n) in adj:
                order[e].append((k, adj[k, e, n]))
                n += 1
    for layout in range(3):
        for subset in range(3 if space else 1):
            inc = [list(range(nu)), [1], [0, 2]][subset]
            Q = [by.get(((base * 3 + layout) * 3 + subset) * 10 + r, {}) for r in range(P)]
            where = "%s, %s, unknowns %s" % (name, LAYOUT[layout], inc)
            start, local, own = {}, {}, {}
            bad = [0]

            def fail(rule, key, msg):
                bad[0] += 1
                if bad[0] <= 3:
                    c.bad(rule, "%s/%s" % (where, key), "%s: %s" % (where, msg))
            for r in range(P):
                for kind in kinds:
                    for (i, u), v in Q[r].get("g." + kind, {}).items():
                        if not num.get((kind, i, u)):
                            continue
                        c.ok("all processes give a basis function the same number")
                        if start.setdefault((kind, i, u), v) != v:
                            fail("all processes give a basis function the same number", "%s/%d/%d" % (kind, i, u), "the functions of unknown %d at %s %d start at %d on process %d and at %d on another" % (u, kind, i, v, r, start[kind, i, u]))
                    for (i, u), v in Q[r].get("l." + kind, {}).items():
                        if not num.get((kind, i, u)):
                            continue
                        if (kind, i, u) in own:
                            fail("one owner", "%s/%d/%d" % (kind, i, u), "%s %d is owned by processes %d and %d" % (kind, i, r, own[kind, i, u]))
                        own[kind, i, u] = r
                        local[kind, i, u] = v
            want = {k for k, v in num.items() if v and k[2] in inc and k[0] in kinds}
            if set(start) != want:
                d = sorted(set(start) ^ want)[0]
                fail("every basis function has a number", "%s" % (d,), "%s" % ("no number for the functions of unknown %d at %s %d" % (d[2], d[0], d[1]) if d in want else "a number for unknown %d at %s %d, which is not included" % (d[2], d[0], d[1])))
                continue
            if set(own) != want:
                d = sorted(set(own) ^ want)[0]
                fail("every basis function has an owner", "%s" % (d,), "no process owns %s %d" % (d[0], d[1]))
                continue
            N = sum(num[k] for k in want)
            glob = {}
            for k in sorted(want):
                for j in range(num[k]):
                    c.ok("numbers are unique and consecutive")
                    if start[k] + j in glob:
                        fail("numbers are unique and consecutive", "%s" % (k,), "number %d belongs to %s and to %s" % (start[k] + j, glob[start[k] + j], k))
                    glob[start[k] + j] = k
            if set(glob) != set(range(N)):
                d = sorted(set(glob) ^ set(range(N)))[0]
                fail("numbers are unique and consecutive", "cover", "the %d basis functions are not numbered 0..%d: number %d" % (N, N - 1, d))
                continue
            # the layout
            c.ok("the layout is the one asked for")
            keyof = {0: lambda k: (own[k],), 1: lambda k: (own[k], k[2]), 2: lambda k: (k[2], own[k])}[layout]
            seq = [keyof(glob[g]) for g in range(N)]
            if seq != sorted(seq):
                g = next(g for g in range(N - 1) if seq[g] > seq[g + 1])
                fail("the layout is the one asked for", "order", "number %d belongs to %s of process %d, number %d to %s of process %d" % (g, glob[g], own[glob[g]], g + 1, glob[g + 1], own[glob[g + 1]]))
            for r in range(P):
                mine = sorted(k for k in want if own[k] == r)
                L = {}
                for k in mine:
                    for j in range(num[k]):
                        if local[k] + j in L:
                            fail("process-local numbers", "%d/%s" % (r, k), "process %d numbers two functions %d" % (r, local[k] + j))
                        L[local[k] + j] = start[k] + j
                c.ok("process-local numbers", n=len(L) + 1)
                if set(L) != set(range(len(L))):
                    fail("process-local numbers", "%d" % r, "the functions of process %d are not numbered 0..%d locally" % (r, len(L) - 1))
                elif [L[i] for i in range(len(L))] != sorted(L.values()):
                    fail("process-local numbers", "%d/order" % r, "the local numbers of process %d are not in the order of the global ones" % r)
                back = {g: i for i, g in L.items()}
                sz = Q[r].get("g.size", {})
                if (sz.get((0, 0)), sz.get((0, 1)), sz.get((0, 2))) != (len(L), nu, len(inc)):
                    fail("sizes", "%d" % r, "process %d reports %s local functions, %s unknowns, %s of them included instead of %d, %d, %d" % (r, sz.get((0, 0)), sz.get((0, 1)), sz.get((0, 2)), len(L), nu, len(inc)))
                c.ok("sizes", n=3 + nu)
                for u in range(nu):
                    if bool(Q[r].get("g.included", {}).get((0, u))) != (u in inc):
                        fail("sizes", "%d/included/%d" % (r, u), "process %d reports unknown %d as %s" % (r, u, "excluded" if u in inc else "included"))
                for (g, _), v in Q[r].get("g2l", {}).items():
                    if g >= N:
                        continue
                    c.ok("global to process-local")
                    if v != back.get(g, -1):
                        fail("global to process-local", "%d/%d" % (r, g), "process %d converts number %d to %d instead of %d" % (r, g, v, back.get(g, -1)))
                # the lists used for assembly
                exp = {}
                for e in ids["elem"]:
                    exp[e] = [start[k, i, u] + j for u in inc for (k, i) in order[e] if (k, i, u) in want for j in range(num[k, i, u])]
                I = Q[r].get("i.elem", {})
                for (e, k), n in I.items():
                    if k != -1:
                        continue
                    c.ok("the numbers of an element's functions", n=len(exp[e]) + 1)
                    got = [I.get((e, j)) for j in range(n)]
                    if got[:len(exp[e])] != exp[e]:
                        fail("the numbers of an element's functions", "%d/%d" % (r, e), "process %d lists %s for element %d instead of %s" % (r, got[:12], e, exp[e][:12]))
                for (e, _), v in Q[r].get("i.copy", {}).items():
                    c.ok("the numbers of an element's functions")
                    if not v:
                        fail("the numbers of an element's functions", "%d/%d/copy" % (r, e), "the two ways to list the numbers of element %d differ" % e)
                I = Q[r].get("i.face", {})
                for (f, k), n in I.items():
                    if k != -1:
                        continue
                    w = exp[side[r, f, 0]] + (exp[side[r, f, 1]] if (r, f, 1) in side else [])
                    c.ok("the numbers of a face's functions", n=len(w) + 1)
                    got = [I.get((f, j)) for j in range(n)]
                    if got != w:
                        fail("the numbers of a face's functions", "%d/%d" % (r, f), "process %d lists %s for face %d instead of %s" % (r, got[:12], f, w[:12]))


main(check)

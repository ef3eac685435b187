#!/usr/bin/env python3
"""P23: assembly of global matrices and vectors."""
from meshlib import *

CODE = 128
#       shift, rows, columns, face coupling by row unknown (None: no face part), vector has a face part, space
CONF = {0: (0, [0, 1], [0, 1], {0: 7, 1: 7}, True, 0),
        1: (50000, [0, 1], [0, 1], {0: 7, 1: 7}, True, 0),
        2: (20000, [0, 1], [0, 1], {0: 7, 1: 7}, True, 0),
        3: (0, [0, 1, 2], [0, 1, 2], {1: 7}, True, 1),
        4: (0, [0, 2], [1], None, False, 1),
        5: (0, [0, 1, 2], [0, 1, 2], {0: 7, 1: 7, 2: 7}, None, 1),
        6: (0, [1, 2], [1, 2], {2: 6}, True, 2)}
WHAT = {0: "DG space, sequential numbering", 1: "DG space after reinit, blocked numbering", 2: "DG space, assembled again", 3: "mixed space, one unknown coupled over faces",
        4: "mixed space, rectangular block", 5: "mixed space, everything coupled over faces", 6: "two of three unknowns, one coupled over faces"}


def linear(v):
    """record value -> {symbol: coefficient} (symbol 0: the constant)"""
    if isinstance(v, (int, float)):
        return {0: float(v)} if v else {}
    if "c" in v:
        return {0: v["c"]} if v["c"] else {}
    out = {}
    for mono, co in v.get("n", ()):
        if not mono:
            s = 0
        elif len(mono) == 1 and list(mono[0])[1:] == [1] or len(mono) == 2 and not isinstance(mono[0], list) and mono[1] == 1:
            s = mono[0][0] if isinstance(mono[0], list) else mono[0]
        else:
            return None
        out[s] = out.get(s, 0) + co
    if v.get("d") not in (None, [[[], 1]]):
        return None
    return {k: x for k, x in out.items() if x}


def add(d, key, sym, co):
    e = d.setdefault(key, {})
    e[sym] = e.get(sym, 0) + co


def same(a, b):
    return {k: v for k, v in a.items() if v} == {k: v for k, v in b.items() if v}


def show(d):
    return " + ".join("%g*%s" % (v, ("element %d" % (k % 100000 % 20000) if 100000 <= k < 200000 else "face %d" % (k % 100000 % 20000) if 200000 <= k < 300000 else "s%d" % k) if k else "1") for k, v in sorted(d.items()) if v) or "0"


def check():
    c = Check("P23", "abstract interpretation of GlobalPetscMatrix, GlobalPetscVector and SparsityEstimator on simulated processes (message passing and PETSc modelled): the local matrices and vectors of every element and face carry "
              "their own symbol, so the assembled values, preallocation and the values written back are compared, entry by entry, with the sum over all elements and faces of the mesh")
    cs = meshgen.cases()
    U = REPO + "/kernel/Utilities/"
    G = run("assembly", "probe_assembly", cs, files=[U + x + ".cpp" for x in ("GlobalIndexing", "GlobalMatrix", "GlobalVector", "SparsityEstimator")] + [ENGINE + "/models/petsc.cpp"],
            defs=["-DHPGEM_USE_ANY_PETSC"], pre=["/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include"])
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add(x[0])
        p = r.get("x", [0])[0]
        msg = "%s, process %s: %s at %s" % (m.name, p, r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("assembly", "%s/%s" % (m.name, p), msg)
    by = {}
    for tag, d in G.t.items():
        for x, v in d.items():
            by.setdefault(x[0], {}).setdefault(tag, {})[x[1:]] = v
    procs = G.t.get("process", {})
    for ci, m in enumerate(cs):
        P = m.size
        if ci in failed:
            continue
        st = {r: procs.get((P, r, 2 * ci)) for r in range(P)}
        if any(v is None for v in st.values()):
            c.unknown("assembly", m.name, "%s was not analysed" % m.name)
            continue
        c.ok("no process waits forever", n=P)
        stuck = [r for r in range(P) if st[r] != 1]
        if stuck:
            c.bad("no process waits forever", m.name, "%s: processes %s never finish assembling" % (m.name, stuck))
            continue
        base = 2 * ci * 100
        topo = {}
        for space in range(3):
            face, owned = topo[space] = {}, {}
            for r in range(P):
                B = by.get(base + 70 + 10 * space + r, {})
                F = B.get("f", {})
                for (f, k), v in F.items():
                    # a process that knows one of the two elements only (the outside of its ghosts) does not count
                    if k < 2 and ((f, 1) in F or not any((f, 1) in by.get(base + 70 + 10 * space + s, {}).get("f", {}) for s in range(P))):
                        if face.setdefault((f, k), v) != v:
                            c.unknown("assembly", "%s/face/%d" % (m.name, f), "%s: two processes see different elements at face %d" % (m.name, f))
                for (e, _), v in B.get("e", {}).items():
                    owned[e] = r
        for k in sorted(CONF):
            if k == 5 and P > 1:
                continue
            one(c, m, k, [by.get(base + 10 * k + r, {}) for r in range(P)], topo[CONF[k][5]][0], topo[CONF[k][5]][1], by, base, P)
    if getattr(c, "blocked", 0):
        c.bad("reserved space", "globally blocked numbering on several processes", "SparsityEstimator reserves too little space for matrices with the BLOCKED_GLOBAL numbering on several processes (PETSc gives a process consecutive rows, the numbers of its functions are not consecutive)")
    if not c.viol and not c.undec:
        for g, n in (("matrix entries", 150000), ("vector entries", 3000), ("reserved space", 5000), ("boundary rows", 300), ("vector from element data", 2000), ("element data from vector", 8000), ("no process waits forever", 40)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "meshes": len(cs)})


def lists(c, where, Q, tag):
    out = {}
    for r, q in enumerate(Q):
        d = {}
        for (e, k), v in q.get(tag, {}).items():
            d.setdefault(e, {})[k] = v
        for e, x in d.items():
            l = [x[i] for i in range(len(x))]
            if out.setdefault(e, l) != l:
                c.bad("numbering", "%s/%s/%d" % (where, tag, e), "%s: process %d numbers element %d differently from another" % (where, r, e))
    return out


def one(c, m, k, Q, face, owned, by, base, P):
    shift, ru, cu, coupled, vface, space = CONF[k]
    where = "%s, %s" % (m.name, WHAT[k])
    R, C, RU, CU = (lists(c, where, Q, t) for t in ("r", "c", "ru", "cu"))
    nbad = [0]

    def fail(rule, key, msg):
        nbad[0] += 1
        if nbad[0] <= 3:
            c.bad(rule, "%s/%s" % (where, key), "%s: %s" % (where, msg))
    A, b = {}, {}
    pattern = {}
    for e in owned:
        s = 100000 + shift + e
        for i, row in enumerate(R.get(e, ())):
            for j, col in enumerate(C.get(e, ())):
                add(A, (row, col), s, i * CODE + j + 1)
            add(b, row, s, i + 1)
    faces = sorted({f for f, _ in face})
    for f in faces:
        es = [face[f, 0]] + ([face[f, 1]] if (f, 1) in face else [])
        rows = [x for e in es for x in R.get(e, ())]
        ur = [x for e in es for x in RU.get(e, ())]
        s = 200000 + shift + f
        for i, row in enumerate(rows):
            if coupled is not None:
                for j, col in enumerate(rows):
                    if coupled.get(ur[i], 0) >> ur[j] & 1:
                        add(A, (row, col), s, i * CODE + j + 1)
            if vface:
                add(b, row, s, i + 1)
    # the matrix
    got, sizes = {}, []
    for r in range(P):
        for key, v in Q[r].get("A", {}).items():
            l = linear(v)
            if l is None:
                c.unknown("matrix entries", "%s/%s" % (where, key), "%s: entry %s is not a linear combination of local entries" % (where, key))
                return
            e = got.setdefault(key, {})
            for sy, co in l.items():
                e[sy] = e.get(sy, 0) + co
        sz = Q[r].get("A.size", {})
        sizes.append([sz.get((0, i)) for i in range(5)])
    if any(None in s for s in sizes):
        c.unknown("matrix entries", where, "%s: no matrix was seen" % where)
        return
    nr = {x for l in R.values() for x in l}
    nc = {x for l in C.values() for x in l}
    c.ok("matrix size", n=P)
    if sum(s[0] for s in sizes) != len(nr) or sum(s[1] for s in sizes) != len(nc):
        fail("matrix size", "size", "the matrix is %d by %d instead of %d by %d" % (sum(s[0] for s in sizes), sum(s[1] for s in sizes), len(nr), len(nc)))
        return
    for r, s in enumerate(sizes):
        if not s[2]:
            fail("matrix entries", "assembled/%d" % r, "process %d leaves the matrix unassembled" % r)
    for key in sorted(set(A) | set(got)):
        c.ok("matrix entries")
        if not same(A.get(key, {}), got.get(key, {})):
            fail("matrix entries", "%d,%d" % key, "entry %s is %s instead of %s" % (key, show(got.get(key, {})), show(A.get(key, {}))))
    # the preallocation covers what is inserted
    nz = {}
    for (row, col), v in A.items():
        if any(v.values()):
            nz.setdefault(row, set()).add(col)
    rs = cs_ = glob = 0
    for r in range(P):
        N = Q[r].get("A.nnz", {})
        for row in range(rs, rs + sizes[r][0]):
            cols = nz.get(row, set())
            d = sum(cs_ <= x < cs_ + sizes[r][1] for x in cols)
            c.ok("reserved space")
            if (row, 0) not in N:
                fail("reserved space", "%d" % row, "no space is reserved for row %d" % row)
                continue
            if N[row, 0] < d or P > 1 and N.get((row, 1), 0) < len(cols) - d:
                if k in (1, 2, 4) and P > 1:
                    glob += 1
                    continue
                fail("reserved space", "%d" % row, "row %d has %d+%d entries (own + other processes' columns), but space is reserved for %d+%d" % (row, d, len(cols) - d, N[row, 0], N.get((row, 1), 0)))
        rs += sizes[r][0]
        cs_ += sizes[r][1]
    if glob:
        c.blocked = getattr(c, "blocked", 0) + 1
    # the vector
    if vface is not None:
        for r in range(P):
            B = Q[r].get("b", {})
            for i in sorted(nr):
                c.ok("vector entries")
                l = linear(B[i, 0]) if (i, 0) in B else {}
                if l is None:
                    c.unknown("vector entries", "%s/%d" % (where, i), "%s: entry %d of the vector is not linear" % (where, i))
                    return
                if not same(l, b.get(i, {})):
                    fail("vector entries", "%d" % i, "entry %d of the vector is %s instead of %s" % (i, show(l), show(b.get(i, {}))))
    # boundary conditions
    for r in range(P):
        W, H, n = {}, {}, Q[r].get("bc.n", {})
        for t, d in (("bc.want", W), ("bc", H)):
            for (f, _), v in Q[r].get(t, {}).items():
                d.setdefault(f, []).append(v)
        prev = 1
        for f in sorted({f for f, _ in n}, key=lambda f: (n[f, 0], n[f, 1])):
            w, h = sorted(W.get(f, [])), sorted(H.get(f, []))
            c.ok("boundary rows")
            if w != h:
                fail("boundary rows", "%d/%d" % (r, f), "process %d lists the rows %s for face %d instead of %s" % (r, h[:12], f, w[:12]))
            elif n[f, 0] != n[f, 1] or n[f, 0] != prev + len(h):
                fail("boundary rows", "%d/%d" % (r, f), "process %d counts %d rows after face %d; %d are in the list" % (r, n[f, 0], f, n[f, 1]))
            prev = n[f, 0]
    # time integration vectors
    if k in (0, 3):
        exchange(c, where, k, by, base, P, R, RU, nr, fail, Q)


def exchange(c, where, k, by, base, P, R, RU, nr, fail, Q):
    unk = {}
    for e, l in R.items():
        for g, u in zip(l, RU[e]):
            unk[g] = u
    for r in range(P):
        q = base + 10 * k + r
        for off, f, what in ((1000000, lambda g: {301000 + g: 1}, "vector 1"), (2000000, lambda g: {302000 + g: 1} if unk[g] == 1 else {}, "unknown 1 of vector 2")):
            B = by.get(q + off, {}).get("b", {})
            for g in sorted(nr):
                c.ok("vector from element data")
                l = linear(B[g, 0]) if (g, 0) in B else {}
                if l is None or not same(l, f(g)):
                    fail("vector from element data", "%d/%d/%d" % (off, r, g), "entry %d of the vector constructed from %s is %s instead of %s (process %d)" % (g, what, "not linear" if l is None else show(l), show(f(g)), r))
        for tag, f, what in (("w.all", lambda g: 304000 + g, "written data"), ("w.other", lambda g: 302000 + g, "another time integration vector"), ("w.one", lambda g: (305000 if unk[g] == 1 else 302000) + g, "data after writing unknown 1")):
            D = Q[r].get(tag, {})
            es = {e for e, _ in Q[r].get("r", {})}
            for e in sorted(es):
                for i, g in enumerate(R[e]):
                    c.ok("element data from vector")
                    l = linear(D[e, i]) if (e, i) in D else {}
                    if l is None or not same(l, {f(g): 1}):
                        fail("element data from vector", "%s/%d/%d/%d" % (tag, r, e, i), "%s: coefficient %d of element %d on process %d is %s instead of s%d" % (what, i, e, r, "missing" if l is None else show(l), f(g)))


if __name__ == "__main__":
    main(check)

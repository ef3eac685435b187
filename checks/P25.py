#!/usr/bin/env python3
"""P25: linear steady-state problems: the system that is solved and what becomes of its solution."""
from meshlib import *
from P23 import linear, add, show

CODE = 128


def check():
    c = Check("P25", "abstract interpretation of HpgemAPILinearSteadyState::solveSteadyStateWithPetsc on simulated processes (message passing, PETSc and the linear solver modelled): the stiffness matrix and source term of every element and "
              "face carry their own symbol, so the system at the call of the solver is compared, entry by entry, with the sum over the mesh; the solver's answer is a vector of symbols that is traced to the elements")
    cs = meshgen.cases()
    U = REPO + "/kernel/Utilities/"
    G = run("steady", "probe_steady", cs, dirs=MDIRS + ("Base/TimeIntegration",), exclude=(), files=[U + x + ".cpp" for x in ("GlobalIndexing", "GlobalMatrix", "GlobalVector", "SparsityEstimator")] + [ENGINE + "/models/petsc.cpp"],
            defs=["-DHPGEM_USE_ANY_PETSC"], pre=[ENGINE + "/shadow/solve", "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include"])
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add(x[0])
        msg = "%s, process %s: %s at %s" % (m.name, r.get("x", [0])[0], r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("steady state", "%s/%s" % (m.name, r.get("x", [0])[0]), msg)
    by = {}
    for tag, d in G.t.items():
        for x, v in d.items():
            by.setdefault(x[0], {}).setdefault(tag, {})[x[1:]] = v
    procs = G.t.get("process", {})
    for ci, m in enumerate(cs):
        P = m.size
        if ci in failed:
            continue
        st = {r: procs.get((P, r, ci)) for r in range(P)}
        if any(v is None for v in st.values()):
            c.unknown("steady state", m.name, "%s was not analysed" % m.name)
            continue
        c.ok("no process waits forever", n=P)
        stuck = [r for r in range(P) if st[r] != 1]
        if stuck:
            c.bad("no process waits forever", m.name, "%s: processes %s never finish" % (m.name, stuck))
            continue
        one(c, m, [by.get(10 * ci + r, {}) for r in range(P)])
    if not c.viol and not c.undec:
        for g, n in (("matrix of the system", 20000), ("right-hand side of the system", 700), ("solution", 3800), ("no process waits forever", 40)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "meshes": len(cs)})


def one(c, m, B):
    P = len(B)
    owned, face, R = {}, {}, {}
    for r in range(P):
        for (e, _) in B[r].get("e", {}):
            owned[e] = r
        for (e, k), v in B[r].get("r", {}).items():
            R.setdefault(e, {})[k] = v
        F = B[r].get("f", {})
        for (f, k), v in F.items():
            if (f, 1) in F or not any((f, 1) in B[s].get("f", {}) for s in range(P)):
                face[f, k] = v
    if any(B[r].get("solves") is None for r in range(P)):
        c.ok("matrix of the system")
        c.bad("matrix of the system", m.name + "/solve", "%s: no system is solved on process %s" % (m.name, [r for r in range(P) if B[r].get("solves") is None]))
        return
    A, b = {}, {}
    for e in owned:
        for i, x in R[e].items():
            for j, y in R[e].items():
                add(A, (x, y), 100000 + e, -float(i * CODE + j + 1))
            add(b, x, 150000 + e, float(i + 1))
    for f in {f for f, _ in face}:
        g = [R[face[f, 0]][k] for k in sorted(R[face[f, 0]])]
        if (f, 1) in face:
            g += [R[face[f, 1]][k] for k in sorted(R[face[f, 1]])]
        for i, x in enumerate(g):
            for j, y in enumerate(g):
                add(A, (x, y), 200000 + f, -float(i * CODE + j + 1))
            if (f, 1) not in face:
                add(b, x, 250000 + f, float(i + 1))
    gotA, gotb, odd = {}, {}, []
    for r in range(P):
        for k, v in B[r].get("A", {}).items():
            l = linear(v)
            if l is None:
                odd.append(k)
                continue
            for s, co in l.items():
                add(gotA, k, s, co)
        for (i, _), v in B[r].get("b", {}).items():
            l = linear(v)
            if l is None or gotb.setdefault(i, l) != l:
                odd.append(i)
    if odd:
        c.unknown("matrix of the system", m.name, "%s: entries %s are not sums of contributions" % (m.name, odd[:4]))
        return
    clean = lambda d: {k: v for k, v in d.items() if v}
    # a system may be multiplied by a number as a whole
    k0 = min(A)
    s0 = min(A[k0])
    scale = gotA.get(k0, {}).get(s0, 0.0) / A[k0][s0] or 1.0
    nbad = 0
    for rule, got, want in (("matrix of the system", gotA, A), ("right-hand side of the system", gotb, b)):
        for k in sorted(set(got) | set(want)):
            c.ok(rule)
            w = {s: v * scale for s, v in want.get(k, {}).items()}
            g = got.get(k, {})
            if any(abs(w.get(s, 0) - g.get(s, 0)) > 1e-9 * abs(w.get(s, 1)) for s in set(w) | set(g)):
                nbad += 1
                if nbad <= 4:
                    c.bad(rule, "%s/%s" % (m.name, k), "%s: entry %s of the system is %s, not %s" % (m.name, k, show(clean(g)), show(clean(w))))
    nbad = 0
    for r in range(P):
        for e, row in R.items():
            if (e, 0) not in B[r].get("r", {}):
                continue
            for k, x in row.items():
                for tag, what in (("x", "the solution"), ("x.error", "the solution of which the error is computed"), ("x.maxerror", "the solution of which the maximal error is computed"), ("x.vtk", "the solution when the VTK output is written")):
                    if tag != "x" and owned[e] != r:
                        continue
                    c.ok("solution")
                    v = B[r].get(tag, {}).get((e, k))
                    if v is None or linear(v) != {300000 + x: 1.0}:
                        nbad += 1
                        if nbad <= 4:
                            c.bad("solution", "%s/%s/%d/%d/%d" % (m.name, tag, r, e, k), "%s, process %d: coefficient %d of %s in %selement %d is not what the solver computed" % (m.name, r, k, what, "" if owned[e] == r else "ghost ", e))
        for tag in ("vtk", "tecplot"):
            c.ok("solution")
            if B[r].get(tag) is None:
                c.bad("solution", "%s/%s/%d" % (m.name, tag, r), "%s, process %d: no %s output is written" % (m.name, r, tag))


if __name__ == "__main__":
    main(check)

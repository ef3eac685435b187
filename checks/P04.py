#!/usr/bin/env python3-vt
"""P04: conforming basis functions are continuous across element boundaries."""
import numpy as np
from baslib import *
from P05 import target

PTS = {}


def pts(shape, n=12):
    if (shape, n) not in PTS:
        rnd = random.Random(3)
        PTS[(shape, n)] = [sampler(shape)(rnd) for _ in range(n)]
    return PTS[(shape, n)]


def nodal(shape, c, q):
    """value of the nodal (multi)linear function of corner c"""
    if shape == "point":
        return 1.0
    v = GN[shape][c]
    if shape in ("line", "square"):
        return math.prod((1 + a * q[i]) / 2 for i, a in enumerate(v))
    lam = {(0, 0): 1 - q[0] - q[1], (1, 0): q[0], (0, 1): q[1]}
    return lam[tuple(int(round(x)) for x in v)]


def affine(shape, perm):
    """the affine symmetry sending corner k to corner perm[k]"""
    V = GN[shape]
    d = DIM[shape]
    if d == 0:
        return lambda q: {}
    A = np.array([list(V[k]) + [1.0] for k in range(len(V))])
    B = np.array([list(V[k]) for k in perm])
    X = np.linalg.lstsq(A, B, rcond=None)[0]
    assert np.abs(A @ X - B).max() < 1e-9
    return lambda q: {i: float(sum(X[j][i] * q[j] for j in range(d)) + X[d][i]) for i in range(d)}


def check():
    global GN
    c = Check("P04", "abstract interpretation of all conforming (vertex, edge, face, interior) sets, orders 1-5, on every facet at a symbolic facet point; "
              "obligations: functions vanish on all facets their entity does not touch, vertex functions are nodal, one set per (entity, orientation), "
              "and for every relative ordering of a shared face/edge the traces seen from both sides are the same function; together the sets are a basis")
    GG = Geo()
    GN = {SH[g]: GG.nodes(g) for g in (0, 1, 2, 3)}
    sym = {}  # face shape -> [(perm, index)]
    for g, name in ((1, "line"), (2, "square"), (3, "triangle")):
        sym[name] = []
        for i in range(GG.t["nperm"][(g, 0, 0)]):
            if (g, i, 0) in GG.t["c0idx"]:
                # the face-to-face map the code selects for this ordering (P08 decides whether it is the right one)
                img = [GG.cpt("c0node", g * 100 + i, k, DIM[name]) for k in range(len(GN[name]))]
                pi = [min(range(len(GN[name])), key=lambda j: sum((GN[name][j][d] - x[d]) ** 2 for d in range(DIM[name]))) for x in img]
                sym[name].append((pi, GG.t["c0idx"][(g, i, 0)]))
    sym["point"] = [([0], 0)]
    G = basis("probe_basis_conforming")
    t = G.t
    ev = G.ctx.ev
    canonF, canonE, canonEF = {}, {}, {}
    for (fam, p, D), v in sorted(t["conf"].items()):
        shape, fname = FAM[fam]
        base = fam * 100000 + p * 10000
        kk = "%s p%d" % (fname, p)
        if outcome(c, G, "conf", (fam, p, 0), "sets", kk):
            continue
        c.ok("sets")
        nf = len({x[1] for x in t["fcorners"] if x[0] == fam})
        fc = [G.list("fcorners", fam, f) for f in range(nf)]
        ft = [TYPE[t["ftype"][(fam, f, 0)]] for f in range(nf)]
        ec = [G.list("ecorners", fam, e) for e in range(len({x[1] for x in t.get("ecorners", {}) if x[0] == fam}))] if D == 3 else []
        nv = len(VERT[shape])
        src = "kernel/FE, %s conforming set of order %d" % (fname, p)

        def zero(tag, id, i, f):
            return all(abs(ev(t[tag][(id, i, f)], q)) < 1e-9 for q in pts(ft[f]))

        def vertexzero(tag, id, i):
            return all(abs(ev(t[tag][(id, i, 100 + w)], {})) < 1e-9 for w in range(nv))
        # interior
        for i in range(t["nint"][(fam, p, 0)]):
            bad = [f for f in range(nf) if not zero("interior", base, i, f)]
            c.require("interior functions", not bad, "%s interior %d" % (kk, i), "%s: interior function %d does not vanish on facets %s" % (src, i, bad))
        # vertices
        if D > 1:
            c.require("vertex functions", t["nvert"][(fam, p, 0)] == nv, kk + " vertices", "%s has %d vertex sets for %d vertices" % (src, t["nvert"][(fam, p, 0)], nv))
            for w in range(min(nv, t["nvert"][(fam, p, 0)])):
                for i in range(t["vsize"][(base, w, 0)]):
                    key = "%s vertex %d #%d" % (kk, w, i)
                    vals = [ev(t["vertex"][(base + w, i, 100 + x)], {}) for x in range(nv)]
                    c.require("vertex functions", close(vals, [1.0 if x == w else 0.0 for x in range(nv)], 1e-9), key, "%s: vertex function %d has the values %s at the vertices" % (src, w, vals))
                    for f in range(nf):
                        if w in fc[f]:
                            k = fc[f].index(w)
                            ok = all(abs(ev(t["vertex"][(base + w, i, f)], q) - nodal(ft[f], k, q)) < 1e-9 for q in pts(ft[f]))
                            c.require("vertex functions", ok, "%s on %d" % (key, f), "%s: the trace of vertex function %d on facet %d is not the nodal function of the facet's corner %d" % (src, w, f, k))
                        else:
                            c.require("vertex functions", zero("vertex", base + w, i, f), "%s on %d" % (key, f), "%s: vertex function %d does not vanish on facet %d" % (src, w, f))
        # edges
        seen = {}
        for s in range(t["nedge"][(fam, p, 0)]):
            if (base, s, 0) not in t.get("eori", {}):
                c.bad("edge functions", "%s edge set %d" % (kk, s), "%s: edge set %d belongs to no edge/orientation" % (src, s))
                continue
            e, o = t["eori"][(base, s, 0)], t["eori"][(base, s, 1)]
            seen.setdefault((e, o), []).append(s)
            n = t["esize"][(base, s, 0)]
            for i in range(n):
                key = "%s edge %d/%d #%d" % (kk, e, o, i)
                c.require("edge functions", vertexzero("edge", base + s, i), key, "%s: function %d of edge %d (orientation %d) does not vanish at the vertices" % (src, i, e, o))
                tr = [ev(t["etrace"][(base + s, i, 0)], q) for q in pts("line")]
                ref = canonE.setdefault((fam, p, i), tr)
                c.require("edge traces", close(tr, ref, 1e-8), key, "%s: the trace of function %d of edge %d (orientation %d) along the edge differs from that of other elements sharing the edge" % (src, i, e, o))
                for f in range(nf):
                    if set(ec[e]) <= set(fc[f]):
                        a, b = [fc[f].index(x) for x in (ec[e] if o == 0 else ec[e][::-1])]
                        # compare with the canonical trace of that oriented facet edge
                        T = t["edge"][(base + s, i, f)]
                        k0 = (fam, ft[f], p, i)
                        if k0 not in canonEF:
                            canonEF[k0] = (T, a, b)
                        T0, a0, b0 = canonEF[k0]
                        perms = [pi for pi, _ in sym[ft[f]] if pi[a0] == a and pi[b0] == b]
                        ok = perms and all(all(abs(ev(T, affine(ft[f], pi)(q)) - ev(T0, q)) < 1e-8 for q in pts(ft[f])) for pi in perms)
                        c.require("edge traces", ok, "%s on %d" % (key, f), "%s: the trace of function %d of edge %d (orientation %d) on facet %d differs from the one seen from a neighbouring element" % (src, i, e, o, f))
                    else:
                        c.require("edge functions", zero("edge", base + s, i, f), "%s on %d" % (key, f), "%s: function %d of edge %d does not vanish on facet %d" % (src, i, e, f))
        if D == 3 and fam != 6:
            for e in range(len(ec)):
                for o in (0, 1):
                    c.require("coverage", len(seen.get((e, o), [])) == 1, "%s edge %d/%d" % (kk, e, o), "%s has %d sets for edge %d with orientation %d" % (src, len(seen.get((e, o), [])), e, o))
        # faces
        seenf = {}
        for s in range(t["nfset"][(fam, p, 0)]):
            if (base, s, 0) not in t.get("fori", {}):
                c.bad("face functions", "%s face set %d" % (kk, s), "%s: face set %d belongs to no face/orientation" % (src, s))
                continue
            f, o = t["fori"][(base, s, 0)], t["fori"][(base, s, 1)]
            seenf.setdefault((f, o), []).append(s)
            n = t["fsize"][(base, s, 0)]
            S = ft[f]
            m = canonF.setdefault((fam, S, p, "n"), n)
            c.require("face functions", n == m, "%s face %d/%d" % (kk, f, o), "%s: %d functions on face %d (orientation %d), but %d on other %s faces" % (src, n, f, o, m, S))
            for i in range(n):
                key = "%s face %d/%d #%d" % (kk, f, o, i)
                bad = [g for g in range(nf) if g != f and not zero("face", base + s, i, g)]
                c.require("face functions", not bad, key, "%s: function %d of face %d (orientation %d) does not vanish on facets %s" % (src, i, f, o, bad))
                T = t["face"][(base + s, i, f)]
                perms = [pi for pi, k in sym[S] if k == o]
                if o == 0:
                    ref = canonF.setdefault((fam, S, p, i), T)
                elif (fam, S, p, i) not in canonF:
                    c.unknown("face traces", key, "no canonical trace")
                    continue
                else:
                    ref = canonF[(fam, S, p, i)]
                for pi in perms:
                    ok = all(abs(ev(T, affine(S, pi)(q)) - ev(ref, q)) < 1e-8 for q in pts(S))
                    c.require("face traces", ok, key, "%s: function %d of face %d with orientation %d (node ordering %s) is not the continuation of the function on the other side of the face" % (src, i, f, o, pi))
        if fam != 6:
            for f in range(nf):
                for o in sorted({k for _, k in sym[ft[f]]}):
                    c.require("coverage", len(seenf.get((f, o), [])) == 1, "%s face %d/%d" % (kk, f, o), "%s has %d sets for face %d with orientation %d" % (src, len(seenf.get((f, o), [])), f, o))
        # together (orientation 0) a basis
        cols = [("cval", base, i) for i in range(t["nint"][(fam, p, 0)])]
        for w in range(t["nvert"][(fam, p, 0)]):
            cols += [("cval", base + 1000 + w, i) for i in range(t["vsize"][(base, w, 0)])]
        for (e, o), l in seen.items():
            if o == 0:
                cols += [("cval", base + 2000 + l[0], i) for i in range(t["esize"][(base, l[0], 0)])]
        for (f, o), l in seenf.items():
            if o == 0:
                cols += [("cval", base + 4000 + l[0], i) for i in range(t["fsize"][(base, l[0], 0)])]
        dim, _ = target(fam, p, D)
        mons = [e for e in itertools.product(range(p + 1), repeat=D) if fam in (1, 2, 4) or sum(e) <= p]
        Q = pts(shape, dim + 30)
        M = np.array([[ev(t[a][(b, i, 0)], q) for a, b, i in cols] for q in Q])
        M = M / np.maximum(1e-300, np.linalg.norm(M, axis=0))
        u, s, _ = np.linalg.svd(M, full_matrices=False)
        rank = int((s > 1e-9 * s[0]).sum())
        c.require("basis", len(cols) == dim and rank == dim, kk, "%s: %d functions of rank %d; the space has dimension %d" % (src, len(cols), rank, dim))
        u = u[:, :rank]
        bad = None
        for e in mons:
            b = np.array([math.prod(q[j] ** e[j] for j in range(D)) for q in Q])
            if np.linalg.norm(b - u @ (u.T @ b)) > 1e-8 * np.linalg.norm(b):
                bad = e
                break
        c.require("basis", bad is None, kk + " complete", "%s: the polynomial with exponents %s is not in the span" % (src, bad))
    c.expect("sets", 26)
    return c.finish({"functions_analysed": G.ctx.stats["repo_functions"], "ir_steps": G.ctx.stats["steps"]})


if __name__ == "__main__":
    main(check)

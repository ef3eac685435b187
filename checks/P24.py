#!/usr/bin/env python3
"""P24: explicit time stepping and right-hand sides on distributed meshes."""
from meshlib import *
import alg
import apilib

CODE = 128
V = alg.P.var
DT, T0 = V(250), V(251)
STAGES = 3


def A(i, j):
    return V(100 + 10 * i + j)


def B(i):
    return V(200 + i)


def C(i):
    return V(220 + i)


def load(v):
    if isinstance(v, (int, float)):
        return alg.P.const(v)
    if "c" in v:
        return alg.P.const(v["c"])
    if "n" not in v or v.get("d"):
        return None
    return alg.P.load(v["n"])


def combine(terms):
    """sum of coefficient * monomial * vector entry, without building intermediate products"""
    r = alg.P()
    for co, p in terms:
        for m, c in (co * p).items():
            r[m] = r.get(m, 0.0) + c
    return r


def same(a, b):
    scale = max([1.0] + [abs(x) for x in b.values()])
    return all(abs(a.get(m, 0.0) - b.get(m, 0.0)) <= 1e-9 * scale for m in set(a) | set(b))


def check():
    c = Check("P24", "abstract interpretation of HpgemAPIBase, HpgemAPISimplified and HpgemAPILinear on simulated processes (message passing modelled): the user's element and face functions, the Butcher tableau, time and step size are "
              "indeterminates; what the functions are given and the vectors that result are compared, as polynomials, with the Runge-Kutta method applied to the mesh as a whole")
    cs = meshgen.cases()
    G = run("timestep", "probe_timestep", cs, dirs=MDIRS + ("Base/TimeIntegration", "Output"), exclude=())
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add((x[0], x[1]))
        p = r.get("x", [0])[0]
        msg = "%s, process %s: %s at %s" % (m.name, p, r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("time stepping", "%s/%s" % (m.name, p), msg)
    by = {}
    for tag, d in G.t.items():
        for x, v in d.items():
            by.setdefault(x[0], {}).setdefault(tag, {})[x[1:]] = v
    procs = G.t.get("process", {})
    for ci, m in enumerate(cs):
        for both in range(2):
            if (ci, both) in failed:
                continue
            P = m.size
            st = {r: procs.get((P, r, 2 * ci + both)) for r in range(P)}
            name = "%s, %s" % (m.name, "both sides of a face together" if both else "sides of a face separately")
            if any(v is None for v in st.values()):
                c.unknown("time stepping", name, "%s was not analysed" % name)
                continue
            c.ok("no process waits forever", n=P)
            stuck = [r for r in range(P) if st[r] != 1]
            if stuck:
                c.bad("no process waits forever", name, "%s: processes %s never finish" % (name, stuck))
                continue
            Q = [((2 * ci + both) * 10 + r) * 100 for r in range(P)]
            explicit(c, name, m, by, Q)
            if not both:
                linear(c, m.name, m, by, Q)
    loops(c, cs)
    apilib.defaults(c)
    if not c.viol and not c.undec:
        for g, n in (("adaptive steps", 1500), ("time loop", 1500), ("stage data", 50000), ("stage time", 4000), ("solution after a step", 3000), ("time derivative", 3000), ("right-hand side of linear problems", 3000), ("ghost values", 3000), ("vector operations", 10000),
                     ("initial solution", 3000), ("mass matrix equations", 1500), ("total error", 80), ("time levels", 3000), ("no process waits forever", 80)):
            c.expect(g, n)
    return c.finish({"functions_interpreted": G.ctx.stats.get("analysed", 0), "meshes": len(cs)})


class Mesh:
    def __init__(s, c, name, by, Q):
        s.face, s.n, s.own, s.sees = {}, {}, {}, []
        for q in Q:
            F = by.get(q, {}).get("f", {})
            for (f, k), v in F.items():
                if (f, 1) in F or not any((f, 1) in by.get(p, {}).get("f", {}) for p in Q):
                    if s.face.setdefault((f, k), v) != v:
                        c.unknown("time stepping", "%s/face/%d" % (name, f), "%s: two processes see different elements at face %d" % (name, f))
            for (e, _), v in by.get(q, {}).get("n", {}).items():
                s.n[e] = v
            for (e, _), v in by.get(q, {}).get("e", {}).items():
                s.own[e] = q
            s.sees.append({e for e, _ in by.get(q, {}).get("n", {})})
        s.at = {}
        for (f, k), e in s.face.items():
            s.at.setdefault(e, []).append((f, k))

    def solve(s, e, r):
        d = [2.0 ** ((e + i) % 3) for i in range(len(r))]
        k = [x * (1 / y) for x, y in zip(r, d)]
        k[0] = (r[0] - k[1]) * (1 / d[0])
        return k


def explicit(c, name, m, by, Q):
    M = Mesh(c, name, by, Q)
    if len(M.own) != len(m.elements):
        c.unknown("time stepping", name, "%s: %d elements are owned by a process, the mesh has %d" % (name, len(M.own), len(m.elements)))
        return
    nbad = [0]

    def cmp(rule, q, tag, ent, k, want, what):
        c.ok(rule)
        v = by.get(q, {}).get(tag, {}).get((ent, k))
        if v is None:
            msg = "is missing"
        else:
            p = load(v)
            if p is None:
                c.unknown(rule, "%s/%s/%d/%d/%d" % (name, tag, q % 1000, ent, k), "%s: %s is not a polynomial" % (name, what))
                return
            if same(p, want):
                return
            d = next(x for x in sorted(set(p) | set(want)) if abs(p.get(x, 0.0) - want.get(x, 0.0)) > 1e-9)
            msg = "has %g instead of %g times %s" % (p.get(d, 0.0), want.get(d, 0.0), text(d))
        nbad[0] += 1
        if nbad[0] <= 4:
            c.bad(rule, "%s/%s/%d/%d/%d" % (name, tag, q % 1000, ent, k), "%s, process %d: %s %s" % (name, q // 100 % 10, what, msg))
    K = {}
    for st in list(range(STAGES)) + [5]:
        for e in M.own:
            r = []
            for i in range(M.n[e]):
                x = V(10000000 + st * 1000000 + e * 100 + i)
                for f, k in M.at.get(e, ()):
                    x = x + V(20000000 + st * 1000000 + f * 200 + 100 * k + i)
                r.append(x)
            K[st, e] = M.solve(e, r)
    X = {}
    for e in M.own:
        for i in range(M.n[e]):
            u = V(50000000 + e * 100 + i)
            for st in range(STAGES):
                X[st, e, i] = combine([(alg.P.const(1), u)] + [(DT * A(st, j), K[j, e][i]) for j in range(st)])
            X[5, e, i] = V(52000000 + e * 100 + i)
            X["u", e, i] = combine([(alg.P.const(1), u)] + [(DT * B(j), K[j, e][i]) for j in range(STAGES)])
            X["init", e, i] = M.solve(e, [V(40000000 + e * 100 + j) for j in range(M.n[e])])[i]
    for qi, q in enumerate(Q):
        mine = [e for e in M.own if M.own[e] == q]
        for st in list(range(STAGES)) + [5]:
            tm = T0 if st == 5 else T0 + C(st) * DT
            for e in mine:
                for i in range(M.n[e]):
                    cmp("stage data", q + st, "in.e", e, i, X[st, e, i], "coefficient %d given to element %d in stage %d" % (i, e, st))
                cmp("stage time", q + st, "t.e", e, 0, tm, "the time given to element %d in stage %d" % (e, st))
            S = by.get(q + st, {}).get("side", {})
            for (f, k), e in M.face.items():
                if k or not (M.own[e] == q or (f, 1) in M.face and M.own[M.face[f, 1]] == q):
                    continue
                sides = (0,) if (f, 1) not in M.face or (f, 2) in S else (0, 1)
                if (f, 1) in M.face and not ((f, 2) in S or (f, 0) in S or (f, 1) in S):
                    c.bad("stage data", "%s/%d/%d/%d" % (name, q % 1000, st, f), "%s: face %d is left out in stage %d on process %d" % (name, f, st, qi))
                    continue
                for s in sides:
                    if (f, 1) in M.face and (f, 2) not in S and (f, s) not in S:
                        # one side only is enough where the other element belongs to another process
                        if M.own[M.face[f, s]] == q:
                            c.bad("stage data", "%s/%d/%d/%d/%d" % (name, q % 1000, st, f, s), "%s: side %d of face %d is left out in stage %d on process %d" % (name, s, f, st, qi))
                        continue
                    for i in range(M.n[e]):
                        cmp("stage data", q + st, "in.l", f, 100 * s + i, X[st, e, i], "coefficient %d of the left element given to face %d in stage %d" % (i, f, st))
                    if (f, 1) in M.face:
                        r = M.face[f, 1]
                        for i in range(M.n[r]):
                            cmp("stage data", q + st, "in.r", f, 100 * s + i, X[st, r, i], "coefficient %d of the right element given to face %d in stage %d" % (i, f, st))
                    cmp("stage time", q + st, "t.f", f, s, tm, "the time given to face %d in stage %d" % (f, st))
        cmp("stage time", q, "time", 0, 0, T0 + DT, "the time after the step")
        for e in sorted(M.sees[qi]):
            g = "" if M.own[e] == q else "ghost "
            for i in range(M.n[e]):
                w = V(52000000 + e * 100 + i)
                cmp("initial solution", q, "init", e, i, X["init", e, i], "coefficient %d of the initial solution in %selement %d" % (i, g, e))
                cmp("solution after a step", q, "u", e, i, X["u", e, i], "coefficient %d of the solution in %selement %d" % (i, g, e))
                cmp("time derivative", q + 5, "k", e, i, K[5, e][i], "coefficient %d of the time derivative in %selement %d" % (i, g, e))
                cmp("vector operations", q, "scale", e, i, V(254) * w, "coefficient %d of the scaled vector in %selement %d" % (i, g, e))
                cmp("vector operations", q, "add", e, i, V(53000000 + e * 100 + i) + V(255) * V(254) * w, "coefficient %d of the sum of vectors in %selement %d" % (i, g, e))
                cmp("vector operations", q + 1, "scale", e, i, V(254) * w, "coefficient %d of the added vector in %selement %d" % (i, g, e))
                cmp("ghost values", q, "sync", e, i, V(50000000 + e * 100 + i), "coefficient %d in %selement %d after synchronisation" % (i, g, e))
                cmp("ghost values", q, "sync.other", e, i, V(54000000 + e * 100 + i), "coefficient %d of another vector in %selement %d after synchronisation" % (i, g, e))
        for e in mine:
            cmp("initial solution", q, "t.init", e, 1, V(253), "the time of the initial solution in element %d" % e)
            cmp("total error", q, "t.err", e, 0, V(256), "the time of the error in element %d" % e)
            cmp("largest error", q, "t.max", e, 0, V(256), "the time of the largest error in element %d" % e)
            for i in range(M.n[e]):
                cmp("total error", q + 5, "in.err", e, i, V(54000000 + e * 100 + i), "coefficient %d given to the error of element %d" % (i, e))
                cmp("largest error", q + 5, "in.max", e, i, V(54000000 + e * 100 + i), "coefficient %d given to the largest error of element %d" % (i, e))
                cmp("time levels", q, "level1", e, i, V(50000000 + e * 100 + i), "coefficient %d of time level 1 in element %d" % (i, e))
                cmp("time levels", q, "level0", e, i, V(54000000 + e * 100 + i), "coefficient %d of time level 0 in element %d" % (i, e))
                cmp("time levels", q, "restored", e, i, V(50000000 + e * 100 + i), "coefficient %d restored from time level 1 in element %d" % (i, e))
        for i in range(2):
            cmp("largest error", q, "largest", 0, i, alg.P.const(max((1 + e * 7 % 5, 20 - e)[i] for e in M.own)), "the largest error of unknown %d" % i)
        cmp("total error", q, "error", 0, 0, alg.P.const(sum(e + 1 for e in M.own) ** 0.5), "the total error")


def text(mono):
    def one(s):
        if 10000000 <= s < 20000000:
            return "element %d's result in stage %d" % (s % 1000000 // 100, s // 1000000 - 10)
        if 20000000 <= s < 30000000:
            return "face %d's %s result in stage %d" % (s % 1000000 // 200, ("left", "right")[s % 200 // 100], s // 1000000 - 20)
        if s >= 40000000:
            return "coefficient %d of element %d (vector %d)" % (s % 100, s % 1000000 // 100, s // 1000000 - 50)
        if 100 <= s < 200:
            return "A(%d,%d)" % (s // 10 - 10, s % 10)
        return {200: "B0", 201: "B1", 202: "B2", 220: "C0", 221: "C1", 222: "C2", 250: "dt", 251: "t"}.get(s, "s%d" % s)
    return " * ".join(one(s) for s, e in mono) or "1"


def num(v):
    v = v.get("c") if isinstance(v, dict) else v
    return v if isinstance(v, (int, float)) else None


def loops(c, cs):
    """adaptive steps and the loop over the time interval"""
    G = run("solve", "probe_solve", cs, dirs=MDIRS + ("Base/TimeIntegration",), exclude=(), pre=[ENGINE + "/shadow/solve"])
    failed = set()
    for (t, x), r in sorted(G.fail.items()):
        m = cs[x[0]]
        failed.add((t, x[0]))
        msg = "%s, process %s: %s at %s" % (m.name, r.get("x", [0])[0], r["why"], r["at"])
        (c.bad if r["fail"] == "abort" else c.unknown)("adaptive steps" if t == "solve" else "time loop", "%s/%s" % (m.name, t), msg)
    by = {}
    for r in G.recs:
        x = r["x"]
        if r["t"].startswith("try.") or "v" not in r and "x" not in r:
            continue
        by.setdefault(x[0], {}).setdefault(r["t"], {})[tuple(x[1:])] = num(r.get("v"))
    procs = G.t.get("process", {})
    a = {(1, 0): .5, (2, 0): .25, (2, 1): .5}
    b, cc, er = (.25, .5, .25), (0., .5, .75), (.5, -1., .5)
    tol, most = (1e-1, 1e-2, 1e-4, 1e-6, 1e-3), (1e-2, 2, 3, 1, 1e-3)
    for ci, m in enumerate(cs):
        if ("solve", ci) in failed:
            continue
        st = {r: procs.get((m.size, r, ci)) for r in range(m.size)}
        if any(v is None for v in st.values()):
            c.unknown("adaptive steps", m.name, "%s was not analysed" % m.name)
            continue
        stuck = [r for r in st if st[r] != 1]
        if stuck:
            c.bad("no process waits forever", m.name + "/adaptive", "%s, adaptive steps: processes %s never finish" % (m.name, stuck))
            continue
        for k in range(5):
            D = [by.get((10 * ci + p) * 100 + k, {}) for p in range(m.size)]
            own = {}
            for p in range(m.size):
                for (e, _) in by.get((10 * ci + p) * 100, {}).get("own", {}):
                    own[e] = p
            t = [(d.get("time", {}).get((0, 0)), d.get("time", {}).get((1, 0))) for d in D]
            key = "%s/adaptive/%d" % (m.name, k)
            where = "%s, adaptive step %d" % (m.name, k)
            c.ok("adaptive steps", 2)
            if not own or any(x is None for y in t for x in y):
                c.unknown("adaptive steps", key, where + ": not evaluated to numbers")
                continue
            if len(set(t)) != 1:
                c.bad("adaptive steps", key, where + ": the processes take different steps: %s" % sorted(set(y - x for x, y in t)))
                continue
            t0, t1 = t[0]
            dt = t1 - t0
            if not 0 < dt <= most[k] * (1 + 1e-9):
                c.bad("adaptive steps", key, where + ": a step of %g where at most %g is allowed" % (dt, most[k]))
            err = norm = 0.
            for p in range(m.size):
                worst = None
                for e in {e for e, _ in D[p].get("u0", {})}:
                    n = len([1 for f, _ in D[p]["u0"] if f == e])
                    u0 = [D[own[e]]["u0"].get((e, i)) for i in range(n)]
                    f = lambda u, s: [u[i] * -float(e % 3 + 1) + s * (i + 1) for i in range(n)]
                    K = []
                    for st in range(3):
                        K.append(f([u0[i] + dt * sum(a[st, q] * K[q][i] for q in range(st)) for i in range(n)], t0 + cc[st] * dt))
                    u1 = [u0[i] + dt * sum(b[st] * K[st][i] for st in range(3)) for i in range(n)]
                    c.ok("adaptive steps", n)
                    for i in range(n):
                        v = D[p].get("u1", {}).get((e, i))
                        if v is None or not abs(v - u1[i]) <= 1e-8 * max(1., abs(u1[i])):
                            worst = "%s: process %d: coefficient %d of %selement %d is %s after a step of %g to which %.12g belongs" % (where, p, i, "" if own[e] == p else "ghost ", e, v, dt, u1[i])
                    if own[e] == p:
                        err += sum((dt * sum(er[st] * K[st][i] for st in range(3))) ** 2 for i in range(n))
                        norm += sum(x * x for x in u1) ** .5
                if worst:
                    c.bad("adaptive steps", key + "/%d" % p, worst)
            if not err ** .5 <= tol[k] * norm * (1 + 1e-6) + 1e-12:
                c.bad("adaptive steps", key, where + ": an estimated error of %g is accepted where %g is allowed" % (err ** .5, tol[k] * norm))
    for ci, m in enumerate(cs):
        if m.size != 1 or ("loop", ci) in failed:
            continue
        for q in sorted(x for x in by if 10000000 + 100 * ci <= x < 10000100 + 100 * ci):
            d = by[q]
            T0_, T1, dt, frames = [d["run"][i, 0] for i in range(4)]
            kind = (q - 10000000) % 100 % 3
            where = "%s, solve(%g, %g, %g, %d)%s" % (m.name, T0_, T1, dt, frames, ("", " with a maximal error and step", " with a maximal error")[kind])
            key = "%s/solve/%g/%g/%g/%d/%d" % (m.name, T0_, T1, dt, frames, kind)
            steps = d.get("most" if kind else "step", {})
            n = len([1 for x in steps if x[1] == 0])
            c.ok("time loop", 3 * n + 3)
            eps = 1e-9 * (T1 - T0_)
            times = [steps[i, 1] for i in range(n)] if all((i, 1) in steps for i in range(n)) else []
            if not times or any(x is None for x in times) or any(steps[i, 0] is None for i in range(n)):
                c.bad("time loop", key, where + ": no steps are taken") if not n else c.unknown("time loop", key, where + ": steps not evaluated to numbers")
                continue
            if d.get("start", {}).get((0, 0)) is None or abs(d["start"][0, 0] - T0_) > eps or abs(times[0] - T0_) > eps:
                c.bad("time loop", key + "/start", where + ": does not start from the initial solution at %g" % T0_)
            if d.get("before", {}).get((0, 0)) != 0 or d.get("after", {}).get((0, 0)) != n:
                c.bad("time loop", key + "/tasks", where + ": the tasks before and after solving are not called before the first and after the last step")
            if d.get("done", {}).get((0, 0)) not in (1, True):
                c.bad("time loop", key + "/done", where + ": does not report success")
            outs = [T0_ + (T1 - T0_) * j / frames for j in range(int(frames) + 1)] if frames else [T0_]
            end = None
            for i in range(n):
                if kind == 0:
                    if steps[i, 0] > dt + eps:
                        c.bad("time loop", key + "/size", where + ": a step of %g" % steps[i, 0])
                        break
                    end = times[i] + steps[i, 0]
                else:
                    if abs(d["tol"][i, 0] - .125) > 1e-12:
                        c.bad("time loop", key + "/tol", where + ": the maximal error 0.125 is not passed on")
                        break
                    nxt = min([x for x in outs if x > times[i] + eps] + [T1])
                    if times[i] + steps[i, 0] > nxt + eps or kind == 1 and steps[i, 0] > dt + eps:
                        c.bad("time loop", key + "/size", where + ": at %g a step of %g is allowed" % (times[i], steps[i, 0]))
                        break
                    end = times[i] + min(steps[i, 0], .04 if i % 3 == 1 else .11 if i % 3 == 2 else steps[i, 0])
            else:
                if abs(end - T1) > eps:
                    c.bad("time loop", key + "/end", where + ": the last step ends at %.12g" % end)
            for tag in ("vtk", "tecplot"):
                got = sorted(v for v in d.get(tag, {}).values() if v is not None)
                if len(got) != len(outs) or any(abs(x - y) > eps for x, y in zip(got, outs)):
                    c.bad("time loop", key + "/" + tag, where + ": %s output at the times %s" % (tag, ["%.6g" % x for x in got]))
            for tag in ("error", "maxerror"):
                got = list(d.get(tag, {}).values())
                if len(got) != 1 or abs(got[0] - T1) > eps:
                    c.bad("time loop", key + "/" + tag, where + ": the error is computed at %s" % got)


def linear(c, name, m, by, Q):
    Q = [q + 50 for q in Q]
    M = Mesh(c, name, by, Q)
    nbad = [0]
    want = {}
    for which in range(2):
        u = {}
        for e in M.own:
            for i in range(M.n[e]):
                x = V(50000000 + e * 100 + i)
                u[e, i] = x if which == 0 else 2.0 * x - 3.0 * V(51000000 + e * 100 + i)
        for e in M.own:
            s = V(10000000 + e)
            for i in range(M.n[e]):
                t = [(s * float(i * CODE + j + 1), u[e, j]) for j in range(M.n[e])] + [(T0, V(30000000 + e * 100 + i))]
                for f, k in M.at.get(e, ()):
                    z = V(20000000 + f)
                    off = M.n[M.face[f, 0]]
                    row = i + (off if k else 0)
                    t += [(z * float(row * CODE + j + 1), u[M.face[f, 0], j]) for j in range(off)]
                    if (f, 1) in M.face:
                        t += [(z * float(row * CODE + off + j + 1), u[M.face[f, 1], j]) for j in range(M.n[M.face[f, 1]])]
                    else:
                        t += [(T0, V(40000000 + f * 100 + i))]
                want[which, e, i] = combine(t)
    for qi, q in enumerate(Q):
        for e in sorted(M.sees[qi]):
            solved = M.solve(e, [V(51000000 + e * 100 + j) for j in range(M.n[e])])
            for i in range(M.n[e]):
                for rule, k, tag, w in (("right-hand side of linear problems", 0, "lin", want[0, e, i]), ("right-hand side of linear problems", 1, "lin", want[1, e, i]), ("mass matrix equations", 0, "solved", solved[i])):
                    c.ok(rule)
                    v = by.get(q + k, {}).get(tag, {}).get((e, i))
                    p = None if v is None else load(v)
                    if p is None or not same(p, w):
                        nbad[0] += 1
                        if nbad[0] <= 4:
                            c.bad(rule, "%s/%s%d/%d/%d/%d" % (name, tag, k, qi, e, i), "%s, process %d: coefficient %d of %s in %selement %d is %s" % (
                                name, qi, i, "the right-hand side" if tag == "lin" else "the solution of the mass matrix equations", "" if M.own[e] == q else "ghost ", e, "missing" if p is None else "not the sum over the element and its faces"))


main(check)

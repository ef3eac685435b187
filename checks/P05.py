#!/usr/bin/env python3-vt
"""P05: basis function sets are bases of the spaces they advertise."""
import numpy as np
from baslib import *


def monomials(D, deg, per=False):
    return [e for e in itertools.product(range(deg + 1), repeat=D) if per or sum(e) <= deg]


def target(fam, p, D):
    """(dimension, scalar monomials that have to lie in the span)"""
    if fam in (1, 2, 4):
        return (p + 1) ** D, monomials(D, p, True)
    if fam in (3, 7) or 11 <= fam <= 14:
        m = monomials(D, p)
        return len(m), m
    if fam == 5:
        return (p + 1) * (p + 1) * (p + 2) // 2, monomials(3, p)
    if fam == 6:
        return (5 if p else 1), monomials(3, p)
    if 15 <= fam <= 18:
        return 1, monomials(D, 0)
    if fam == 20:
        return p * (p + 2), monomials(2, p - 1)
    if fam == 21:
        m = monomials(3, p)
        return 3 * len(m), m
    if fam == 22:
        return p * (p + 2) * (p + 3) // 2, monomials(3, p - 1)
    raise KeyError(fam)


def check():
    c = Check("P05", "abstract interpretation gives every basis function of a set as a polynomial (rational on pyramids); obligations per set: "
              "advertised order, number of functions equals the dimension of the space, linear independence (rank of the collocation matrix of the "
              "abstract values), all polynomials of the advertised degree in the span; Legendre/Lobatto building blocks satisfy their defining relations")
    for entry in ("probe_basis_scalar", "probe_basis_vector"):
        G = basis(entry)
        t = G.t
        for (id, D, _), n in sorted(t["size"].items()):
            fam, p = divmod(id, 100)
            shape, fname = FAM[fam]
            key = "%s p%d" % (fname, p)
            if outcome(c, G, "set", (id, 0, 0), "sets", key):
                continue
            who = "%s set of order %d (%s)" % (fname, p, t["cls"][(id, 0, 0)]["file"])
            c.require("orders", t["setorder"][(id, 0, 0)] == p, key, "%s reports order %d" % (who, t["setorder"][(id, 0, 0)]))
            dim, mons = target(fam, p, D)
            c.require("dimensions", n == dim, key, "%s has %d functions; the space has dimension %d" % (who, n, dim))
            if any((id, i, 0) not in t["val"] for i in range(n)):
                c.unknown("sets", key, "a value is not analysable")
                continue
            comp = D if fam >= 20 else 1
            m = max(n, dim) // comp + 40
            rnd = random.Random(5)
            smp = sampler(shape)
            pts = [smp(rnd) for _ in range(m)]
            M = np.zeros((m * comp, n))
            for i in range(n):
                for d in range(comp):
                    v = t["val"][(id, i, d)]
                    for r, q in enumerate(pts):
                        M[r * comp + d, i] = G.ctx.ev(v, G.ctx.env(q) if G.ctx.opq else q)
            nrm = np.linalg.norm(M, axis=0)
            zero = [i for i in range(n) if nrm[i] < 1e-12]
            if not c.require("independence", not zero, key + "/zero", "%s: functions %s vanish identically" % (who, zero)):
                continue
            A = M / nrm
            u, s, vt = np.linalg.svd(A, full_matrices=False)
            rank = int((s > 1e-9 * s[0]).sum())
            if not c.require("independence", rank == n, key, "%s: the %d functions span only %d dimensions; dependent combination %s" %
                             (who, n, rank, [(i, round(float(x), 4)) for i, x in enumerate(vt[-1]) if abs(x) > 1e-6][:8])):
                continue
            bad = None
            for e in mons:
                val = np.array([math.prod(q[j] ** e[j] for j in range(D)) for q in pts])
                for d in range(comp):
                    b = np.zeros(m * comp)
                    b[d::comp] = val
                    res = np.linalg.norm(b - u @ (u.T @ b)) / max(1e-30, np.linalg.norm(b))
                    if res > 1e-8:
                        bad = (e, d)
                        break
                if bad:
                    break
            c.require("completeness", bad is None, key, "%s: the polynomial with exponents %s (component %s) is not in the span" % ((who,) + (bad or (0, 0))))
            c.ok("sets")
    H = basis("probe_basis_helpers")
    t = H.t
    L = [P.const(1.0), P.var(0)]
    for k in range(2, 14):
        L.append((P.var(0) * L[-1] * float(2 * k - 1) - L[-2] * float(k - 1)) * (1.0 / k))
    for tag, name in (("leg", "Legendre polynomial"), ("dleg", "Legendre derivative"), ("lob", "Lobatto polynomial"), ("dlob", "Lobatto derivative")):
        for d in range(13):
            key = "%s %d" % (name, d)
            if (tag, (d, 0, 0)) in H.fail or (d, 0, 0) not in t.get(tag, {}):
                if H.fail.get((tag, (d, 0, 0)), {}).get("fail") == "undecided":
                    c.unknown("building blocks", key, "not analysable")
                continue  # announces that it is not implemented
            f = leaf(t[tag][(d, 0, 0)])
            fn = "helperFunctions.cpp, %s of degree %d" % (name, d)
            if tag == "leg":
                # proportional to the Legendre polynomial (normalisation is free), not zero
                c.require("building blocks", prop(f, L[d]), key, fn + ": " + f.text() + " is not a multiple of the Legendre polynomial")
            elif tag == "dleg":
                v = leaf(t["leg"][(d, 0, 0)])
                c.require("building blocks", (f - v.d(0)).zero(), key, fn + " is not the derivative of the polynomial")
            elif tag == "lob":
                # (1-x^2)*Lobatto_d is, up to a factor, the integral of Legendre_{d+1}
                g = (F(P.const(1.0)) - F(P.var(0)) * F(P.var(0))) * f
                c.require("building blocks", prop(g.d(0), L[d + 1]), key, fn + ": " + f.text() + " is not a multiple of the derivative of a Legendre polynomial")
            else:
                v = leaf(t["lob"][(d, 0, 0)])
                c.require("building blocks", (f - v.d(0)).zero(), key, fn + " is not the derivative of the polynomial")
    c.expect("sets", 55)
    c.expect("building blocks", 25)
    return c.finish({"functions_analysed": G.ctx.stats["repo_functions"]})


def prop(f, poly):
    """f == c * poly with c != 0"""
    a, b = f.ev({0: 0.73}), F(poly).ev({0: 0.73})
    return abs(a) > 1e-12 and (f - F(poly) * F(P.const(a / b))).zero(1e-10 * max(1.0, max(abs(x) for x in f.n.values())))


if __name__ == "__main__":
    main(check)

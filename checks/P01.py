#!/usr/bin/env python3
"""P01: every selectable quadrature rule integrates all polynomials up to its order exactly."""
import itertools
import math
from vlib import *

SHAPES = {0: ("point", 0), 1: ("line", 1), 2: ("square", 2), 3: ("triangle", 2), 4: ("cube", 3),
          5: ("tetrahedron", 3), 6: ("pyramid", 3), 7: ("prism", 3), 8: ("hypercube", 4)}
# highest order that the library offers for each shape (confirmed by reading)
OFFERED = {0: 12, 1: 11, 2: 11, 3: 11, 4: 11, 5: 11, 6: 7, 7: 7, 8: 3}
RULES = {1: 6, 2: 6, 3: 9, 4: 6, 5: 10, 6: 4, 7: 3, 8: 2, 0: 1}
TOL = 2e-9


def box(a):
    return 0.0 if a % 2 else 2.0 / (a + 1)


def simplex(e):
    n = len(e)
    num = 1
    for k in e:
        num *= math.factorial(k)
    return num / math.factorial(sum(e) + n)


def moment(g, e):
    if g in (0, 1, 2, 4, 8):
        r = 1.0
        for k in e:
            r *= box(k)
        return r
    if g in (3, 5):
        return simplex(e)
    if g == 7:  # triangle x [-1,1]
        return simplex(e[:2]) * box(e[2])
    if g == 6:  # base [-1,1]^2 at z=0, apex (0,0,1): |x|,|y| <= 1-z
        a, b, c = e
        return box(a) * box(b) * math.factorial(c) * math.factorial(a + b + 2) / math.factorial(a + b + c + 3)


def inside(g, p, t=1e-9):
    if g in (0, 1, 2, 4, 8):
        return all(-1 - t <= x <= 1 + t for x in p)
    if g in (3, 5):
        return all(x >= -t for x in p) and sum(p) <= 1 + t
    if g == 7:
        return p[0] >= -t and p[1] >= -t and p[0] + p[1] <= 1 + t and abs(p[2]) <= 1 + t
    if g == 6:
        return -t <= p[2] <= 1 + t and abs(p[0]) <= 1 - p[2] + t and abs(p[1]) <= 1 - p[2] + t


def cval(v):
    if isinstance(v, dict) and "c" in v:
        return v["c"]
    raise ValueError


def gen():
    """a probe calling every rule class declared in the headers"""
    inc, names = [], []
    for h in sorted(glob.glob(REPO + "/kernel/Integration/QuadratureRules/GaussQuadratureRulesFor*.h")):
        inc.append('#include "Integration/QuadratureRules/%s"' % os.path.basename(h))
        t = open(h).read()
        for m in re.finditer(r"^class\s+(\w+)[^;{]*:\s*public\s+(?:Standard)?GaussQuadratureRule\b.*?^};", t, re.M | re.S):
            if re.search(r"\bstatic\b[^;{]*\bInstance\s*\(", m.group(0)):
                names.append(m.group(1))
    return "\n".join(['#include "vt.h"'] + inc + ["void direct(long, hpgem::QuadratureRules::GaussQuadratureRule*);", "void directs() {"] +
                     ['vtTry("direct", [] { vt_emit_i("askd", %d, 0, 0, 1); direct(%d, &hpgem::QuadratureRules::%s::Instance()); });' % (k, 100 + k, n) for k, n in enumerate(names)] + ["}", ""]), names


def check():
    c = Check("P01", "abstract interpretation (constant propagation over LLVM IR) of the rule registry and all rule "
              "constructors; obligation per rule and monomial: sum w_i x_i^e equals the exact moment of the shape; "
              "per point: lies in the shape; per request: a rule of sufficient order for that shape is selected")
    src = kernel_sources("Geometry", "Integration/QuadratureRules", "Geometry/Mappings") + [ENGINE + "/models/libstdcxx.cpp"]
    text, names = gen()
    tmp = tempfile.mkdtemp()
    try:
        open(tmp + "/directs.cpp", "w").write(text)
        try:
            bcs = lower(src, extra=()) + lower([ENGINE + "/probes/quadrature.cpp"], extra=["-DVT_DIRECT"]) + lower([tmp + "/directs.cpp"], strict=True)
        except Broken as e:
            c.note("rule classes could not be enumerated from the headers, only the selectable ones are analysed: " + str(e)[-300:])
            bcs = lower(src + [ENGINE + "/probes/quadrature.cpp"])
            names = []
    finally:
        shutil.rmtree(tmp)
    recs = interpret("probe_quadrature", bcs)
    w, p, info, ask, fails = {}, {}, {}, {}, {}
    order_of_ask = []
    for r in recs:
        t, x = r["t"], r["x"]
        if t == "ask":
            order_of_ask.append((x[0], x[1]))
        elif t == "rule" and "fail" in r:
            fails[order_of_ask[-1]] = r
        elif t in ("sel", "order", "dim", "np", "geom"):
            info.setdefault((x[0], x[1]), {})[t] = r["v"]
        elif t == "w":
            w.setdefault((x[0], x[1]), {})[x[2]] = r["v"]
        elif t == "p":
            p.setdefault((x[0] // 1000, x[0] % 1000), {}).setdefault(x[1], {})[x[2]] = r["v"]
    stats = [r for r in recs if r["t"] == "_stats"][0]
    seen = set()
    for g, (name, dim) in SHAPES.items():
        for o in list(range(0, OFFERED[g] + 1)) + [100 + k for k in range(len(names)) if (g, 100 + k) in info]:
            key = (g, o)
            if key in fails:
                f = fails[key]
                if f["fail"] == "abort":
                    c.bad("selection", "%s/order %d" % (name, o),
                          "requesting a rule of order %d for the %s ends in an error (%s) at %s" % (o, name, f["why"], f["at"]))
                else:
                    c.unknown("selection", "%s/order %d" % (name, o), f["why"] + " at " + f["at"])
                continue
            i = info[key]
            i["order"] &= (1 << 64) - 1
            cls, where = i["sel"]["class"].split("::")[-1], i["sel"]["file"]
            rname = "%s (%s)" % (cls, where)
            try:
                W = [cval(w[key][k]) for k in range(i["np"])]
                P = [[cval(p[key][k][d]) for d in range(dim)] for k in range(i["np"])]
            except (ValueError, KeyError):
                c.unknown("selection", "%s/order %d" % (name, o), "value not constant")
                continue
            c.require("selection", (o >= 100 or i["order"] >= o) and i["dim"] == dim and i["geom"] == 1, "%s/order %d" % (name, o),
                      "request for order %d on the %s selects %s with order %d, dimension %d%s" %
                      (o, name, rname, i["order"], i["dim"], "" if i["geom"] else ", meant for another shape"))
            if (g, cls) in seen:
                continue
            seen.add((g, cls))
            for k, pt in enumerate(P):
                c.require("points", inside(g, pt), "%s/point %d" % (cls, k), "%s: point %d = %s lies outside the %s" % (rname, k, pt, name))
            deg = min(i["order"], 14) if g else 0
            for e in itertools.product(range(deg + 1), repeat=dim):
                if sum(e) > deg:
                    continue
                s = sum(wi * math.prod(x ** k for x, k in zip(pt, e)) for wi, pt in zip(W, P))
                ex = moment(g, e)
                err = abs(s - ex)
                check.maxerr = max(check.maxerr, err if err < 1e-6 else 0)
                c.require("exactness", err <= TOL, "%s/%s" % (cls, e),
                          "%s (order %d) integrates monomial %s over the %s to %.17g instead of %.17g" % (rname, i["order"], e, name, s, ex))
        c.require("rules", True, "", "")
    c.groups["rules"] = [len(seen), 0, 0]
    c.expect("rules", 40)
    c.note("largest accepted moment error %.3g" % check.maxerr)
    return c.finish({"functions_analysed": stats["repo_functions"], "ir_steps": stats["steps"], "files": sorted(stats["files"]),
                     "skipped_files": SKIPPED})


check.maxerr = 0
main(check)

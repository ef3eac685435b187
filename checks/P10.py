#!/usr/bin/env python3
"""P10: refinement maps split an element into sub-elements that tile it."""
import re
from geomlib import *


def gen():
    inc, names = [], []
    for h in sorted(glob.glob(REPO + "/kernel/Geometry/Mappings/RefinementMaps*.h")):
        inc.append("Geometry/Mappings/" + os.path.basename(h))
        names += re.findall(r"class\s+(\w+)\s*(?:final)?\s*:\s*public\s+RefinementMapping\b", open(h).read())
    src = '#include "common.h"\n' + "".join('#include "%s"\n' % i for i in inc) + r'''
using namespace Geometry;
template <std::size_t D> static void body(long id, const RefinementMapping* m, const ReferenceGeometry* big) {
    vt_emit_class("map", id, 0, 0, m);
    vt_emit_i("bigtype", id, D, 0, (long)big->getGeometryType());
    std::size_t nb = big->getNumberOfNodes();
    vt_emit_i("nb", id, 0, 0, nb);
    for (std::size_t i = 0; i < nb; ++i) { const PointReference<D>& p = big->getReferenceNodeCoordinate(i); vt::point("bignode", id, i, p, D); }
    std::size_t nn = m->getNumberOfNewNodes();
    vt_emit_i("nnew", id, 0, 0, nn);
    vtTry("newnodes", [&] {
        vt_emit_i("try.newnodes", id, 0, 0, 1);
        auto v = m->getNewNodeLocations(PointReference<D>());
        vt_emit_i("nnewloc", id, 0, 0, v.size());
        for (std::size_t i = 0; i < v.size(); ++i) vt::point("newnode", id, i, v[i], D);
    });
    std::size_t ns = m->getNumberOfSubElements();
    vt_emit_i("nsub", id, 0, 0, ns);
    for (std::size_t s = 0; s < ns; ++s) {
        vtTry("sub", [&] {
            vt_emit_i("try.sub", id, s, 0, 1);
            const ReferenceGeometry* g = m->getSubElementReferenceGeometry(s);
            vt_emit_i("subtype", id, s, 0, (long)g->getGeometryType());
            vt::list("subidx", id, s, m->getSubElementLocalNodeIndices(s));
            vt_emit_i("subnn", id, s, 0, g->getNumberOfNodes());
            PointReference<D> x = vt::symPoint<D>();
            vt::point("tr", id, s, m->refinementTransform(s, x), D);
            for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) {
                const PointReference<D>& p = g->getReferenceNodeCoordinate(i);
                vt::point("subnode", id * 100 + s, i, m->refinementTransform(s, p), D);
            }
            for (std::size_t f = 0; f < g->getNumberOfCodim1Entities(); ++f) vt::list("subface", id * 100 + s, f, g->getCodim1EntityLocalIndices(f));
            vt_emit_i("subnf", id, s, 0, g->getNumberOfCodim1Entities());
        });
        vtTry("mat", [&] {
            vt_emit_i("try.mat", id, s, 0, 1);
            PointReference<D> x = vt::symPoint<D>();
            vt::mat("L", id, s, m->getRefinementMappingMatrixL(s, x));
            vt::mat("R", id, s, m->getRefinementMappingMatrixR(s, x));
        });
    }
    std::size_t nf = big->getNumberOfCodim1Entities();
    vt_emit_i("nface", id, 0, 0, nf);
    vtTry("codim1", [&] {
        vt_emit_i("try.codim1", id, 0, 0, 1);
        auto fm = m->getCodim1RefinementMaps();
        vt_emit_i("nfm", id, 0, 0, fm.size());
        for (std::size_t f = 0; f < nf; ++f) {
            vt::list("bigface", id, f, big->getCodim1EntityLocalIndices(f));
            vt_emit_i("fmtype", id, f, 0, (long)fm[f]->getBigElementReferenceGeometry()->getGeometryType());
            vt_emit_i("bftype", id, f, 0, (long)big->getCodim1ReferenceGeometry(f)->getGeometryType());
            vt_emit_i("fmnew", id, f, 0, fm[f]->getNumberOfNewNodes());
            vt_emit_i("fmsub", id, f, 0, fm[f]->getNumberOfSubElements());
            for (std::size_t s = 0; s < fm[f]->getNumberOfSubElements(); ++s) vt::list("fmsubidx", id * 100 + f, s, fm[f]->getSubElementLocalNodeIndices(s));
            vtTry("fnodes", [&] {
                vt_emit_i("try.fnodes", id, f, 0, 1);
                vt::list("fnodes", id, f, m->getCodim1LocalNodeIndices(f));
            });
            for (std::size_t s = 0; s < fm[f]->getNumberOfSubElements(); ++s)
                vtTry("subface", [&] {
                    vt_emit_i("try.subface", id, f, s, 1);
                    auto t = m->getSubElementAndLocalFaceIndex(f, s);
                    vt_emit_i("sfe", id, f, s, std::get<0>(t));
                    vt_emit_i("sff", id, f, s, std::get<1>(t));
                });
        }
    });
}
static void one(long id, const RefinementMapping* m) {
    const ReferenceGeometry* big = m->getBigElementReferenceGeometry();
    switch (big->getDimension()) {
        case 1: body<1>(id, m, big); break;
        case 2: body<2>(id, m, big); break;
        case 3: body<3>(id, m, big); break;
        default: break;
    }
}
// new nodes of a face refinement, located on the parent element
template <std::size_t D> static void faceNew(long id, const RefinementMapping* m) {
    const ReferenceGeometry* big = m->getBigElementReferenceGeometry();
    auto fm = m->getCodim1RefinementMaps();
    for (std::size_t f = 0; f < fm.size(); ++f) {
        auto v = fm[f]->getNewNodeLocations(PointReference<D - 1>());
        for (std::size_t i = 0; i < v.size(); ++i)
            vt::point("fnewloc", id * 100 + f, i, big->getCodim1MappingPtr(f)->transform(v[i]), D);
    }
}
extern "C" void probe_refine() {
'''
    for i, n in enumerate(names):
        src += '    vtTry("map", [&] { vt_emit_i("try.map", %d, 0, 0, 1); one(%d, %s::instance()); });\n' % (i, i, n)
        src += '''    vtTry("facenew", [&] { auto* m = %s::instance(); switch (m->getBigElementReferenceGeometry()->getDimension()) {
        case 2: faceNew<2>(%d, m); break; case 3: faceNew<3>(%d, m); break; default: break; } });\n''' % (n, i, i)
    return src + "}\n", names


def check():
    c = Check("P10", "abstract interpretation of every refinement map at a symbolic point; obligations per sub-element: corners land on the listed "
              "(old or new) nodes, the mapping matrix is the derivative of the transformation and the right matrix its inverse; per map: "
              "positive Jacobians whose integrals add up to the parent's measure, every sub-facet shared by exactly two sub-elements or on the "
              "parent's boundary; per face: face refinement, node list and sub-face table agree with the element's")
    src, names = gen()
    tmp = tempfile.mkdtemp()
    try:
        p = tmp + "/refine.cpp"
        open(p, "w").write(src)
        bcs = lower(kernel_sources("Geometry", "Integration/QuadratureRules", "Geometry/Mappings") + [p, ENGINE + "/models/libstdcxx.cpp"])
        recs = interpret("probe_refine", bcs)
    finally:
        shutil.rmtree(tmp)
    G = Geo.__new__(Geo)
    G.recs, G.ctx, G.t, G.fail = recs, Ctx(recs), {}, {}
    last = {}
    for r in recs:
        t, x = r["t"], tuple(r["x"])
        if t.startswith("try."):
            last[t[4:]] = x
        if "fail" in r:
            G.fail[(t, last.get(t, (0, 0, 0)))] = r
        else:
            G.t.setdefault(t, {})[x] = r.get("v")
    t = G.t

    def failed(kind, x, group, key):
        fl = G.fail.get((kind, x))
        if not fl:
            return False
        (c.bad if fl["fail"] == "abort" else c.unknown)(group, key, "%s: %s at %s" % (key, fl["why"], fl["at"]))
        return True
    done = 0
    for id, n in enumerate(names):
        if failed("map", (id, 0, 0), "maps", n):
            continue
        if (id, 0, 0) not in t["map"]:
            continue
        done += 1
        who = G.cls("map", (id, 0, 0))
        D = [k[1] for k in t["bigtype"] if k[0] == id][0]
        bname = TYPE[t["bigtype"][(id, D, 0)]]
        V = [G.cpt("bignode", id, i, D) for i in range(t["nb"][(id, 0, 0)])]
        nb = len(V)
        if not failed("newnodes", (id, 0, 0), "new nodes", n):
            k = t["nnewloc"][(id, 0, 0)]
            c.require("new nodes", k == t["nnew"][(id, 0, 0)], n, "%s announces %d new nodes and locates %d" % (who, t["nnew"][(id, 0, 0)], k))
            for i in range(k):
                q = G.cpt("newnode", id, i, D)
                c.require("new nodes", inside(bname, q), "%s/%d" % (n, i), "%s: new node %d = %s lies outside the %s" % (who, i, q, bname))
                V.append(q)
        total = 0.0
        facets = {}
        subs = {}
        tot_ok = True
        ns = t["nsub"][(id, 0, 0)]
        for s in range(ns):
            key = "%s/sub %d" % (n, s)
            if failed("sub", (id, s, 0), "sub-elements", key):
                tot_ok = False
                continue
            idx = G.list("subidx", id, s)
            sname = TYPE[t["subtype"][(id, s, 0)]]
            pts = [G.cpt("subnode", id * 100 + s, i, D) for i in range(t["subnn"][(id, s, 0)])]
            c.require("sub-elements", len(idx) == len(pts) and all(k < len(V) and close(V[k], q) for k, q in zip(idx, pts)), key,
                      "%s: corners of sub-element %d are sent to %s, but its node list %s is located at %s" % (who, s, pts, idx, [V[k] if k < len(V) else None for k in idx]))
            X = [leaf(v) for v in G.pt("tr", id, s, D)]
            Jd = [[X[i].d(j) for j in range(D)] for i in range(D)]
            if not failed("mat", (id, s, 0), "matrices", key):
                L = [[leaf(t["L"][(id, s, i * 10 + j)]) for j in range(D)] for i in range(D)]
                R = [[leaf(t["R"][(id, s, i * 10 + j)]) for j in range(D)] for i in range(D)]
                okL = all((L[i][j] - Jd[i][j]).zero() for i in range(D) for j in range(D))
                c.require("matrices", okL, key + "/L", "%s: left mapping matrix of sub-element %d is not the derivative of its transformation: %s vs %s" %
                          (who, s, [[x.text() for x in r] for r in L], [[x.text() for x in r] for r in Jd]))
                okR = all((sum((L[i][k] * R[k][j] for k in range(D)), F(P())) - (1.0 if i == j else 0.0)).zero() for i in range(D) for j in range(D))
                c.require("matrices", okR, key + "/R", "%s: right mapping matrix of sub-element %d is not the inverse of the left one: %s, %s" %
                          (who, s, [[x.text() for x in r] for r in L], [[x.text() for x in r] for r in R]))
            det = fdet(Jd)
            if det.poly():
                total += integrate(det.n, sname)
                pos = all(det.ev(sampler(sname)(random.Random(k))) > 0 for k in range(20))
                c.require("orientation", pos, key, "%s: sub-element %d is mapped with a non-positive Jacobian determinant %s" % (who, s, det.text()))
            else:
                tot_ok = False
                c.unknown("tiling", key, "rational Jacobian")
            subs[s] = []
            for f in range(t["subnf"][(id, s, 0)]):
                fi = frozenset(idx[k] for k in G.list("subface", id * 100 + s, f))
                facets.setdefault(fi, []).append((s, f))
                subs[s].append(fi)
        if tot_ok:
            c.require("tiling", abs(total - MEASURE[bname]) < 1e-9, n, "%s: measures of the sub-elements add up to %.12g, the %s has %.12g" % (who, total, bname, MEASURE[bname]))

            def boundary(fs):
                return any(all(abs(sum(a * x for a, x in zip(h, V[k])) - b) < 1e-9 for k in fs) for h, b in HALF[bname])
            for fs, l in facets.items():
                c.require("conformity", len(l) == 2 or (len(l) == 1 and boundary(fs)), "%s/%s" % (n, sorted(fs)),
                          "%s: sub-facet with nodes %s belongs to %d sub-element(s) %s" % (who, sorted(fs), len(l), l))
        if failed("codim1", (id, 0, 0), "faces", n):
            continue
        nf = t["nface"][(id, 0, 0)]
        c.require("faces", t["nfm"][(id, 0, 0)] == nf, n, "%s has %d face refinements for %d faces" % (who, t["nfm"][(id, 0, 0)], nf))
        for f in range(nf):
            key = "%s/face %d" % (n, f)
            if (id, f, 0) not in t.get("fmtype", {}):
                continue
            c.require("faces", t["fmtype"][(id, f, 0)] == t["bftype"][(id, f, 0)], key, "%s: face %d is a %s but gets a refinement of a %s" %
                      (who, f, TYPE[t["bftype"][(id, f, 0)]], TYPE[t["fmtype"][(id, f, 0)]]))
            if failed("fnodes", (id, f, 0), "faces", key):
                continue
            fn = G.list("fnodes", id, f)
            bf = G.list("bigface", id, f)
            new = []
            k = 0
            while D > 1 and (id * 100 + f, k, 0) in t.get("fnewloc", {}):
                new.append(G.cpt("fnewloc", id * 100 + f, k, D))
                k += 1
            exp = [V[i] for i in bf] + new
            c.require("faces", len(fn) == len(exp) and all(i < len(V) and close(V[i], q) for i, q in zip(fn, exp)), key + "/nodes",
                      "%s: node list %s of face %d does not match the refined face's nodes at %s" % (who, fn, f, exp))
            for s in range(t["fmsub"][(id, f, 0)]):
                k2 = "%s/%d" % (key, s)
                if failed("subface", (id, f, s), "sub-faces", k2):
                    continue
                e, lf = t["sfe"][(id, f, s)], t["sff"][(id, f, s)]
                if e not in subs:
                    c.bad("sub-faces", k2, "%s: sub-face %d of face %d is attributed to sub-element %d of %d" % (who, s, f, e, ns))
                    continue
                loc = G.list("fmsubidx", id * 100 + f, s)
                want = frozenset(fn[i] for i in loc if i < len(fn))
                got = subs[e][lf] if 0 <= lf < len(subs[e]) else None
                c.require("sub-faces", got == want, k2, "%s: sub-face %d of face %d has nodes %s, but is said to be face %d of sub-element %d with nodes %s" %
                          (who, s, f, sorted(want), lf, e, sorted(got) if got else None))
    c.groups["maps"] = [done] + c.groups.get("maps", [0, 0, 0])[1:]
    c.expect("maps", 34)
    st = G.ctx.stats
    return c.finish({"functions_analysed": st["repo_functions"], "ir_steps": st["steps"], "joins": st["joins"], "maps": names})


def fdet(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = F(P())
    for j in range(n):
        m = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        r = r + M[0][j] * fdet(m) * (1.0 if j % 2 == 0 else -1.0)
    return r


main(check)

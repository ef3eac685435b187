// Probe: geometry of faces - normal vectors, the two sides of a face, classification, diameter.
// symbols: reference face point 0.., node coordinates 10..
#include "elem.h"
#include "Base/Node.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
using namespace op;
template <std::size_t D>
using PP = Geometry::PointPhysical<D>;
static unsigned seed = 777;
static double rnd() {
    seed = seed * 1103515245u + 12345u;
    return ((seed >> 16) % 41) / 8. - 2.5;
}
// all coordinates free for simplices, otherwise lines of elements in general position
template <std::size_t D>
static std::vector<PP<D>>& positions(std::size_t n, int base, bool simplex) {
    if (simplex) return nodesSym<D>(n, base);
    auto* v = new std::vector<PP<D>>(n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) {
            const double a = rnd();
            (*v)[i][d] = a + rnd() * vt_sym(base);
        }
    return *v;
}
static Base::Node* node(std::size_t i) {
    static std::vector<Base::Node*> n(100, nullptr);
    if (!n[i]) n[i] = new Base::Node(i);
    return n[i];
}
// 'ids' are the numbers of the Node objects, 'nodes' the numbers of the positions
template <std::size_t D>
static Base::Element* mk(const std::vector<std::size_t>& nodes, std::vector<PP<D>>& pos, const std::vector<std::size_t>& ids, long id) {
    Base::Element* e = new Base::Element(nodes, &sets(), pos, 1, 1, id, zone());
    e->setDefaultBasisFunctionSet(0);
    for (std::size_t i = 0; i < ids.size(); ++i) node(ids[i])->addElement(e, i);
    return e;
}
template <std::size_t D>
static void normals(long shape, const Geometry::ReferenceGeometry& g, std::size_t n) {
    auto& pos = positions<D>(n, 10, n == D + 1);
    const std::size_t nn = g.getNumberOfNodes();
    Base::Element* e = mk<D>(iota(n), pos, {}, shape);
    for (std::size_t fc = 0; fc < g.getNumberOfCodim1Entities(); ++fc) {
        const long key = shape * 100 + fc;
        TRYC("normal", key, {
            Base::Face* F = new Base::Face(e, fc, Geometry::FaceType::WALL_BC, 1);
            const PR<D - 1> p = vt::symPoint<D - 1>(0);
            const SV<D> nv = F->getNormalVector(p);
            // outward normal of the reference element, from the images of the face corners
            SV<D> nr;
            const std::vector<std::size_t> loc = g.getCodim1EntityLocalIndices(fc);
            SV<D> cf;
            SV<D> ce;
            for (std::size_t i : loc) {
                const PR<D>& c = g.getReferenceNodeCoordinate(i);
                for (std::size_t d = 0; d < D; ++d) cf[d] += c[d] / loc.size();
            }
            for (std::size_t i = 0; i < nn; ++i) {
                const PR<D>& c = g.getReferenceNodeCoordinate(i);
                for (std::size_t d = 0; d < D; ++d) ce[d] += c[d] / nn;
            }
            const auto* m = g.getCodim1MappingPtr(fc);
            PR<D> t[D];
            for (std::size_t a = 0; a < D; ++a) {
                PR<D - 1> q;
                if (a > 0) q[a - 1] = 1;
                t[a] = m->transform(q);
            }
            if constexpr (D == 1) nr[0] = 1;
            if constexpr (D == 2) {
                nr[0] = t[1][1] - t[0][1];
                nr[1] = t[0][0] - t[1][0];
            }
            if constexpr (D == 3)
                for (std::size_t d = 0; d < 3; ++d) {
                    const std::size_t a = (d + 1) % 3, b = (d + 2) % 3;
                    nr[d] = (t[1][a] - t[0][a]) * (t[2][b] - t[0][b]) - (t[1][b] - t[0][b]) * (t[2][a] - t[0][a]);
                }
            double out = 0;
            for (std::size_t d = 0; d < D; ++d) out += nr[d] * (cf[d] - ce[d]);
            const PR<D> x = F->mapRefFaceToRefElemL(p);
            const Geometry::Jacobian<D, D> J = e->calcJacobian(x);
            double det;
            if constexpr (D == 1) det = 1; else det = J.determinant();
            for (std::size_t i = 0; i < D; ++i) {
                double s = 0;
                if constexpr (D == 1)
                    s = nv[0] * (J[0] > 0 ? 1 : -1);
                else
                    for (std::size_t k = 0; k < D; ++k) s += J(k, i) * nv[k];
                eq("normal", key, 0, i, s, (det > 0 ? det : -det) * (out > 0 ? nr[i] : -nr[i]));
            }
            if constexpr (D > 1) eqv("map", key, 0, 0, x, m->transform(p), D);
            eqv("physical", key, 0, 0, F->referenceToPhysical(p), e->referenceToPhysical(x), D);
            eqi("boundary", key, 0, 0, F->isInternal(), 0);
            eqi("boundary", key, 0, 1, F->getFaceType() == Geometry::FaceType::WALL_BC, 1);
            eqi("boundary", key, 0, 2, F->localFaceNumberLeft(), fc);
            eqi("boundary", key, 0, 3, F->getReferenceGeometry() == g.getCodim1ReferenceGeometry(fc), 1);
            eqi("boundary", key, 0, 4, e->getFace(fc) == F, 1);
            eqi("boundary", key, 0, 5, F->getPtrElementLeft() == e && F->getPtrElementRight() == nullptr, 1);
        });
        if (D > 1)
            TRYC("diameter", key, {
                auto* np = new std::vector<PP<D>>(n);
                for (auto& q : *np)
                    for (std::size_t d = 0; d < D; ++d) q[d] = rnd();
                Base::Element* e2 = mk<D>(iota(n), *np, {}, 9);
                Base::Face* F = new Base::Face(e2, fc, Geometry::FaceType::WALL_BC, 1);
                double best = 0;
                for (std::size_t i : g.getCodim1EntityLocalIndices(fc))
                    for (std::size_t j : g.getCodim1EntityLocalIndices(fc)) {
                        double s = 0;
                        for (std::size_t d = 0; d < D; ++d) s += ((*np)[i][d] - (*np)[j][d]) * ((*np)[i][d] - (*np)[j][d]);
                        if (s > best) best = s;
                    }
                eq("diameter", key, 0, 0, F->getDiameter() * F->getDiameter(), best);
                eq("diameter", key, 0, 1, F->getDiameter(), F->getDiameter());
            });
    }
}
static bool symmetric(const std::vector<std::size_t>& p) { return p.size() != 4 || p[0] + p[3] == 3; }
template <std::size_t D>
static void two(long key, const Geometry::ReferenceGeometry& gl, std::size_t fl, const Geometry::ReferenceGeometry& gr, std::size_t fr) {
    const auto ll = gl.getCodim1EntityLocalIndices(fl), lr = gr.getCodim1EntityLocalIndices(fr);
    if (gl.getCodim1ReferenceGeometry(fl) != gr.getCodim1ReferenceGeometry(fr)) return;
    std::vector<std::size_t> perm = iota(ll.size());
    const std::size_t nl = gl.getNumberOfNodes(), nr = gr.getNumberOfNodes();
    auto& pos = positions<D>(nl + 2 * nr, 10, false);
    const auto* fg = gl.getCodim1ReferenceGeometry(fl);
    const PR<D - 1> p = vt::symPoint<D - 1>(0);
    long o = 0;
    do {
        if (!symmetric(perm)) continue;
        const long k = key * 10 + o++;
        TRYC("side", k, {
            std::vector<std::size_t> rn(nr);
            std::vector<std::size_t> pn(nr);
            std::vector<std::size_t> inl;
            std::vector<std::size_t> inr;
            std::size_t next = nl;
            for (std::size_t i = 0; i < nr; ++i) rn[i] = next++;
            for (std::size_t i = 0; i < nr; ++i) pn[i] = next++;  // positions of the periodic copy
            for (std::size_t i = 0; i < lr.size(); ++i) rn[lr[i]] = ll[perm[i]];
            for (std::size_t i = 0; i < lr.size(); ++i) {
                inl.push_back(ll[i]);
                inr.push_back(rn[lr[i]]);
            }
            const std::size_t idx = fg->getCodim0MappingIndex(inl, inr);
            Base::Element *L = mk<D>(iota(nl), pos, iota(nl), 1), *R = mk<D>(rn, pos, rn, 2), *Q = mk<D>(pn, pos, rn, 3);
            for (int v = 0; v < 3; ++v) {  // internal, periodic, boundary that becomes internal
                Base::Element* r = v == 1 ? Q : R;
                Base::Face* F;
                if (v < 2)
                    F = new Base::Face(L, fl, r, fr, 4);
                else {
                    F = new Base::Face(L, fl, Geometry::FaceType::PARTIAL_FACE, 4);
                    F->addElement(r, fr);
                }
                const long j = v;
                eqi("index", k, j, 0, F->getFaceToFaceMapIndex(), idx);
                eqi("type", k, j, 0, F->isInternal(), 1);
                eqi("type", k, j, 1, F->getFaceType() == (v == 1 ? Geometry::FaceType::PERIODIC_BC : Geometry::FaceType::INTERNAL), 1);
                eqi("type", k, j, 2, F->getPtrElementLeft() == L && F->getPtrElementRight() == r, 1);
                eqi("type", k, j, 3, F->localFaceNumberLeft() == fl && F->localFaceNumberRight() == fr, 1);
                eqi("type", k, j, 4, L->getFace(fl) == F && r->getFace(fr) == F, 1);
                const PR<D> xl = gl.getCodim1MappingPtr(fl)->transform(p);
                const PR<D - 1> pr = fg->getCodim0MappingPtr(idx)->transform(p);
                const PR<D> xr = gr.getCodim1MappingPtr(fr)->transform(pr);
                eqv("left", k, j, 0, F->mapRefFaceToRefElemL(p), xl, D);
                eqv("left", k, j, 1, F->refFaceToRefElemMapL()->transform(p), xl, D);
                if constexpr (D > 1) eqv("across", k, j, 0, F->mapRefFaceToRefFace(p), pr, D - 1);
                eqv("right", k, j, 0, F->mapRefFaceToRefElemR(p), xr, D);
                auto mapR = F->refFaceToRefElemMapR();
                eqv("right", k, j, 1, mapR->transform(p), xr, D);
                // derivative of the concatenated map, by the chain rule
                if constexpr (D > 1) {
                    auto JR = mapR->calcJacobian(p);
                    auto J2 = gr.getCodim1MappingPtr(fr)->calcJacobian(pr);
                    auto J1 = fg->getCodim0MappingPtr(idx)->calcJacobian(p);
                    for (std::size_t a = 0; a < D; ++a)
                        for (std::size_t b = 0; b < D - 1; ++b) {
                            double s = 0;
                            for (std::size_t c = 0; c < D - 1; ++c) s += J2(a, c) * J1(c, b);
                            eq("rightjacobian", k, j, a * 10 + b, JR(a, b), s);
                        }
                }
                // where the selected orientation takes the corners to the right ones both sides meet (P08 decides the selection)
                bool good = true;
                for (std::size_t i = 0; i < ll.size(); ++i) {
                    const PR<D - 1>& c = fg->getReferenceNodeCoordinate(i);
                    const PR<D - 1> to = fg->getCodim0MappingPtr(idx)->transform(c);
                    for (std::size_t q = 0; q < ll.size(); ++q) {
                        const PR<D - 1>& c2 = fg->getReferenceNodeCoordinate(q);
                        bool same = true;
                        for (std::size_t d = 0; d + 1 < D; ++d) same = same && std::abs(c2[d] - to[d]) < 1e-9;
                        if (same) good = good && inr[q] == inl[i];
                    }
                }
                if (good && v != 1) eqv("meet", k, j, 0, L->referenceToPhysical(F->mapRefFaceToRefElemL(p)), r->referenceToPhysical(F->mapRefFaceToRefElemR(p)), D);
            }
        });
    } while (std::next_permutation(perm.begin(), perm.end()));
}
template <std::size_t D>
static void pairsOf(const std::vector<const Geometry::ReferenceGeometry*>& g, const std::vector<long>& names, std::size_t only = 99) {
    for (std::size_t a = 0; a < g.size(); ++a)
        for (std::size_t b = 0; b < g.size(); ++b)
            for (std::size_t i = 0; i < g[a]->getNumberOfCodim1Entities(); ++i)
                for (std::size_t j = 0; j < g[b]->getNumberOfCodim1Entities(); ++j)
                    if (only == 99 || g[a]->getCodim1ReferenceGeometry(i)->getNumberOfNodes() == only) two<D>(((names[a] * 10 + names[b]) * 10 + i) * 10 + j, *g[a], i, *g[b], j);
}
using namespace Geometry;
extern "C" void probe_facegeom1() {
    normals<1>(1, ReferenceLine::Instance(), 2);
    normals<2>(2, ReferenceSquare::Instance(), 4);
    normals<2>(3, ReferenceTriangle::Instance(), 3);
    normals<3>(4, ReferenceCube::Instance(), 8);
    normals<3>(5, ReferenceTetrahedron::Instance(), 4);
    normals<3>(6, ReferencePyramid::Instance(), 5);
    normals<3>(7, ReferenceTriangularPrism::Instance(), 6);
}
extern "C" void probe_facegeom2() {
    pairsOf<1>({&ReferenceLine::Instance()}, {1});
    pairsOf<2>({&ReferenceSquare::Instance(), &ReferenceTriangle::Instance()}, {2, 3});
    pairsOf<3>({&ReferenceTetrahedron::Instance(), &ReferencePyramid::Instance(), &ReferenceTriangularPrism::Instance()}, {5, 6, 7}, 3);
}
extern "C" void probe_facegeom3() { pairsOf<3>({&ReferenceCube::Instance(), &ReferencePyramid::Instance(), &ReferenceTriangularPrism::Instance()}, {4, 6, 7}, 4); }

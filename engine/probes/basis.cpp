// Probe: all basis function sets, evaluated at a symbolic reference point.
#include "common.h"
#include <vector>
#include "FE/BasisFunctionSet.h"
#include "FE/OrientedBasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionsPiecewiseConstant.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
using namespace FE;
using namespace Geometry;

template <std::size_t D>
static void scalar(long id, const BasisFunctionSet& s) {
    vt_emit_i("size", id, D, 0, s.size());
    auto p = vt::symPoint<D>();
    for (std::size_t i = 0; i < s.size(); ++i) {
        vtTry("val", [&] {
            vt_emit_i("try.val", id, i, 0, 1);
            vt_emit_class("cls", id, i, 0, s[i]);
            vt_emit_d("val", id, i, 0, s.eval(i, p));
        });
        for (std::size_t d = 0; d < D; ++d)
            vtTry("der", [&] {
                vt_emit_i("try.der", id, i, d, 1);
                vt_emit_d("der", id, i, d, s.evalDeriv(i, d, p));
            });
        vtTry("grad", [&] {
            vt_emit_i("try.grad", id, i, 0, 1);
            auto g = s.evalDeriv(i, p);
            for (std::size_t d = 0; d < D; ++d) vt_emit_d("grad", id, i, d, g[d]);
        });
    }
}
template <std::size_t D>
static void vec(long id, const BasisFunctionSet& s, bool div) {
    vt_emit_i("size", id, D, 0, s.size());
    auto p = vt::symPoint<D>();
    for (std::size_t i = 0; i < s.size(); ++i) {
        vtTry("val", [&] {
            vt_emit_i("try.val", id, i, 0, 1);
            vt_emit_class("cls", id, i, 0, s[i]);
            LinearAlgebra::SmallVector<D> v;
            s.eval(i, p, v);
            for (std::size_t d = 0; d < D; ++d) vt_emit_d("val", id, i, d, v[d]);
        });
        vtTry("curl", [&] {
            vt_emit_i("try.curl", id, i, 0, 1);
            auto g = s.evalCurl(i, p);
            for (std::size_t d = 0; d < D; ++d) vt_emit_d("curl", id, i, d, g[d]);
        });
        if (div) vtTry("div", [&] {
            vt_emit_i("try.div", id, i, 0, 1);
            vt_emit_d("div", id, i, 0, s.evalDiv(i, p));
        });
    }
}
template <class F>
static void set(const char* label, long id, F f) {
    vtTry("set", [&] { vt_emit_i("try.set", id, 0, 0, 1); f(); });
}
template <std::size_t D, class F>
static void family(long fam, long lo, long hi, F make) {
    for (long p = lo; p <= hi; ++p)
        set("set", fam * 100 + p, [&] { const BasisFunctionSet* s = make(p); vt_emit_i("setorder", fam * 100 + p, 0, 0, s->getOrder()); scalar<D>(fam * 100 + p, *s); });
}
template <std::size_t D, class F>
static void vfamily(long fam, long lo, long hi, F make) {
    for (long p = lo; p <= hi; ++p)
        set("set", fam * 100 + p, [&] { const BasisFunctionSet* s = make(p); vt_emit_i("setorder", fam * 100 + p, 0, 0, s->getOrder()); vec<D>(fam * 100 + p, *s, true); });
}
template <class F>
static BasisFunctionSet* fill(std::size_t p, F f) { auto* s = new BasisFunctionSet(p); f(*s, p); return s; }

static const long MAXO = 5;
extern "C" void probe_basis_scalar() {
    family<1>(1, 0, MAXO, createDGBasisFunctionSet1DH1Line);
    family<2>(2, 0, MAXO, createDGBasisFunctionSet2DH1Square);
    family<2>(3, 0, MAXO, createDGBasisFunctionSet2DH1Triangle);
    family<3>(4, 0, MAXO, createDGBasisFunctionSet3DH1Cube);
    family<3>(5, 0, MAXO, createDGBasisFunctionSet3DH1ConformingPrism);
    family<3>(6, 0, 1, createDGBasisFunctionSet3DH1ConformingPyramid);
    family<3>(7, 0, MAXO, createDGBasisFunctionSet3DH1Tetrahedron);
    family<1>(11, 0, 5, [](std::size_t p) { return fill(p, assembleMonomialBasisFunctions1D); });
    family<2>(12, 0, 5, [](std::size_t p) { return fill(p, assembleMonomialBasisFunctions2D); });
    family<3>(13, 0, 5, [](std::size_t p) { return fill(p, assembleMonomialBasisFunctions3D); });
    family<4>(14, 0, 3, [](std::size_t p) { return fill(p, assembleMonomialBasisFunctions4D); });
    family<1>(15, 0, 0, [](std::size_t p) { return fill(p, [](BasisFunctionSet& s, std::size_t) { addPiecewiseConstantBasisFunction1D(s); }); });
    family<2>(16, 0, 0, [](std::size_t p) { return fill(p, [](BasisFunctionSet& s, std::size_t) { addPiecewiseConstantBasisFunction2D(s); }); });
    family<3>(17, 0, 0, [](std::size_t p) { return fill(p, [](BasisFunctionSet& s, std::size_t) { addPiecewiseConstantBasisFunction3D(s); }); });
    family<4>(18, 0, 0, [](std::size_t p) { return fill(p, [](BasisFunctionSet& s, std::size_t) { addPiecewiseConstantBasisFunction4D(s); }); });
}
extern "C" void probe_basis_vector() {
    vfamily<2>(20, 1, 5, createDGBasisFunctionSet2DNedelec);
    vfamily<3>(21, 1, 5, createDGBasisFunctionSet3DAinsworthCoyle);
    vfamily<3>(22, 1, 5, createDGBasisFunctionSet3DNedelec);
}

// ---- conforming sets -------------------------------------------------------
template <std::size_t D, class S>
static void emitSet(const char* tag, long id, const S& s, const PointReference<D>& p) {
    for (std::size_t i = 0; i < s.size(); ++i) vt_emit_d(tag, id, i, 0, s.eval(i, p));
}
template <std::size_t D>
static void where(const ReferenceGeometry& ref, const char* tag, long id, const BasisFunctionSet& s) {
    // traces on all facets and values at all vertices
    for (std::size_t f = 0; f < ref.getNumberOfCodim1Entities(); ++f) {
        auto q = ref.getCodim1MappingPtr(f)->transform(vt::symPoint<D - 1>());
        for (std::size_t i = 0; i < s.size(); ++i) vt_emit_d(tag, id, i, f, s.eval(i, q));
    }
    for (std::size_t v = 0; v < ref.getNumberOfNodes(); ++v) {
        const PointReference<D>& q = ref.getReferenceNodeCoordinate(v);
        for (std::size_t i = 0; i < s.size(); ++i) vt_emit_d(tag, id, i, 100 + v, s.eval(i, q));
    }
}
// id layout: fam*100000 + p*10000 + set number
template <std::size_t D, class I, class V, class E, class Fc>
static void conforming(long fam, const ReferenceGeometry& ref, long maxo, I interior, V vertex, E edge, Fc face) {
    for (long p = 1; p <= maxo; ++p)
        vtTry("conf", [&] {
            long base = fam * 100000 + p * 10000;
            vt_emit_i("try.conf", fam, p, 0, 1);
            vt_emit_class("conf", fam, p, D, &ref);
            for (std::size_t f = 0; f < ref.getNumberOfCodim1Entities(); ++f) {
                vt::list("fcorners", fam, f, ref.getCodim1EntityLocalIndices(f));
                vt_emit_i("ftype", fam, f, 0, (long)ref.getCodim1ReferenceGeometry(f)->getGeometryType());
            }
            for (std::size_t e = 0; D == 3 && e < ref.getNumberOfCodim2Entities(); ++e) vt::list("ecorners", fam, e, ref.getCodim2EntityLocalIndices(e));
            auto* in = interior(p);
            vt_emit_i("nint", fam, p, 0, in->size());
            if (in->size()) vt_emit_class("cint", fam, p, 0, (*in)[0]);
            where<D>(ref, "interior", base, *in);
            emitSet<D>("cval", base, *in, vt::symPoint<D>());
            auto vs = vertex(p);
            vt_emit_i("nvert", fam, p, 0, vs.size());
            for (std::size_t v = 0; v < vs.size(); ++v) {
                vt_emit_i("vsize", base, v, 0, vs[v]->size());
                where<D>(ref, "vertex", base + v, *vs[v]);
                emitSet<D>("cval", base + 1000 + v, *vs[v], vt::symPoint<D>());
            }
            auto es = edge(p);
            vt_emit_i("nedge", fam, p, 0, es.size());
            for (std::size_t s = 0; s < es.size(); ++s) {
                vt_emit_i("esize", base, s, 0, es[s]->size());
                where<D>(ref, "edge", base + s, *es[s]);
                emitSet<D>("cval", base + 2000 + s, *es[s], vt::symPoint<D>());
                for (std::size_t e = 0; e < ref.getNumberOfCodim2Entities() && D == 3; ++e)
                    for (std::size_t o = 0; o < 2; ++o)
                        if (es[s]->checkOrientation(o, e)) {
                            vt_emit_i("eori", base, s, 0, e);
                            vt_emit_i("eori", base, s, 1, o);
                            double r = vt_sym(0);
                            if (o) r = -r;
                            auto ends = ref.getCodim2EntityLocalIndices(e);
                            const PointReference<D>& a = ref.getReferenceNodeCoordinate(ends[0]);
                            const PointReference<D>& b = ref.getReferenceNodeCoordinate(ends[1]);
                            PointReference<D> q;
                            for (std::size_t d = 0; d < D; ++d) q[d] = a[d] * ((1. - r) / 2.) + b[d] * ((1. + r) / 2.);
                            emitSet<D>("etrace", base + s, *es[s], q);
                        }
            }
            auto fs = face(p);
            vt_emit_i("nfset", fam, p, 0, fs.size());
            for (std::size_t s = 0; s < fs.size(); ++s) {
                vt_emit_i("fsize", base, s, 0, fs[s]->size());
                where<D>(ref, "face", base + s, *fs[s]);
                emitSet<D>("cval", base + 4000 + s, *fs[s], vt::symPoint<D>());
                for (std::size_t f = 0; f < ref.getNumberOfCodim1Entities(); ++f)
                    for (std::size_t o = 0; o < 8; ++o)
                        if (fs[s]->checkOrientation(o, f)) {
                            vt_emit_i("fori", base, s, 0, f);
                            vt_emit_i("fori", base, s, 1, o);
                        }
            }
        });
}
using OS = std::vector<const OrientedBasisFunctionSet*>;
using BS = std::vector<const BasisFunctionSet*>;
extern "C" void probe_basis_conforming() {
    auto none = [](std::size_t) { return OS(); };
    auto noneB = [](std::size_t) { return BS(); };
    conforming<1>(1, ReferenceLine::Instance(), MAXO, createInteriorBasisFunctionSet1DH1Line, noneB, none, createVertexBasisFunctionSet1DH1Line);
    conforming<2>(2, ReferenceSquare::Instance(), MAXO, createInteriorBasisFunctionSet2DH1Square, createVertexBasisFunctionSet2DH1Square, none, createFaceBasisFunctionSet2DH1Square);
    conforming<2>(3, ReferenceTriangle::Instance(), MAXO, createInteriorBasisFunctionSet2DH1Triangle, createVertexBasisFunctionSet2DH1Triangle, none, createFaceBasisFunctionSet2DH1Triangle);
    conforming<3>(4, ReferenceCube::Instance(), MAXO, createInteriorBasisFunctionSet3DH1Cube, createVertexBasisFunctionSet3DH1Cube, createEdgeBasisFunctionSet3DH1Cube, createFaceBasisFunctionSet3DH1Cube);
    conforming<3>(5, ReferenceTriangularPrism::Instance(), MAXO, createInteriorBasisFunctionSet3DH1ConformingPrism, createVertexBasisFunctionSet3DH1ConformingPrism, createEdgeBasisFunctionSet3DH1ConformingPrism, createFaceBasisFunctionSet3DH1ConformingPrism);
    conforming<3>(6, ReferencePyramid::Instance(), 1, createInteriorBasisFunctionSet3DH1ConformingPyramid, createVertexBasisFunctionSet3DH1ConformingPyramid, none, none);
    conforming<3>(7, ReferenceTetrahedron::Instance(), MAXO, createInteriorBasisFunctionSet3DH1Tetrahedron, createVertexBasisFunctionSet3DH1Tetrahedron, createEdgeBasisFunctionSet3DH1Tetrahedron, createFaceBasisFunctionSet3DH1Tetrahedron);
}

// values and derivatives of all oriented sets; id = fam*1000000 + p*100000 + kind*10000 + set
template <std::size_t D, class I, class V, class E, class Fc>
static void confder(long fam, long maxo, I interior, V vertex, E edge, Fc face) {
    for (long p = 1; p <= maxo; ++p) {
        long base = fam * 1000000 + p * 100000;
        set("set", base, [&] { scalar<D>(base, *interior(p)); });
        set("set", base + 10000, [&] { auto v = vertex(p); for (std::size_t i = 0; i < v.size(); ++i) scalar<D>(base + 10000 + i, *v[i]); });
        set("set", base + 20000, [&] { auto v = edge(p); for (std::size_t i = 0; i < v.size(); ++i) scalar<D>(base + 20000 + i, *v[i]); });
        set("set", base + 30000, [&] { auto v = face(p); for (std::size_t i = 0; i < v.size(); ++i) scalar<D>(base + 30000 + i, *v[i]); });
    }
}
extern "C" void probe_basis_confder() {
    auto none = [](std::size_t) { return OS(); };
    auto noneB = [](std::size_t) { return BS(); };
    confder<1>(1, MAXO, createInteriorBasisFunctionSet1DH1Line, noneB, none, createVertexBasisFunctionSet1DH1Line);
    confder<2>(2, MAXO, createInteriorBasisFunctionSet2DH1Square, createVertexBasisFunctionSet2DH1Square, none, createFaceBasisFunctionSet2DH1Square);
    confder<2>(3, MAXO, createInteriorBasisFunctionSet2DH1Triangle, createVertexBasisFunctionSet2DH1Triangle, none, createFaceBasisFunctionSet2DH1Triangle);
    confder<3>(4, MAXO, createInteriorBasisFunctionSet3DH1Cube, createVertexBasisFunctionSet3DH1Cube, createEdgeBasisFunctionSet3DH1Cube, createFaceBasisFunctionSet3DH1Cube);
    confder<3>(5, MAXO, createInteriorBasisFunctionSet3DH1ConformingPrism, createVertexBasisFunctionSet3DH1ConformingPrism, createEdgeBasisFunctionSet3DH1ConformingPrism, createFaceBasisFunctionSet3DH1ConformingPrism);
    confder<3>(6, 1, createInteriorBasisFunctionSet3DH1ConformingPyramid, createVertexBasisFunctionSet3DH1ConformingPyramid, none, none);
    confder<3>(7, MAXO, createInteriorBasisFunctionSet3DH1Tetrahedron, createVertexBasisFunctionSet3DH1Tetrahedron, createEdgeBasisFunctionSet3DH1Tetrahedron, createFaceBasisFunctionSet3DH1Tetrahedron);
}

#include "FE/helperFunctions.h"
extern "C" void probe_basis_helpers() {
    double x = vt_sym(0);
    for (long d = 0; d <= 12; ++d) {
        vtTry("leg", [&] { vt_emit_i("try.leg", d, 0, 0, 1); vt_emit_d("leg", d, 0, 0, LegendrePolynomial(d, x)); });
        vtTry("dleg", [&] { vt_emit_i("try.dleg", d, 0, 0, 1); vt_emit_d("dleg", d, 0, 0, LegendrePolynomialDerivative(d, x)); });
        vtTry("lob", [&] { vt_emit_i("try.lob", d, 0, 0, 1); vt_emit_d("lob", d, 0, 0, LobattoPolynomial(d, x)); });
        vtTry("dlob", [&] { vt_emit_i("try.dlob", d, 0, 0, 1); vt_emit_d("dlob", d, 0, 0, LobattoPolynomialDerivative(d, x)); });
    }
}

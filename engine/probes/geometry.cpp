// Probe: reference geometries, their sub-entity tables and their mappings.
#include "common.h"
#include "Geometry/ReferenceGeometryFactory.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
using namespace Geometry;
static long G;

template <std::size_t D>
struct Faces {
    static void run(const ReferenceGeometry& ref) {
        std::size_t n = ref.getNumberOfCodim1Entities();
        vt_emit_i("nf", G, 0, 0, n);
        for (std::size_t f = 0; f < n; ++f) {
            vtTry("face", [&] {
                vt_emit_i("try.face", G, f, 0, 1);
                vt::list("fidx", G, f, ref.getCodim1EntityLocalIndices(f));
                const ReferenceGeometry* fg = ref.getCodim1ReferenceGeometry(f);
                vt_emit_class("fgeom", G, f, 0, fg);
                vt_emit_i("ftype", G, f, 0, (long)fg->getGeometryType());
                vt_emit_i("fnn", G, f, 0, fg->getNumberOfNodes());
                for (std::size_t k = 0; k < fg->getNumberOfNodes(); ++k)
                    vt_emit_i("flocal", G, f, k, ref.getLocalNodeIndexFromFaceAndIndexOnFace(f, k));
                const BoundaryFaceMapping* m = ref.getCodim1MappingPtr(f);
                vt_emit_class("fmapcls", G, f, 0, m);
                vt_emit_d("fsign", G, f, 0, m->outwardNormalSign());
                PointReference<D - 1> x = vt::symPoint<D - 1>();
                vt::point("fmap", G, f, m->transform(x), D);
                vt::mat("fjac", G, f, m->calcJacobian(x));
                if (D > 1) vt::point("fwedge", G, f, m->calcJacobian(x).computeWedgeStuffVector(), D);
                for (std::size_t k = 0; k < fg->getNumberOfNodes(); ++k) {
                    const PointReference<D - 1>& p = fg->getReferenceNodeCoordinate(k);
                    vt::point("fnode", G * 100 + f, k, m->transform(p), D);
                }
            });
        }
    }
};
template <>
struct Faces<0> {
    static void run(const ReferenceGeometry&) {}
};
template <std::size_t D>
struct Edges {
    static void run(const ReferenceGeometry& ref) {
        std::size_t n = ref.getNumberOfCodim2Entities();
        vt_emit_i("ne", G, 0, 0, n);
        for (std::size_t f = 0; f < n; ++f) {
            vtTry("edge", [&] {
                vt_emit_i("try.edge", G, f, 0, 1);
                vt::list("eidx", G, f, ref.getCodim2EntityLocalIndices(f));
                const ReferenceGeometry* fg = ref.getCodim2ReferenceGeometry(f);
                vt_emit_i("etype", G, f, 0, (long)fg->getGeometryType());
                vt_emit_i("enn", G, f, 0, fg->getNumberOfNodes());
            });
            vtTry("edgemap", [&] {
                vt_emit_i("try.edgemap", G, f, 0, 1);
                const MappingReferenceToReference<2>* m = ref.getCodim2MappingPtr(f);
                if (m == nullptr) return;
                PointReference<D - 2> x = vt::symPoint<D - 2>();
                vt_emit_class("emapcls", G, f, 0, m);
                vt::point("emap", G, f, m->transform(x), D);
                vt::mat("ejac", G, f, m->calcJacobian(x));
            });
        }
    }
};
template <>
struct Edges<0> {
    static void run(const ReferenceGeometry&) {}
};
template <>
struct Edges<1> {
    static void run(const ReferenceGeometry&) {}
};
template <std::size_t D>
static void shape(long g, const ReferenceGeometry& ref) {
    G = g;
    vt_emit_class("shape", g, D, 0, &ref);
    vt_emit_s("name", g, 0, 0, "");
    vt_emit_i("type", g, 0, 0, (long)ref.getGeometryType());
    vt_emit_i("dim", g, 0, 0, ref.getDimension());
    vt_emit_d("measure", g, 0, 0, ref.measure());
    const PointReference<D>& c = ref.getCenter();
    vt::point("center", g, 0, c, D);
    vt_emit_i("nn", g, 0, 0, ref.getNumberOfNodes());
    for (std::size_t i = 0; i < ref.getNumberOfNodes(); ++i) {
        const PointReference<D>& p = ref.getReferenceNodeCoordinate(i);
        vt::point("node", g, i, p, D);
        vt_emit_i("topo", g, i, 0, ref.getTopologicalLocalIndex(i));
    }
    vtTry("inside", [&] {
        PointReference<D> x = vt::symPoint<D>();
        vt_emit_d("inside", g, 0, 0, ref.isInternalPoint(x) ? 1.0 : 0.0);
    });
    Faces<D>::run(ref);
    Edges<D>::run(ref);
    vtTry("codim3", [&] {
        std::size_t n = ref.getNumberOfCodim3Entities();
        vt_emit_i("nc3", g, 0, 0, n);
        for (std::size_t f = 0; f < n; ++f) vt::list("c3idx", g, f, ref.getCodim3EntityLocalIndices(f));
    });
}
// node orderings that are symmetries of the shape, enumerated independently
// from the coordinates of its nodes
template <std::size_t D>
static double dist2(const ReferenceGeometry& ref, std::size_t a, std::size_t b) {
    const PointReference<D>& p = ref.getReferenceNodeCoordinate(a);
    const PointReference<D>& q = ref.getReferenceNodeCoordinate(b);
    double s = 0;
    for (std::size_t d = 0; d < D; ++d) s += (p[d] - q[d]) * (p[d] - q[d]);
    return s;
}
template <std::size_t D>
static void permutations(long g, const ReferenceGeometry& ref, bool metric, std::size_t* perm, std::size_t k, std::size_t n,
                         long& count) {
    if (k == n) {
        std::vector<std::size_t> l1(n), l2(n);
        // physical ids are arbitrary and not consecutive
        for (std::size_t i = 0; i < n; ++i) {
            l1[i] = 7 + 3 * i * i;
            l2[perm[i]] = 7 + 3 * i * i;
        }
        long id = count++;
        vtTry("c0", [&] {
            vt_emit_i("try.c0", g, id, 0, 1);
            for (std::size_t i = 0; i < n; ++i) vt_emit_i("perm", g, id, i, perm[i]);
            std::size_t idx = ref.getCodim0MappingIndex(l1, l2);
            vt_emit_i("c0idx", g, id, 0, idx);
            const MappingReferenceToReference<0>* m = ref.getCodim0MappingPtr(idx);
            vt_emit_class("c0cls", g, id, 0, m);
            PointReference<D> x = vt::symPoint<D>();
            vt::point("c0map", g, id, m->transform(x), D);
            vt::mat("c0jac", g, id, m->calcJacobian(x));
            for (std::size_t i = 0; i < n; ++i) {
                const PointReference<D>& p = ref.getReferenceNodeCoordinate(i);
                vt::point("c0node", g * 100 + id, i, m->transform(p), D);
            }
        });
        return;
    }
    for (std::size_t v = 0; v < n; ++v) {
        bool used = false;
        for (std::size_t j = 0; j < k; ++j) used = used || perm[j] == v;
        if (used) continue;
        bool ok = true;
        if (metric)
            for (std::size_t j = 0; j < k; ++j)
                ok = ok && dist2<D>(ref, perm[j], v) == dist2<D>(ref, j, k);
        if (!ok) continue;
        perm[k] = v;
        permutations<D>(g, ref, metric, perm, k + 1, n, count);
    }
}
template <std::size_t D>
static void codim0(long g, const ReferenceGeometry& ref, bool metric) {
    std::size_t perm[16];
    long count = 0;
    permutations<D>(g, ref, metric, perm, 0, ref.getNumberOfNodes(), count);
    vt_emit_i("nperm", g, 0, 0, count);
}
extern "C" void probe_geometry() {
    shape<0>(0, ReferencePoint::Instance());
    shape<1>(1, ReferenceLine::Instance());
    shape<2>(2, ReferenceSquare::Instance());
    shape<2>(3, ReferenceTriangle::Instance());
    shape<3>(4, ReferenceCube::Instance());
    shape<3>(5, ReferenceTetrahedron::Instance());
    shape<3>(6, ReferencePyramid::Instance());
    shape<3>(7, ReferenceTriangularPrism::Instance());
    shape<4>(8, ReferenceHypercube::Instance());
    codim0<1>(1, ReferenceLine::Instance(), true);
    codim0<2>(2, ReferenceSquare::Instance(), true);
    codim0<2>(3, ReferenceTriangle::Instance(), false);
    codim0<3>(4, ReferenceCube::Instance(), true);
}

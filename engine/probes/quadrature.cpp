// Probe: every quadrature rule selectable through AllGaussQuadratureRules.
#include "vt.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/PointReference.h"
using namespace hpgem;
using QuadratureRules::GaussQuadratureRule;

template <std::size_t D>
static void points(long g, long o, GaussQuadratureRule* r) {
    std::size_t n = r->getNumberOfPoints();
    for (std::size_t i = 0; i < n; ++i) {
        vt_emit_d("w", g, o, i, r->weight(i));
        const Geometry::PointReference<D>& p = r->getPoint(i);
        for (std::size_t d = 0; d < D; ++d)
            vt_emit_d("p", g * 1000 + o, i, d, p[d]);
    }
}
template <std::size_t D>
static void shape(long g, const Geometry::ReferenceGeometry& ref, long maxo) {
    vt_emit_class("shape", g, D, 0, &ref);
    for (std::size_t i = 0; i < ref.getNumberOfNodes(); ++i) {
        const Geometry::PointReference<D>& p = ref.getReferenceNodeCoordinate(i);
        for (std::size_t d = 0; d < D; ++d) vt_emit_d("node", g, i, d, p[d]);
    }
    for (long o = 0; o <= maxo; ++o) {
        vtTry("rule", [&] {
            vt_emit_i("ask", g, o, 0, 1);
            GaussQuadratureRule* r = QuadratureRules::AllGaussQuadratureRules::instance().getRule(&ref, o);
            vt_emit_class("sel", g, o, 0, r);
            vt_emit_i("order", g, o, 0, r->order());
            vt_emit_i("dim", g, o, 0, r->dimension());
            vt_emit_i("np", g, o, 0, r->getNumberOfPoints());
            vt_emit_i("geom", g, o, 0, r->forReferenceGeometry() == &ref);
            points<D>(g, o, r);
        });
    }
}
// every rule class, whether or not selection reaches it (checks/P01.py generates the list)
void direct(long k, GaussQuadratureRule* r) {
    using namespace Geometry;
    const ReferenceGeometry* refs[] = {&ReferencePoint::Instance(), &ReferenceLine::Instance(), &ReferenceSquare::Instance(), &ReferenceTriangle::Instance(),
        &ReferenceCube::Instance(), &ReferenceTetrahedron::Instance(), &ReferencePyramid::Instance(), &ReferenceTriangularPrism::Instance(), &ReferenceHypercube::Instance()};
    for (long g = 0; g < 9; ++g) {
        if (r->forReferenceGeometry() != refs[g]) continue;
        vt_emit_i("ask", g, k, 0, 1);
        vt_emit_class("sel", g, k, 0, r);
        vt_emit_i("order", g, k, 0, r->order());
        vt_emit_i("dim", g, k, 0, r->dimension());
        vt_emit_i("np", g, k, 0, r->getNumberOfPoints());
        vt_emit_i("geom", g, k, 0, 1);
        switch (r->dimension()) {
            case 0: points<0>(g, k, r); break;
            case 1: points<1>(g, k, r); break;
            case 2: points<2>(g, k, r); break;
            case 3: points<3>(g, k, r); break;
            case 4: points<4>(g, k, r); break;
        }
    }
}
#ifdef VT_DIRECT
extern void directs();
#else
static void directs() {}
#endif
extern "C" void probe_quadrature() {
    using namespace Geometry;
    long m = 12;
    shape<0>(0, ReferencePoint::Instance(), m);
    shape<1>(1, ReferenceLine::Instance(), m);
    shape<2>(2, ReferenceSquare::Instance(), m);
    shape<2>(3, ReferenceTriangle::Instance(), m);
    shape<3>(4, ReferenceCube::Instance(), m);
    shape<3>(5, ReferenceTetrahedron::Instance(), m);
    shape<3>(6, ReferencePyramid::Instance(), m);
    shape<3>(7, ReferenceTriangularPrism::Instance(), m);
    shape<4>(8, ReferenceHypercube::Instance(), m);
    directs();
}

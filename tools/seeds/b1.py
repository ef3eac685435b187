seed("cube-face-deriv", "P02", [("kernel/FE/BasisFunctions3DH1ConformingCube.cpp",
"           mirroring0_ * (1 + facePosition_ * p[1]) * (1 - p[0]) * (1 + p[0]) *",
"           (1 + facePosition_ * p[1]) * (1 - p[0]) * (1 + p[0]) *")],
r'''#include "Geometry/PointReference.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/OrientedBasisFunctionSet.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
int main() {
    auto sets = FE::createFaceBasisFunctionSet3DH1Cube(4);
    double worst = 0;
    for (auto* s : sets)
        for (std::size_t i = 0; i < s->size(); ++i)
            for (std::size_t d = 0; d < 3; ++d) {
                Geometry::PointReference<3> p{0.31, -0.47, 0.13}, a = p, b = p;
                a[d] -= 1e-6; b[d] += 1e-6;
                worst = std::max(worst, std::abs(s->evalDeriv(i, d, p) - (s->eval(i, b) - s->eval(i, a)) / 2e-6));
            }
    std::printf("largest difference %g\n", worst);
    return worst > 1e-6;
}
''', "a mirrored orientation of a face normal to the second axis and order >= 3", "the derivative of face functions on mirrored faces has the wrong sign in one term")

seed("triangle-rule-order", "P01", [("kernel/Integration/QuadratureRules/GaussQuadratureRulesForTriangle.cpp",
"std::size_t T2_6_12::order() const { return 6; }", "std::size_t T2_6_12::order() const { return 7; }")],
r'''#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/PointReference.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
int main() {
    double worst = 0;
    for (int o = 1; o <= 11; ++o) {
        auto* r = QuadratureRules::AllGaussQuadratureRules::instance().getRule(&Geometry::ReferenceTriangle::Instance(), o);
        for (int a = 0; a <= o; ++a)
            for (int b = 0; a + b <= o; ++b) {
                double s = 0;
                for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
                    const Geometry::PointReference<2>& p = r->getPoint(i);
                    s += r->weight(i) * std::pow(p[0], a) * std::pow(p[1], b);
                }
                worst = std::max(worst, std::abs(s - fact(a) * fact(b) / fact(a + b + 2)));
            }
    }
    std::printf("largest error %g\n", worst);
    return worst > 1e-8;
}
''', "asking for a rule of order 7 on triangles", "requests for order 7 now receive the rule that is only exact up to degree 6")

seed("triangle-edge-orientation", "P04", [("kernel/FE/BasisFunctions2DH1ConformingTriangle.cpp",
"""            set->addBasisFunction(new BasisFunction2DFaceTriangle(
                vertexindices[1], vertexindices[0], j));""",
"""            set->addBasisFunction(new BasisFunction2DFaceTriangle(
                vertexindices[j % 4 == 3 ? 0 : 1],
                vertexindices[j % 4 == 3 ? 1 : 0], j));""")],
r'''#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/OrientedBasisFunctionSet.h"
#include "Geometry/ReferenceTriangle.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
int main() {
    auto sets = FE::createFaceBasisFunctionSet2DH1Triangle(5);
    double worst = 0;
    auto& t = Geometry::ReferenceTriangle::Instance();
    for (std::size_t f = 0; f < 3; ++f) {
        const FE::OrientedBasisFunctionSet *a = nullptr, *b = nullptr;
        for (auto* s : sets) { if (s->checkOrientation(0, f)) a = s; if (s->checkOrientation(1, f)) b = s; }
        for (double x : {-0.7, 0.2, 0.55}) {
            Geometry::PointReference<1> p{x}, q{-x};
            auto P = t.getCodim1MappingPtr(f)->transform(p), Q = t.getCodim1MappingPtr(f)->transform(q);
            for (std::size_t i = 0; i < a->size(); ++i) worst = std::max(worst, std::abs(a->eval(i, P) - b->eval(i, Q)));
        }
    }
    std::printf("largest jump %g\n", worst);
    return worst > 1e-9;
}
''', "order 5 and a face whose nodes are ordered oppositely on the two sides", "the fifth-order face functions jump across mirrored faces")

seed("nedelec-curl-degree", "P03", [("kernel/FE/BasisFunctions3DNedelec.cpp",
"    dummy2 *= double(1 + deg3) * std::pow(valI, deg1) * std::pow(valJ, deg2) *",
"    dummy2 *= double(1 + (deg3 > 2 ? 2 : deg3)) * std::pow(valI, deg1) * std::pow(valJ, deg2) *")],
r'''#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionSet.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
int main() {
    double worst = 0;
    for (std::size_t o = 1; o <= 5; ++o) {
        auto* s = FE::createDGBasisFunctionSet3DNedelec(o);
        for (std::size_t i = 0; i < s->size(); ++i) {
            Geometry::PointReference<3> p{0.21, 0.34, 0.17};
            double J[3][3];
            for (int d = 0; d < 3; ++d) {
                auto a = p, b = p;
                a[d] -= 1e-5; b[d] += 1e-5;
                LinearAlgebra::SmallVector<3> u, v;
                s->eval(i, a, u); s->eval(i, b, v);
                for (int c = 0; c < 3; ++c) J[c][d] = (v[c] - u[c]) / 2e-5;
            }
            auto c = s->evalCurl(i, p);
            double e[3] = {J[2][1] - J[1][2], J[0][2] - J[2][0], J[1][0] - J[0][1]};
            for (int d = 0; d < 3; ++d) worst = std::max(worst, std::abs(c[d] - e[d]));
        }
    }
    std::printf("largest difference %g\n", worst);
    return worst > 1e-6;
}
''', "face functions of order 5 with the full degree on the third vertex", "curl of a fifth-order face function is wrong")

seed("bogacki-error-weight", "P11", [("kernel/Base/TimeIntegration/DormandPrince.cpp", "WILLBESET", "X")] if 0 else [("kernel/Base/TimeIntegration/BogackiShampine.cpp",
"        4. / 9. - 1. / 3.,\n        0. - 1. / 8.,", "        4. / 9. - 11. / 24.,\n        0. - 0.,")],
r'''#include "Base/TimeIntegration/BogackiShampine.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
int main() {
    auto& t = TimeIntegration::BogackiShampine::Instance();
    double s = 0, s1 = 0;
    for (std::size_t i = 0; i < t.getNumberOfStages(); ++i) {
        double bh = t.getB(i) - t.getErrorCoefficient(i);
        s += bh; s1 += bh * t.getC(i);
    }
    std::printf("embedded method: sum b %g, sum b c %g\n", s, s1);
    return std::abs(s - 1) > 1e-12 || std::abs(s1 - 0.5) > 1e-12;
}
''', "adaptive time stepping with the error estimate", "the embedded method is consistent but only first order, so the step-size control uses a wrong error")

seed("pyramid-edge-list", "P06", [("kernel/Geometry/ReferencePyramid.cpp",
"{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 4}, {4, 3}, {3, 1},", "{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 3}, {4, 3}, {3, 1},")],
r'''#include "Geometry/ReferencePyramid.h"
#include <cstdio>
using namespace hpgem;
int main() {
    auto& p = Geometry::ReferencePyramid::Instance();
    int bad = 0;
    for (std::size_t e = 0; e < p.getNumberOfCodim2Entities(); ++e) {
        auto v = p.getCodim2EntityLocalIndices(e);
        const Geometry::PointReference<3>&a = p.getReferenceNodeCoordinate(v[0]), &b = p.getReferenceNodeCoordinate(v[1]);
        // a base diagonal passes through the centre of the base
        if (a[2] == 0 && b[2] == 0 && a[0] + b[0] == 0 && a[1] + b[1] == 0) ++bad;
    }
    std::printf("%d edges run through the interior of the base\n", bad);
    return bad != 0;
}
''', "anything that looks at the edges of a pyramid", "one listed edge is a diagonal of the base")

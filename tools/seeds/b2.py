ELEM = r'''
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Node.h"
#include "Base/Zone.h"
#include "Base/PhysicalElement.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BaseBasisFunction.h"
#include "Geometry/PointReference.h"
#include "Geometry/PointPhysical.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
'''
seed("bogacki-error-weight", "P11", [("kernel/Base/TimeIntegration/BogackiShampine.cpp",
"        4. / 9. - 1. / 3.,\n        0. - 1. / 8.,", "        4. / 9. - 11. / 24.,\n        0. - 0.,")],
r'''#include "Base/TimeIntegration/BogackiShampine.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
int main() {
    auto& t = TimeIntegration::BogackiShampine::instance();
    double s = 0, s1 = 0;
    for (std::size_t i = 0; i < t.getNumberOfStages(); ++i) {
        double bh = t.getB(i) - t.getErrorCoefficient(i);
        s += bh; s1 += bh * t.getC(i);
    }
    std::printf("embedded method: sum b %g, sum b c %g\n", s, s1);
    return std::abs(s - 1) > 1e-12 || std::abs(s1 - 0.5) > 1e-12;
}
''', "adaptive time stepping with the error estimate", "the embedded method is consistent but only first order, so the step-size control uses a wrong error")

seed("hdiv-divergence-mirrored", "P14", [("kernel/Base/HDivConformingTransformation.h",
"        return referenceData / data.getJacobianDet();", "        return referenceData / std::abs(data.getJacobianDet());")],
r'''#include "Base/HDivConformingTransformation.h"
#include <cmath>
#include <cstdio>
using namespace hpgem;
struct D : Base::CoordinateTransformationData<2> {
    Geometry::Jacobian<2, 2> j, t;
    const Geometry::Jacobian<2, 2>& getJacobian() const final { return j; }
    const Geometry::Jacobian<2, 2>& getTransposeJacobian() const final { return t; }
    double getJacobianDet() const final { return j.determinant(); }
};
int main() {
    // v = (x, 0) on the reference element has divergence 1; F mirrors the x axis and doubles y.
    D d;
    d.j(0, 0) = -1; d.j(1, 1) = 2; d.j(0, 1) = d.j(1, 0) = 0; d.t = d.j;
    Base::HDivConformingTransformation<2> T;
    // physical field J v / det J = (-x, 0) / -2 = (x / 2, 0) with x = -X: (-X / 2, 0), divergence -1/2
    double got = T.transformDiv(1., d);
    std::printf("divergence %g\n", got);
    return std::abs(got + 0.5) > 1e-12;
}
''', "an element whose map has a negative determinant", "the sign of divergences is wrong on mirrored elements, while the values are right")

seed("transformation-stale-curl", "P15", [("kernel/Base/PhysicalElement_Impl.h",
"    hasFunctionCurl.assign(hasFunctionCurl.size(), false);\n", "")],
ELEM + r'''
#include "Base/HCurlConformingTransformation.h"
struct F : FE::BaseBasisFunction {
    void eval(const Geometry::PointReference<3>& p, LinearAlgebra::SmallVector<3>& r) const final { r = LinearAlgebra::SmallVector<3>({p[1], 0., 0.}); }
    LinearAlgebra::SmallVector<3> evalCurl(const Geometry::PointReference<3>&) const final { return LinearAlgebra::SmallVector<3>({0., 0., -1.}); }
};
struct Id : Base::CoordinateTransformation<3> {
    double transform(double r, const Base::CoordinateTransformationData<3>&) const final { return r; }
    LinearAlgebra::SmallVector<3> transform(LinearAlgebra::SmallVector<3> r, const Base::CoordinateTransformationData<3>&) const final { return r; }
    LinearAlgebra::SmallVector<3> transformDeriv(LinearAlgebra::SmallVector<3> r, const Base::CoordinateTransformationData<3>&) const final { return r; }
    double transformDiv(double r, const Base::CoordinateTransformationData<3>&) const final { return r; }
    LinearAlgebra::SmallVector<3> transformCurl(LinearAlgebra::SmallVector<3> r, const Base::CoordinateTransformationData<3>&) const final { return r; }
};
int main() {
    auto* s = new FE::BasisFunctionSet(1);
    s->addBasisFunction(new F());
    Base::Element::CollectionOfBasisFunctionSets sets{std::shared_ptr<const FE::BasisFunctionSet>(s)};
    std::vector<Geometry::PointPhysical<3>> pos{{0., 0., 0.}, {2., 0., 0.}, {0., 3., 0.}, {0., 0., 1.}};
    Base::Zone z("z", 0);
    Base::Element e({0, 1, 2, 3}, &sets, pos, 1, 1, 0, z);
    e.setDefaultBasisFunctionSet(0);
    Base::PhysicalElement<3> p;
    p.setElement(&e);
    p.setTransformation(std::make_shared<Id>());
    p.setPointReference(Geometry::PointReference<3>{0.2, 0.3, 0.1});
    auto before = p.basisFunctionCurl(0);
    p.setTransformation(std::make_shared<Base::HCurlConformingTransformation<3>>());
    auto c = p.basisFunctionCurl(0);
    std::printf("curl %g, then %g\n", before[2], c[2]);
    return std::abs(c[2] + 1. / 6.) > 1e-12;   // J c / det J = -1 / 6
}
''', "a transformation that is replaced after a curl was requested at the same point", "the curl still belongs to the previous transformation")

seed("joined-face-orientation", "P18", [("kernel/Base/Face.cpp",
"""        leftNodes.push_back(elementLeft_->getNode(localLeftNodes[i])->getID());
        rightNodes.push_back(ptrElementR->getNode(localRightNodes[i])->getID());
    }
    initialiseFaceToFaceMapIndex(leftNodes, rightNodes);""",
"""        leftNodes.push_back(elementLeft_->getNode(localLeftNodes[i])->getID());
        rightNodes.push_back(ptrElementR->getNode(localRightNodes[i])->getID());
    }
    initialiseFaceToFaceMapIndex(rightNodes, leftNodes);""")],
ELEM + r"""
struct F : FE::BaseBasisFunction { double eval(const Geometry::PointReference<3>& p) const final { return p[0]; } };
int main() {
    Base::Element::CollectionOfBasisFunctionSets sets;
    auto* s = new FE::BasisFunctionSet(1);
    s->addBasisFunction(new F());
    sets.emplace_back(s);
    std::vector<Geometry::PointPhysical<3>> pos{{0., 0., 0.}, {1., 0., 0.}, {0., 1., 0.}, {0., 0., 1.}, {1., 1., 1.}};
    Base::Zone z("z", 0);
    double worst = 0;
    std::size_t perms[6][3] = {{1, 2, 3}, {1, 3, 2}, {2, 1, 3}, {2, 3, 1}, {3, 1, 2}, {3, 2, 1}};
    std::vector<Base::Node*> n;
    for (auto& q : perms) {
        n.clear();
        for (std::size_t i = 0; i < 5; ++i) n.push_back(new Base::Node(i));
        std::vector<std::size_t> a{0, 1, 2, 3}, b{4, q[0], q[1], q[2]};
        auto* A = new Base::Element(a, &sets, pos, 1, 1, 0, z);
        auto* B = new Base::Element(b, &sets, pos, 1, 1, 1, z);
        A->setDefaultBasisFunctionSet(0); B->setDefaultBasisFunctionSet(0);
        for (std::size_t i = 0; i < 4; ++i) { n[a[i]]->addElement(A, i); n[b[i]]->addElement(B, i); }
        // the face opposite to node 0
        std::size_t f = 0;
        for (std::size_t k = 0; k < 4; ++k) {
            auto v = A->getReferenceGeometry()->getCodim1EntityLocalIndices(k);
            if (v[0] != 0 && v[1] != 0 && v[2] != 0) f = k;
        }
        auto* face = new Base::Face(A, f, Geometry::FaceType::PARTIAL_FACE, 1);
        face->addElement(B, f);
        Geometry::PointReference<2> p{0.2, 0.5};
        auto x = A->referenceToPhysical(face->mapRefFaceToRefElemL(p)), y = B->referenceToPhysical(face->mapRefFaceToRefElemR(p));
        for (int d = 0; d < 3; ++d) worst = std::max(worst, std::abs(x[d] - y[d]));
    }
    std::printf("points from both sides differ by %g\n", worst);
    return worst > 1e-12;
}
""", "a triangular face that gets its right element later (refinement) whose corners are rotated relative to the left ones", "points of the face seen from both elements differ")

seed("entity-offset-gap", "P19", [("kernel/Base/ElementData.h",
"""        for (std::size_t i = 0; i < iVar; ++i) {""", """        for (std::size_t i = 0; i + 2 < iVar; ++i) {""")] if 0 else [("kernel/Base/ElementBasisFunctions.cpp",
"""    if (setPositions_[unknown].size() <= place) {
        return 0;
    }
    std::size_t offset = 0;
    for (std::size_t i = 0; i < place; ++i) {
        int position = setPositions_[unknown][i];
        if (position != -1) {
            offset += (*sets_)[position]->size();
        }
    }""",
"""    if (setPositions_[unknown].size() <= place) {
        return 0;
    }
    std::size_t offset = 0;
    for (std::size_t i = 0; i < place; ++i) {
        int position = setPositions_[unknown][i];
        if (position == -1) {
            break;
        }
        offset += (*sets_)[position]->size();
    }""")],
ELEM + r'''
struct F : FE::BaseBasisFunction { double eval(const Geometry::PointReference<2>& p) const final { return p[0]; } };
int main() {
    Base::Element::CollectionOfBasisFunctionSets sets;
    for (std::size_t n : {2, 3}) {
        auto* s = new FE::BasisFunctionSet(1);
        for (std::size_t i = 0; i < n; ++i) s->addBasisFunction(new F());
        sets.emplace_back(s);
    }
    std::vector<Geometry::PointPhysical<2>> pos{{0., 0.}, {1., 0.}, {0., 1.}};
    Base::Zone z("z", 0);
    Base::Element e({0, 1, 2}, &sets, pos, 1, 1, 0, z);
    e.setDefaultBasisFunctionSet(0);
    // functions on face 1 and on corner 0 only: faces 0 and 2 have none
    e.setFaceBasisFunctionSet(1, 1);
    e.setVertexBasisFunctionSet(0, 0);
    std::printf("functions %zu, those of the corner start at %zu\n", e.getNumberOfBasisFunctions(0), e.getNodeBasisFunctionOffset(0, 0));
    return e.getNodeBasisFunctionOffset(0, 0) != 5;
}
''', "an element where some entity before the last one has no basis functions", "the local number of a corner function overlaps that of earlier functions")


// Probe: ElementIntegral and FaceIntegral are the weighted sums over the quadrature points, for all element shapes and return
// types, along sequences of integrals with one integrator object; default rules follow the orders of the basis functions.
// symbols: node coordinates 10.., integrand coefficients 20000..
#include "elem.h"
#include "Base/Node.h"
#include "Base/FaceMatrix.h"
#include "Base/H1ConformingTransformation.h"
#include "Integration/ElementIntegral.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Integration/FaceIntegral.h"
#include "Integration/ElementIntegrandBase.h"
#include "Integration/FaceIntegrandBase.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace op;
typedef QuadratureRules::GaussQuadratureRule Rule;
typedef LinearAlgebra::MiddleSizeVector MV;
typedef LinearAlgebra::MiddleSizeMatrix MM;
typedef MV::type T;
template <std::size_t D>
using PP = Geometry::PointPhysical<D>;
template <std::size_t D>
static double g(long id, const PP<D>& p) {
    double v = vt_sym(20000 + id * 5);
    for (std::size_t k = 0; k < D; ++k) v += p[k] * vt_sym(20001 + id * 5 + k);
    return v;
}
template <std::size_t D>
static PR<D> pt(const Geometry::PointReference<D>& p) {
    return p;
}
// a weighted sum of values with n entries
template <class W, class V>
static std::vector<double> total(Rule* r, std::size_t n, W weight, V value) {
    std::vector<double> s(n);
    for (std::size_t q = 0; q < r->getNumberOfPoints(); ++q) {
        const double w = r->weight(q) * weight(q);
        std::vector<double> v = value(q);
        for (std::size_t k = 0; k < n; ++k) s[k] += w * v[k];
    }
    return s;
}
// ways to return n values
template <class P>
struct Want {
    std::function<std::vector<double>(P&)> f;
};
static double re(double x) { return x; }
static double re(const std::complex<double>& x) { return x.real(); }
template <std::size_t D, class Obj, class I, class Fn>
static void returns(long key, I& integ, const Obj* o, Rule* given, Fn values, const std::vector<double>& want, int mask) {
    // values(p) -> 6 numbers
    auto ref = [&](auto&& x) -> decltype(auto) { return x; };
    (void)ref;
    if (mask & 1) TRYC("double", key, {
            auto r = integ.integrate(o, [&](auto& p) { return values(p)[0]; }, given);
            eq("double", key, 0, 0, r, want[0]);
        });
    if (mask & 2) TRYC("vector", key, {
            auto r = integ.integrate(o, [&](auto& p) { auto v = values(p); MV m(5); for (int k = 0; k < 5; ++k) m[k] = v[k]; return m; }, given);
            eqi("vector.size", key, 0, 0, r.size(), 5);
            for (int k = 0; k < 5; ++k) eq("vector", key, 0, k, re(r[k]), want[k]);
        });
    if (mask & 4) TRYC("matrix", key, {
            auto r = integ.integrate(o, [&](auto& p) { auto v = values(p); MM m(2, 3); for (int k = 0; k < 6; ++k) m(k / 3, k % 3) = v[k]; return m; }, given);
            eqi("matrix.size", key, 0, 0, r.getNumberOfRows() * 10 + r.getNumberOfColumns(), 23);
            for (int k = 0; k < 6; ++k) eq("matrix", key, 0, k, re(r(k / 3, k % 3)), want[k]);
        });
    if (mask & 8) TRYC("smallvector", key, {
            auto r = integ.integrate(o, [&](auto& p) { auto v = values(p); LinearAlgebra::SmallVector<3> m; for (int k = 0; k < 3; ++k) m[k] = v[k]; return m; }, given);
            for (int k = 0; k < 3; ++k) eq("smallvector", key, 0, k, r[k], want[k]);
        });
    if (mask & 16) TRYC("smallmatrix", key, {
            auto r = integ.integrate(o, [&](auto& p) { auto v = values(p); LinearAlgebra::SmallMatrix<2, 3> m; for (int k = 0; k < 6; ++k) m(k / 3, k % 3) = v[k]; return m; }, given);
            for (int k = 0; k < 6; ++k) eq("smallmatrix", key, 0, k, r(k / 3, k % 3), want[k]);
        });
    if (mask & 32) TRYC("complex", key, {
            auto r = integ.integrate(o, [&](auto& p) { auto v = values(p); return std::complex<double>(v[0], v[1]); }, given);
            eq("complex", key, 0, 0, r.real(), want[0]);
            eq("complex", key, 0, 1, r.imag(), want[1]);
        });
}
// all coordinates free for simplices, a one-parameter family of distorted elements for the others
template <std::size_t D>
static std::vector<Geometry::PointPhysical<D>>& positions(std::size_t n, int base) {
    if (n == D + 1) return nodesSym<D>(n, base);
    static unsigned seed = 12345;
    auto* v = new std::vector<Geometry::PointPhysical<D>>(n);
    auto rnd = [&]() {
        seed = seed * 1103515245u + 12345u;
        return ((seed >> 16) % 41) / 8. - 2.5;
    };
    if constexpr (D == 3)
        if (n <= 8) {  // numeric nodes, alternately mirrored: the sign of the determinant at every quadrature point is known
            static bool mirror = false;
            mirror = !mirror;
            const Geometry::ReferenceGeometry& r = n == 8   ? static_cast<const Geometry::ReferenceGeometry&>(Geometry::ReferenceCube::Instance())
                                                   : n == 6 ? static_cast<const Geometry::ReferenceGeometry&>(Geometry::ReferenceTriangularPrism::Instance())
                                                            : static_cast<const Geometry::ReferenceGeometry&>(Geometry::ReferencePyramid::Instance());
            for (std::size_t i = 0; i < n; ++i) {
                const Geometry::PointReference<3>& c = r.getReferenceNodeCoordinate(i);
                for (std::size_t d = 0; d < D; ++d) (*v)[i][d] = c[d] + 0.06 * rnd();
                if (mirror) (*v)[i][1] *= -1.5;
            }
            return *v;
        }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) {
            const double a = rnd();
            (*v)[i][d] = a + rnd() * vt_sym(base);
        }
    return *v;
}
template <std::size_t D>
static Base::Element* mkEl(std::size_t n, int base, std::size_t set, long id) {
    auto& nodes = positions<D>(n, base);
    Base::Element* e = new Base::Element(iota(n), &sets(), nodes, 1, 1, id, zone());
    e->setDefaultBasisFunctionSet(set);
    return e;
}
template <std::size_t D>
struct EIB : Integration::ElementIntegrandBase<MV, D> {
    void elementIntegrand(Base::PhysicalElement<D>& p, MV& r) final {
        r.resize(2);
        for (int k = 0; k < 2; ++k) r[k] = g(k, p.getPointPhysical());
    }
};
template <std::size_t D>
struct FIB : Integration::FaceIntegrandBase<MV, D> {
    void faceIntegrand(Base::PhysicalFace<D>& p, MV& r) final {
        r.resize(2);
        for (int k = 0; k < 2; ++k) r[k] = g(k, p.getPointPhysical());
    }
};
template <std::size_t D>
static void elements(long shape, std::size_t nA, std::size_t nB) {
    Base::Element *A = mkEl<D>(nA, 10, 0, 1), *B = mkEl<D>(nB, 10 + nA * D, 3, 2);
    Rule* low = A->getReferenceGeometry()->getGaussQuadratureRule(1);
    Rule* high = A->getReferenceGeometry()->getGaussQuadratureRule(nA > 6 ? 2 : 4);
    auto values = [](Base::PhysicalElement<D>& p) {
        std::vector<double> v;
        for (int k = 0; k < 4; ++k) v.push_back(g(k, p.getPointPhysical()));
        v.push_back(p.basisFunction(0));
        v.push_back(p.basisFunctionDeriv(1)[D - 1]);
        return v;
    };
    auto want = [&](Base::Element* e, Rule* r, bool scale) {
        const long f0 = e == A ? 0 : 6;
        return total(
            r, 6, [&](std::size_t q) { const PR<D>& x = r->getPoint(q); return scale ? std::abs(e->calcJacobian(x).determinant()) : 1.; },
            [&](std::size_t q) {
                const PR<D>& x = r->getPoint(q);
                std::vector<double> v;
                for (int k = 0; k < 4; ++k) v.push_back(g(k, e->referenceToPhysical(x)));
                v.push_back(f(f0, VALUE, x));
                Geometry::Jacobian<D, D> J = e->calcJacobian(x);
                Base::ValueCoordinateTransformationData<D> cd;
                cd.setJacobian(J);
                v.push_back(Base::H1ConformingTransformation<D>().transformDeriv(fv<D>(f0 + 1, DERIV, x), cd)[D - 1]);
                return v;
            });
    };
    Integration::ElementIntegral<D> I;
    TRYC("setup", shape * 100, I.setTransformation(std::shared_ptr<Base::CoordinateTransformation<D>>(new Base::H1ConformingTransformation<D>())));
    const long k0 = shape * 100;
    returns<D>(k0 + 1, I, A, nullptr, values, want(A, A->getGaussQuadratureRule(), true), 63);
    returns<D>(k0 + 2, I, B, nullptr, values, want(B, B->getGaussQuadratureRule(), true), 1 + 2);
    returns<D>(k0 + 3, I, A, low, values, want(A, low, true), 63);
    returns<D>(k0 + 4, I, A, high, values, want(A, high, true), 1 + 4 + 8);
    I.setJacobianScaling(false);
    returns<D>(k0 + 5, I, A, nullptr, values, want(A, A->getGaussQuadratureRule(), false), 1 + 2);
    I.setJacobianScaling(true);
    returns<D>(k0 + 6, I, B, nullptr, values, want(B, B->getGaussQuadratureRule(), true), 1 + 16);
    TRYC("base", k0 + 7, {
        EIB<D> b;
        MV r = I.integrate(A, static_cast<Integration::ElementIntegrandBase<MV, D>*>(&b), nullptr);
        auto w = want(A, A->getGaussQuadratureRule(), true);
        eqi("base.size", k0 + 7, 0, 0, r.size(), 2);
        for (int k = 0; k < 2; ++k) eq("base", k0 + 7, 0, k, re(r[k]), w[k]);
        MV r2 = I.integrate(A, static_cast<Integration::ElementIntegrandBase<MV, D>*>(&b), low);
        auto w2 = want(A, low, true);
        for (int k = 0; k < 2; ++k) eq("base", k0 + 7, 1, k, re(r2[k]), w2[k]);
    });
}
static Base::Node* node(std::size_t i) {
    static std::vector<Base::Node*> n(40, nullptr);
    if (!n[i]) n[i] = new Base::Node(i);
    return n[i];
}
template <std::size_t D>
static Base::Element* mkNodes(const std::vector<std::size_t>& nodes, std::vector<Geometry::PointPhysical<D>>& pos, std::size_t set, long id) {
    Base::Element* e = new Base::Element(nodes, &sets(), pos, 1, 1, id, zone());
    e->setDefaultBasisFunctionSet(set);
    for (std::size_t i = 0; i < nodes.size(); ++i) node(nodes[i])->addElement(e, i);
    return e;
}
template <std::size_t D>
static void faces(long shape, const std::vector<std::size_t>& na, const std::vector<std::size_t>& nb, std::size_t fa, std::size_t fb, std::size_t ga) {
    auto& pos = na.size() == D + 1 ? nodesSym<D>(20, 10) : positions<D>(20, 10);
    Base::Element *A = mkNodes<D>(na, pos, 0, 1), *B = mkNodes<D>(nb, pos, 3, 2), *C = mkNodes<D>(na, pos, 0, 3), *E = mkNodes<D>(nb, pos, 4, 4);
    Base::Face* F1 = new Base::Face(A, fa, B, fb, 21);
    Base::Face* F2 = new Base::Face(E, fb, C, fa, 22);
    Base::Face* W = new Base::Face(A, ga, Geometry::FaceType::WALL_BC, 23);
    Rule* low = F1->getReferenceGeometry()->getGaussQuadratureRule(1);
    Rule* high = F1->getReferenceGeometry()->getGaussQuadratureRule(D == 1 ? 1 : 4);
    auto values = [](Base::PhysicalFace<D>& p) {
        std::vector<double> v;
        for (int k = 0; k < 3; ++k) v.push_back(g(k, p.getPointPhysical()));
        v.push_back(p.getUnitNormalVector()[0]);
        v.push_back(p.basisFunction(0));
        v.push_back(p.basisFunction(p.getNumOfBasisFunctions() - 1));
        return v;
    };
    auto want = [&](Base::Face* F, Rule* r, bool scale) {
        Base::Element *l = const_cast<Base::Element*>(F->getPtrElementLeft()), *rt = F->isInternal() ? const_cast<Base::Element*>(F->getPtrElementRight()) : nullptr;
        const long f0 = l == E ? 8 : 0;
        return total(
            r, 6, [&](std::size_t q) { const PR<D - 1>& x = r->getPoint(q); return scale ? F->getNormalVector(x).l2Norm() : 1.; },
            [&](std::size_t q) {
                const PR<D - 1>& x = r->getPoint(q);
                std::vector<double> v;
                const PR<D> xl = F->mapRefFaceToRefElemL(x);
                for (int k = 0; k < 3; ++k) v.push_back(g(k, l->referenceToPhysical(xl)));
                const auto n = F->getNormalVector(x);
                v.push_back(n[0] / n.l2Norm());
                v.push_back(f(f0, VALUE, xl));
                if (rt) {
                    const PR<D> xr = F->mapRefFaceToRefElemR(x);
                    v.push_back(f(rt == B ? 7 : 2, VALUE, xr));
                } else
                    v.push_back(f(2, VALUE, xl));
                return v;
            });
    };
    Integration::FaceIntegral<D> I;
    TRYC("setup", shape * 100 + 50, I.setTransformation(std::shared_ptr<Base::CoordinateTransformation<D>>(new Base::H1ConformingTransformation<D>())));
    const long k0 = shape * 100 + 50;
    returns<D>(k0 + 1, I, F1, nullptr, values, want(F1, F1->getGaussQuadratureRule(), true), 63);
    returns<D>(k0 + 2, I, F2, nullptr, values, want(F2, F2->getGaussQuadratureRule(), true), 1 + 2);
    returns<D>(k0 + 3, I, W, nullptr, values, want(W, W->getGaussQuadratureRule(), true), 1 + 4);
    returns<D>(k0 + 4, I, F1, low, values, want(F1, low, true), 63);
    returns<D>(k0 + 5, I, F1, high, values, want(F1, high, true), 1 + 4 + 8);
    I.setJacobianScaling(false);
    returns<D>(k0 + 6, I, F1, nullptr, values, want(F1, F1->getGaussQuadratureRule(), false), 1 + 2);
    returns<D>(k0 + 7, I, W, nullptr, values, want(W, W->getGaussQuadratureRule(), false), 1 + 2);
    I.setJacobianScaling(true);
    returns<D>(k0 + 8, I, F2, high, values, want(F2, high, true), 1 + 16);
    auto pairOf = [&](long key, Base::Face* F, Rule* given, bool scale) {
        TRYC("pair", key, {
            auto r = I.integratePair(F, [&](Base::PhysicalFace<D>& p) { auto v = values(p); MV a(2); MV b(3); a[0] = v[0]; a[1] = v[4]; b[0] = v[1]; b[1] = v[5]; b[2] = v[3]; return std::make_pair(a, b); }, given);
            auto w = want(F, given ? given : F->getGaussQuadratureRule(), scale);
            eqi("pair.size", key, 0, 0, r.first.size() * 10 + r.second.size(), 23);
            eq("pair", key, 0, 0, re(r.first[0]), w[0]);
            eq("pair", key, 0, 1, re(r.first[1]), w[4]);
            eq("pair", key, 1, 0, re(r.second[0]), w[1]);
            eq("pair", key, 1, 1, re(r.second[1]), w[5]);
            eq("pair", key, 1, 2, re(r.second[2]), w[3]);
        });
    };
    pairOf(k0 + 11, F1, nullptr, true);
    pairOf(k0 + 12, F1, low, true);
    pairOf(k0 + 13, F2, nullptr, true);
    pairOf(k0 + 14, W, nullptr, true);
    I.setJacobianScaling(false);
    pairOf(k0 + 15, F1, high, false);
    I.setJacobianScaling(true);
    TRYC("base", k0 + 16, {
        FIB<D> b;
        MV r = I.integrate(F1, static_cast<Integration::FaceIntegrandBase<MV, D>*>(&b), nullptr);
        auto w = want(F1, F1->getGaussQuadratureRule(), true);
        eqi("base.size", k0 + 16, 0, 0, r.size(), 2);
        for (int k = 0; k < 2; ++k) eq("base", k0 + 16, 0, k, re(r[k]), w[k]);
        MV r2 = I.integrate(W, static_cast<Integration::FaceIntegrandBase<MV, D>*>(&b), low);
        auto w2 = want(W, low, true);
        for (int k = 0; k < 2; ++k) eq("base", k0 + 16, 1, k, re(r2[k]), w2[k]);
    });
    TRYC("facematrix", k0 + 17, {
        const std::size_t nl = 3;
        const std::size_t nr = 2;
        Base::FaceMatrix r = I.integrate(F1, [&](Base::PhysicalFace<D>& p) { auto v = values(p); Base::FaceMatrix m(nl, nr); for (std::size_t i = 0; i < 5; ++i) for (std::size_t j = 0; j < 5; ++j) m(i, j) = v[(i + 2 * j) % 6]; return m; }, nullptr);
        auto w = want(F1, F1->getGaussQuadratureRule(), true);
        for (std::size_t i = 0; i < 5; ++i)
            for (std::size_t j = 0; j < 5; ++j) eq("facematrix", k0 + 17, i, j, re(r(i, j)), w[(i + 2 * j) % 6]);
    });
}
extern "C" void probe_integral1() {
    elements<1>(1, 2, 2);
    faces<1>(1, {0, 1}, {1, 2}, 1, 0, 0);
    elements<2>(3, 3, 4);
    faces<2>(3, {0, 1, 2}, {2, 3, 1}, 2, 1, 0);
}
extern "C" void probe_integral2() {
    elements<2>(2, 4, 3);
    // faces {0,1},{0,2},{1,3},{2,3}
    faces<2>(2, {0, 1, 2, 3}, {4, 3, 5, 1}, 2, 2, 0);
    elements<2>(8, 6, 3);  // quadratic triangle
}
extern "C" void probe_integral3() {
    elements<3>(5, 4, 4);
    faces<3>(5, {0, 1, 2, 3}, {4, 2, 1, 3}, 3, 3, 0);
    elements<3>(6, 5, 4);
}
extern "C" void probe_integral4() {
    elements<3>(4, 8, 4);
    elements<3>(9, 8, 4);
    elements<3>(7, 6, 4);
    elements<3>(10, 6, 4);
    elements<3>(11, 5, 4);
}
// faces of two cubes that share a face
extern "C" void probe_integral5() { faces<3>(4, {0, 1, 2, 3, 4, 5, 6, 7}, {4, 5, 6, 7, 8, 9, 10, 11}, 5, 0, 1); }
// default rules
template <std::size_t D>
static void orders(long shape, const std::vector<std::size_t>& na, const std::vector<std::size_t>& nb, std::size_t fa, std::size_t fb, int maxOrder) {
    static Sets sets{mkset(0, 1, 0), mkset(0, 1, 1), mkset(0, 1, 2), mkset(0, 1, 3), mkset(0, 1, 4), mkset(0, 1, 5)};
    auto& pos = *new std::vector<Geometry::PointPhysical<D>>(20);
    for (std::size_t i = 0; i < 20; ++i)
        for (std::size_t d = 0; d < D; ++d) pos[i][d] = i * 1.25 + d * d - 0.5 * i * d;
    auto el = [&](const std::vector<std::size_t>& n, long id) {
        Base::Element* e = new Base::Element(n, &sets, pos, 2, 1, id, zone());
        for (std::size_t i = 0; i < n.size(); ++i) node(n[i])->addElement(e, i);
        return e;
    };
    auto require = [&](long key, long j, Base::Element* e, Base::Face* f, int pe, int pf) {
        if (e) {
            eqi("order", key, j, 0, (long)e->getGaussQuadratureRule()->order() >= 2 * pe, 1);
            eqi("ruleshape", key, j, 0, e->getGaussQuadratureRule()->forReferenceGeometry() == e->getReferenceGeometry(), 1);
        }
        if (f) {
            if (D > 1) eqi("order", key, j, 1, (long)f->getGaussQuadratureRule()->order() >= 2 * pf, 1);
            eqi("ruleshape", key, j, 1, f->getGaussQuadratureRule()->forReferenceGeometry() == f->getReferenceGeometry(), 1);
        }
    };
    for (int p = 0; p <= maxOrder; ++p)
        for (int q = 0; q <= maxOrder; ++q)
            TRYC("order", shape * 100 + p * 10 + q, {
                const long key = shape * 100 + p * 10 + q;
                const int m = std::max(p, q);
                Base::Element *a = el(na, 1), *b = el(nb, 2);
                a->setDefaultBasisFunctionSet(p);
                b->setDefaultBasisFunctionSet(q);
                Base::Face* f = new Base::Face(a, fa, b, fb, 3);
                require(key, 0, a, f, p, m);
                require(key, 1, b, nullptr, q, m);
                // the element of higher order on the right, sets assigned per unknown, raised after the face exists
                Base::Element *c = el(na, 4), *d = el(nb, 5);
                c->setDefaultBasisFunctionSet(0);
                d->setDefaultBasisFunctionSet(0);
                Base::Face* g = new Base::Face(c, fa, d, fb, 6);
                c->setDefaultBasisFunctionSet(p, 1);
                d->setDefaultBasisFunctionSet(q, 0);
                require(key, 2, c, g, p, m);
                require(key, 3, d, nullptr, q, m);
                c->setDefaultBasisFunctionSet(0, 0);
                require(key, 4, c, g, p, m);
                // boundary face
                Base::Element* e = el(na, 7);
                e->setDefaultBasisFunctionSet(p, 0);
                e->setDefaultBasisFunctionSet(q, 1);
                Base::Face* h = new Base::Face(e, fa, Geometry::FaceType::WALL_BC, 8);
                require(key, 5, e, h, m, m);
                // a subdomain boundary that gets its second element later
                Base::Element* x = el(nb, 9);
                x->setDefaultBasisFunctionSet(q);
                h->addElement(x, fb);
                require(key, 6, x, nullptr, q, m);
            });
}
extern "C" void probe_integral6() {
    orders<1>(1, {0, 1}, {1, 2}, 1, 0, 5);
    orders<2>(3, {0, 1, 2}, {2, 3, 1}, 2, 1, 4);
    orders<2>(2, {0, 1, 2, 3}, {4, 3, 5, 1}, 2, 2, 5);
    orders<2>(8, {0, 1, 2, 3}, {4, 3, 1}, 2, 1, 4);  // square next to a triangle
    orders<3>(5, {0, 1, 2, 3}, {4, 2, 1, 3}, 3, 3, 4);
    orders<3>(4, {0, 1, 2, 3, 4, 5, 6, 7}, {4, 5, 6, 7, 8, 9, 10, 11}, 5, 0, 4);
}

// Probe: the integrals the API classes compute by default, from opaque basis functions and user functions.
// symbols: functions of elem.h; user functions 20000..; coefficients 300..; time 250
#include "elem.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/Node.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
using namespace op;
typedef QuadratureRules::GaussQuadratureRule Rule;
typedef LinearAlgebra::MiddleSizeVector MV;
typedef LinearAlgebra::MiddleSizeMatrix MM;
template <std::size_t D>
using PP = Geometry::PointPhysical<D>;
template <std::size_t D>
static double g(long id, const PP<D>& p, double t, std::size_t order) {
    double v = vt_sym(20000 + id * 50 + 10 * order) + t * vt_sym(20001 + id * 50 + 10 * order);
    for (std::size_t k = 0; k < D; ++k) v += p[k] * vt_sym(20002 + id * 50 + 10 * order + k);
    return v;
}
static bool numeric = false;
template <std::size_t D>
static MV user(long id, const PP<D>& p, double t, std::size_t order) {
    MV r(2);
    for (std::size_t v = 0; v < 2; ++v)
        if (numeric) {
            double s = 0;
            for (std::size_t k = 0; k < D; ++k) s += p[k] * p[k] * (k + 1.) - p[k] * (2. - v);
            r[v] = s + t * (v ? 1. : -2.) + (id == 1 ? .5 * v : 1.);
        } else
            r[v] = g(id * 2 + v, p, t, order);
    return r;
}
template <std::size_t D>
struct Plain : Base::HpgemAPISimplified<D> {
    Plain() : Base::HpgemAPISimplified<D>((std::size_t)2, (std::size_t)1) {}
    MV getInitialSolution(const PP<D>& p, const double& t, const std::size_t o) override { return user(0, p, t, o); }
    MV getExactSolution(const PP<D>& p, const double& t, const std::size_t o) override { return user(1, p, t, o); }
    MV computeRightHandSideAtElement(Base::Element*, const MV& c, const double) override { return c; }
};
template <std::size_t D>
struct Lin : Base::HpgemAPILinear<D> {
    Lin() : Base::HpgemAPILinear<D>((std::size_t)2, (std::size_t)1) {}
    MV getSourceTerm(const PP<D>& p, const double& t, const std::size_t o) override { return user(2, p, t, o); }
    MM computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<D>& e) override {
        MM& m = e.getResultMatrix();
        for (std::size_t i = 0; i < 6; ++i)
            for (std::size_t j = 0; j < 6; ++j) m(i, j) = g(100 + i * 6 + j, e.getPointPhysical(), 0., 0);
        return m;
    }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<D>& f) override {
        Base::FaceMatrix& m = f.getResultMatrix();
        const std::size_t n = f.isInternal() ? 10 : 6;
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) m(i, j) = g(200 + i * 10 + j, f.getPointPhysical(), 0., 0);
        return m;
    }
    MV computeIntegrandSourceTermAtFace(Base::PhysicalFace<D>& f, const double t, const std::size_t o) override {
        MV& v = f.getResultVector();
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = g(300 + i, f.getPointPhysical(), t, o);
        return v;
    }
};
template <std::size_t D>
static std::vector<PP<D>>* numNodes(std::size_t n, double shift) {
    auto* v = new std::vector<PP<D>>(n);
    const auto* g = &Geometry::ReferenceGeometryFactory::Instance().getGeometry(D, n);
    for (std::size_t i = 0; i < n; ++i) {
        const Geometry::PointReference<D>& r = g->getReferenceNodeCoordinate(i);
        for (std::size_t k = 0; k < D; ++k) (*v)[i][k] = 2 * r[k] + (k + 1 < D ? .25 * r[k + 1] : 0) + shift * (k + 1) + (n == (1u << D) && D > 1 && k == 0 ? .125 * r[0] * r[1] : 0);
    }
    return v;
}
template <std::size_t D>
static void element(long cfg, std::size_t n) {
    auto* nodes = numNodes<D>(n, .5);
    Base::Element* e = new Base::Element(iota(n), &sets(), *nodes, 2, 1, 3, zone());
    e->setDefaultBasisFunctionSet(0);
    e->setNumberOfTimeIntegrationVectors(2);
    auto* rule = e->getReferenceGeometry()->getGaussQuadratureRule(2);
    e->setQuadratureRulesWithOrder(2);
    rule = const_cast<Rule*>(e->getGaussQuadratureRule());
    MV c(6), c2(6);
    for (std::size_t i = 0; i < 6; ++i) {
        c[i] = vt_sym(300 + i);
        c2[i] = vt_sym(320 + i);
    }
    e->setTimeIntegrationVector(0, c);
    e->setTimeIntegrationVector(1, c2);
    const double t = vt_sym(250);
    auto weight = [&](Rule* r, std::size_t q) {
        const Geometry::PointReference<D>& p = r->getPoint(q);
        const double d = e->calcJacobian(p).determinant();
        return r->weight(q) * (d < 0 ? -d : d);
    };
    auto& api = *new Plain<D>();
    auto& lin = *new Lin<D>();
    TRYC("mass", cfg, {
        MM m = api.computeMassMatrixAtElement(e);
        eqi("mass.n", cfg, 0, 0, m.getNumberOfRows() * 100 + m.getNumberOfColumns(), 606);
        for (std::size_t i = 0; i < 6; ++i)
            for (std::size_t j = 0; j < 6; ++j) {
                double w = 0;
                if (i / 3 == j / 3)
                    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                        const Geometry::PointReference<D>& p = rule->getPoint(q);
                        w += weight(rule, q) * f(i % 3, VALUE, p) * f(j % 3, VALUE, p);
                    }
                eq("mass", cfg, i, j, m(i, j), w);
            }
    });
    auto vec = [&](const char* tag, long id, const MV& v, std::size_t o) {
        eqi("vec.n", cfg, id, o, v.size(), 6);
        for (std::size_t i = 0; i < 6; ++i) {
            double w = 0;
            for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                const Geometry::PointReference<D>& p = rule->getPoint(q);
                w += weight(rule, q) * f(i % 3, VALUE, p) * g(id * 2 + i / 3, e->referenceToPhysical(p), t, o);
            }
            eq(tag, cfg, o, i, v[i], w);
        }
    };
    for (std::size_t o = 0; o < 2; ++o) {
        TRYC("initial", cfg * 10 + o, { vec("initial", 0, api.integrateInitialSolutionAtElement(e, t, o), o); });
        TRYC("source", cfg * 10 + o, { vec("source", 2, lin.integrateSourceTermAtElement(e, t, o), o); });
    }
    TRYC("error", cfg, {
        auto got = api.integrateErrorAtElement(e, c, t);
        Rule* r = QuadratureRules::AllGaussQuadratureRules::instance().getRule(e->getReferenceGeometry(), 4);
        double w = 0;
        for (std::size_t q = 0; q < r->getNumberOfPoints(); ++q) {
            const Geometry::PointReference<D>& p = r->getPoint(q);
            for (std::size_t v = 0; v < 2; ++v) {
                double d = g(2 + v, e->referenceToPhysical(p), t, 0);
                for (std::size_t b = 0; b < 3; ++b) d -= c[v * 3 + b] * f(b, VALUE, p);
                w += weight(r, q) * d * d;
            }
        }
        eq("error", cfg, 0, 0, std::real(got), w);
    });
    TRYC("stiffness", cfg, {
        MM m = lin.computeStiffnessMatrixAtElement(e);
        for (std::size_t i = 0; i < 6; ++i)
            for (std::size_t j = 0; j < 6; ++j) {
                double w = 0;
                for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                    const Geometry::PointReference<D>& p = rule->getPoint(q);
                    w += weight(rule, q) * g(100 + i * 6 + j, e->referenceToPhysical(p), 0., 0);
                }
                eq("stiffness", cfg, i, j, m(i, j), w);
            }
    });
    const PR<D> x = vt::symPoint<D>(0);
    for (std::size_t l = 0; l < 2; ++l) {
        TRYC("solution", cfg * 10 + l, {
            MV s = e->getSolution(l, x);
            eqi("vec.n", cfg, 10, l, s.size(), 2);
            auto grad = e->getSolutionGradient(l, x);
            eqi("vec.n", cfg, 11, l, grad.size(), 2);
            Geometry::Jacobian<D, D> J = e->calcJacobian(x);
            for (std::size_t v = 0; v < 2; ++v) {
                double w = 0;
                SV<D> d;
                for (std::size_t b = 0; b < 3; ++b) {
                    w += (l ? c2 : c)[v * 3 + b] * f(b, VALUE, x);
                    d += std::real((l ? c2 : c)[v * 3 + b]) * fv<D>(b, DERIV, x);
                }
                eq("solution", cfg, l, v, std::real(s[v]), w);
                // the gradient on the element is the gradient in physical space times the transpose of the Jacobian
                for (std::size_t k = 0; k < D; ++k) {
                    double a = 0;
                    for (std::size_t m = 0; m < D; ++m) a += J(m, k) * std::real(grad[v][m]);
                    eq("gradient", cfg, l, v * 10 + k, a, d[k]);
                }
            }
        });
    }
    TRYC("direct", cfg, {
        for (std::size_t b = 0; b < 3; ++b) {
            eq("direct", cfg, b, 0, e->basisFunction(b, x), f(b, VALUE, x));
            eq("direct", cfg, b, 1, e->basisFunction(b, x, 1), f(b, VALUE, x));
            eqv("direct", cfg, b, 1, e->basisFunctionDeriv(b, x), fv<D>(b, DERIV, x), D);
            eqv("direct", cfg, b, 2, e->basisFunctionDeriv(b, x, 1), fv<D>(b, DERIV, x), D);
            for (std::size_t k = 0; k < D; ++k) {
                eq("direct", cfg, b, 50 + k, e->basisFunctionDeriv(b, k, x), f(b, DERIV + k, x));
                eq("direct", cfg, b, 60 + k, e->basisFunctionDeriv(b, k, x, 1), f(b, DERIV + k, x));
            }
            if constexpr (D > 1) {
                SV<D> r;
                SV<D> r2;
                e->basisFunction(b, x, r);
                e->basisFunction(b, x, r2, 1);
                eqv("direct", cfg, b, 7, r, fv<D>(b, VEC, x), D);
                eqv("direct", cfg, b, 8, r2, fv<D>(b, VEC, x), D);
                eqv("direct", cfg, b, 9, e->basisFunctionCurl(b, x), fv<D>(b, CURL, x, D == 2 ? 1 : D), D);
                eqv("direct", cfg, b, 10, e->basisFunctionCurl(b, x, 1), fv<D>(b, CURL, x, D == 2 ? 1 : D), D);
                eq("direct", cfg, b, 110, e->basisFunctionDiv(b, x), f(b, DIV, x));
                eq("direct", cfg, b, 111, e->basisFunctionDiv(b, x, 1), f(b, DIV, x));
            }
        }
    });
    // what is written: the solution in the vector that is asked for
    TRYC("written", cfg, {
        auto& w = *new Plain<D>();
        w.registerVTKWriteFunctions();
        eqi("vec.n", cfg, 20, 0, w.VTKDoubleWrite_.size(), 2);
        for (std::size_t l = 0; l < 2; ++l) {
            MV s = e->getSolution(l, x);
            for (std::size_t v = 0; v < 2; ++v) eq("written", cfg, l, v, w.VTKDoubleWrite_[v].first(e, x, l), std::real(s[v]));
        }
    });
}
// the largest error over the quadrature points; all numbers are given
template <std::size_t D>
static void largest(long cfg, std::size_t n) {
    auto* nodes = numNodes<D>(n, -.75);
    Base::Element* e = new Base::Element(iota(n), &sets(), *nodes, 2, 1, 3, zone());
    e->setDefaultBasisFunctionSet(5);
    e->setNumberOfTimeIntegrationVectors(1);
    e->setQuadratureRulesWithOrder(3);
    auto* rule = e->getGaussQuadratureRule();
    auto& api = *new Plain<D>();
    numeric = true;
    for (long sign = -1; sign < 2; sign += 2)
        TRYC("largest", cfg * 10 + sign + 1, {
            MV c(4);
            for (std::size_t i = 0; i < 4; ++i) c[i] = sign * (1.5 + i * (i % 2 ? 1. : -.25));
            MV got = api.computeMaxErrorAtElement(e, c, .25);
            for (std::size_t v = 0; v < 2; ++v) {
                double m = 0;
                for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                    const Geometry::PointReference<D>& p = rule->getPoint(q);
                    double d = std::real(user(1, e->referenceToPhysical(p), .25, 0)[v]);
                    for (std::size_t b = 0; b < 2; ++b) d -= std::real(c[v * 2 + b]) * e->basisFunction(b, p);
                    if (d < 0) d = -d;
                    if (d > m) m = d;
                }
                eq("largest", cfg, sign + 1, v, std::real(got[v]), m);
            }
        });
    numeric = false;
}
static Base::Node* node(std::size_t i) {
    static std::vector<Base::Node*> n(40, nullptr);
    if (!n[i]) n[i] = new Base::Node(i);
    return n[i];
}
template <std::size_t D>
static void face(long cfg) {
    // two simplices with a common face
    std::vector<std::size_t> na, nb;
    std::size_t fa, fb;
    auto* pos = new std::vector<PP<D>>(D + 2);
    if (D == 1) {
        na = {0, 1}, nb = {1, 2}, fa = 1, fb = 0;
    } else if (D == 2) {
        na = {0, 1, 2}, nb = {2, 3, 1}, fa = 2, fb = 1;
    } else {
        na = {0, 1, 2, 3}, nb = {4, 2, 1, 3}, fa = 3, fb = 3;
    }
    for (std::size_t i = 0; i < D + 2; ++i)
        for (std::size_t k = 0; k < D; ++k) (*pos)[i][k] = (i == k + 1 ? 2. : 0.) + (i == D + 1 ? 1.75 : 0.) + .125 * ((i * 3 + k) % 4);
    Base::Element* l = new Base::Element(na, &sets(), *pos, 2, 1, 1, zone());
    Base::Element* r = new Base::Element(nb, &sets(), *pos, 2, 1, 2, zone());
    l->setDefaultBasisFunctionSet(0);
    r->setDefaultBasisFunctionSet(3);
    for (std::size_t i = 0; i < na.size(); ++i) {
        node(na[i])->addElement(l, i);
        node(nb[i])->addElement(r, i);
    }
    for (int b = 0; b < 2; ++b) {
        Base::Face* fc = b ? new Base::Face(l, 0, Geometry::FaceType::WALL_BC, 4) : new Base::Face(l, fa, r, fb, 3);
        auto* rule = fc->getReferenceGeometry()->getGaussQuadratureRule(2);
        fc->setGaussQuadratureRule(rule);
        auto& lin = *new Lin<D>();
        const std::size_t n = b ? 6 : 10;
        const double t = vt_sym(250);
        auto sum = [&](long id, double time, std::size_t o) {
            double w = 0;
            for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                const Geometry::PointReference<D - 1>& p = rule->getPoint(q);
                w += rule->weight(q) * fc->getNormalVector(p).l2Norm() * g(id, fc->referenceToPhysical(p), time, o);
            }
            return w;
        };
        TRYC("facematrix", cfg * 10 + b, {
            Base::FaceMatrix m = lin.computeStiffnessMatrixAtFace(fc);
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) eq("facematrix", cfg * 10 + b, i, j, std::real(m(i, j)), sum(200 + i * 10 + j, 0., 0));
        });
        for (std::size_t o = 0; o < 2; ++o)
            TRYC("facesource", (cfg * 10 + b) * 10 + o, {
                MV v = lin.integrateSourceTermAtFace(fc, t, o);
                eqi("vec.n", cfg, 30 + b, o, v.size(), n);
                for (std::size_t i = 0; i < n; ++i) eq("facesource", cfg * 10 + b, o, i, std::real(v[i]), sum(300 + i, t, o));
            });
    }
}
struct Given : FE::BaseBasisFunction {
    int k;
    explicit Given(int k) : k(k) {}
    double eval(const PR<1>& p) const final { return k ? 1. - p[0] : 2. + p[0] * p[0]; }
    double eval(const PR<2>& p) const final { return k ? 1. - p[0] + p[1] : 2. + p[0] * p[1]; }
    double eval(const PR<3>& p) const final { return k ? 1. - p[0] + p[2] : 2. + p[0] * p[1]; }
};
extern "C" void probe_api() {
    auto* s = new FE::BasisFunctionSet(1);
    s->addBasisFunction(new Given(0));
    s->addBasisFunction(new Given(1));
    const_cast<Sets&>(sets()).push_back(std::shared_ptr<const FE::BasisFunctionSet>(s));
    element<1>(1, 2);
    element<2>(2, 3);
    element<2>(3, 4);
    element<3>(4, 4);
    element<3>(5, 6);
    largest<1>(1, 2);
    largest<2>(2, 3);
    largest<3>(4, 4);
    face<1>(1);
    face<2>(2);
    face<3>(3);
}

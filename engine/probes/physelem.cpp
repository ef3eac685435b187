// Probe: evaluation of basis functions, geometry and solutions through PhysicalElement, along histories of setter calls.
// symbols: reference points 0..2 and 3..5; nodes of element A 10.., of element B 50..; solution coefficients 300.. / 400..
#include "elem.h"
#include "Base/PhysicalElement.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace op;
typedef std::vector<std::vector<long>> Ids;  // per unknown: functions in order
template <std::size_t D>
struct El {
    Base::Element* e;
    Ids ids;
    int coef;
    bool uniform;  // all unknowns use the same functions
};
template <std::size_t D>
static El<D> mk(std::size_t n, int base, int kind, int coef, long id) {
    auto& nodes = nodesSym<D>(n, base);
    Base::Element* e = new Base::Element(iota(n), &sets(), nodes, 2, 1, id, zone());
    El<D> r;
    r.e = e;
    r.coef = coef;
    r.uniform = kind == 0;
    if (kind == 0) {
        e->setDefaultBasisFunctionSet(0);
        r.ids = {{0, 1, 2}, {0, 1, 2}};
    } else {
        e->setDefaultBasisFunctionSet(kind == 1 ? 0 : 4, 0);
        e->setDefaultBasisFunctionSet(1, 1);
        e->setVertexBasisFunctionSet(3, 0, 1);
        e->setFaceBasisFunctionSet(2, 1, 1);
        r.ids = {kind == 1 ? std::vector<long>{0, 1, 2} : std::vector<long>{8, 9, 10, 11}, {3, 4, 5, 6, 7}};
    }
    e->setNumberOfTimeIntegrationVectors(2);
    for (std::size_t u = 0; u < 2; ++u)
        for (std::size_t b = 0; b < r.ids[u].size(); ++b) {
            e->setTimeIntegrationData(0, u, b, vt_sym(coef + 20 * u + b));
            e->setTimeIntegrationData(1, u, b, vt_sym(coef + 50 + 20 * u + b));
        }
    return r;
}
enum { TH1, THCURL, THDIV, TANY };
// a transformation that scales every kind of data by its own factor: tells apart what was computed with which one
template <std::size_t D>
struct Scaling : Base::CoordinateTransformation<D> {
    int k;
    explicit Scaling(int n) : k(960 + 5 * n) {}
    double transform(double r, const Base::CoordinateTransformationData<D>&) const final { return vt_sym(k) * r; }
    SV<D> transform(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 1); }
    SV<D> transformDeriv(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 2); }
    double transformDiv(double r, const Base::CoordinateTransformationData<D>&) const final { return vt_sym(k + 3) * r; }
    SV<D> transformCurl(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 4); }
};
template <std::size_t D>
static std::shared_ptr<Base::CoordinateTransformation<D>> tf(int k) {
    typedef std::shared_ptr<Base::CoordinateTransformation<D>> P;
    if (k >= TANY) return P(new Scaling<D>(k - TANY));
    if (k == THCURL) return P(new Base::HCurlConformingTransformation<D>());
    if (k == THDIV) return P(new Base::HDivConformingTransformation<D>());
    return P(new Base::H1ConformingTransformation<D>());
}
// compare everything the physical element offers with its definition
template <std::size_t D>
static void all(long cfg, Base::PhysicalElement<D>& p, const El<D>& el, const PR<D>& x, int t0, int t1, bool numeric) {
    const int tt[2] = {t0, t1};
    const Base::Element* e = el.e;
    vtTry("elem", [&] {
        vt_emit_i("try.elem", cfg, 0, 0, 1);
        eqi("elem", cfg, 0, 0, p.getElement() == e, 1);
        eqi("elem", cfg, 0, 1, p.getID(), e->getID());
        eqi("elem", cfg, 0, 2, p.getNumberOfUnknowns(), 2);
        for (std::size_t u = 0; u < 2; ++u) eqi("elem", cfg, 0, 3 + u, p.getNumberOfBasisFunctions(u), el.ids[u].size());
        eqi("elem", cfg, 0, 5, p.getTotalNumberOfBasisFunctions(), el.ids[0].size() + el.ids[1].size());
        for (std::size_t u = 0; u < 2; ++u)
            for (std::size_t b = 0; b < el.ids[u].size(); ++b) eqi("elem", cfg, u + 1, b, p.convertToSingleIndex(b, u), b + (u ? el.ids[0].size() : 0));
    });
    Geometry::Jacobian<D, D> J = e->calcJacobian(x);
    double det = J.determinant();
    vtTry("geo", [&] {
        vt_emit_i("try.geo", cfg, 0, 0, 1);
        eqv("geo.ref", cfg, 0, 0, p.getPointReference(), x, D);
        eqv("geo.phys", cfg, 0, 0, p.getPointPhysical(), e->referenceToPhysical(x), D);
        for (std::size_t r = 0; r < D; ++r)
            for (std::size_t c = 0; c < D; ++c) {
                eq("geo.jac", cfg, r, c, p.getJacobian()(r, c), J(r, c));
                eq("geo.jact", cfg, r, c, p.getTransposeJacobian()(r, c), J(c, r));
            }
        eq("geo.det", cfg, 0, 0, p.getJacobianDet(), det);
    });
    vtTry("absdet", [&] {
        vt_emit_i("try.absdet", cfg, 0, 0, 1);
        // |det| squared (and its sign) is decidable without knowing the orientation
        double a = p.getJacobianAbsDet();
        eq("absdet", cfg, 0, 0, a * a, det * det);
        if (numeric) eqi("absdet", cfg, 1, 0, a >= 0, 1);
    });
    vtTry("invt", [&] {
        vt_emit_i("try.invt", cfg, 0, 0, 1);
        const auto& I = p.getInverseTransposeJacobian();
        for (std::size_t r = 0; r < D; ++r)
            for (std::size_t c = 0; c < D; ++c) {
                double s = 0;
                for (std::size_t k = 0; k < D; ++k) s += I(r, k) * J(c, k);
                eq("invt", cfg, r, c, s, r == c ? 1. : 0.);
            }
    });
    Base::ValueCoordinateTransformationData<D> cd;
    cd.setJacobian(J);
    for (std::size_t u = 0; u < 2; ++u)
        for (std::size_t b = 0; b < el.ids[u].size(); ++b) {
            const long id = el.ids[u][b], key = cfg * 100 + u * 10 + b;
            auto T = tf<D>(tt[u]);
            if (tt[u] == TH1 || tt[u] >= TANY) {
                // the variants without unknown, before or after the others have filled the caches
                auto zero = [&] {
                if (el.uniform && u == 0) {
                    vtTry("bf0", [&] {
                        vt_emit_i("try.bf0", key, 0, 0, 1);
                        eq("bf0", key, 0, 0, p.basisFunction(b), T->transform(f(id, VALUE, x), cd));
                        eqv("bf0", key, 1, 0, p.basisFunctionDeriv(b), T->transformDeriv(fv<D>(id, DERIV, x), cd), D);
                    });
                }
                };
                if (cfg % 2) zero();
                vtTry("bf", [&] {
                    vt_emit_i("try.bf", key, 0, 0, 1);
                    eq("bf", key, 0, 0, p.basisFunction(b, u), T->transform(f(id, VALUE, x), cd));
                });
                vtTry("bfd", [&] {
                    vt_emit_i("try.bfd", key, 0, 0, 1);
                    eqv("bfd", key, 0, 0, p.basisFunctionDeriv(b, u), T->transformDeriv(fv<D>(id, DERIV, x), cd), D);
                });
                if (cfg % 2 == 0) zero();
            }
            if constexpr (D > 1) if (tt[u] != TH1) {
                auto zero = [&] {
                if (el.uniform && u == 0) {
                    vtTry("bfv0", [&] {
                        vt_emit_i("try.bfv0", key, 0, 0, 1);
                        SV<D> r;
                        p.basisFunction(b, r);
                        eqv("bfv0", key, 0, 0, r, T->transform(fv<D>(id, VEC, x), cd), D);
                        if (tt[u] == THCURL || tt[u] >= TANY)
                            eqv("bfv0", key, 1, 0, p.basisFunctionCurl(b), T->transformCurl(fv<D>(id, CURL, x, D == 2 ? 1 : D), cd), D);
                        if (tt[u] == THDIV || tt[u] >= TANY)
                            eq("bfv0", key, 2, 0, p.basisFunctionDiv(b), T->transformDiv(f(id, DIV, x), cd));
                    });
                }
                };
                if (cfg % 2) zero();
                vtTry("bfv", [&] {
                    vt_emit_i("try.bfv", key, 0, 0, 1);
                    SV<D> r;
                    p.basisFunction(b, r, u);
                    eqv("bfv", key, 0, 0, r, T->transform(fv<D>(id, VEC, x), cd), D);
                });
                if (tt[u] == THCURL || tt[u] >= TANY)
                    vtTry("bfc", [&] {
                        vt_emit_i("try.bfc", key, 0, 0, 1);
                        eqv("bfc", key, 0, 0, p.basisFunctionCurl(b, u), T->transformCurl(fv<D>(id, CURL, x, D == 2 ? 1 : D), cd), D);
                    });
                if (tt[u] == THDIV || tt[u] >= TANY)
                    vtTry("bfdiv", [&] {
                        vt_emit_i("try.bfdiv", key, 0, 0, 1);
                        eq("bfdiv", key, 0, 0, p.basisFunctionDiv(b, u), T->transformDiv(f(id, DIV, x), cd));
                    });
                if (cfg % 2 == 0) zero();
            }
        }
    if ((t0 == TH1 || t0 >= TANY) && (t1 == TH1 || t1 >= TANY) && el.uniform) {
        vtTry("sol", [&] {
            vt_emit_i("try.sol", cfg, el.uniform, 0, 1);
            const auto& s = p.getSolution();
            eqi("sol.n", cfg, el.uniform, 0, s.size(), 2);
            for (std::size_t u = 0; u < 2; ++u) {
                double w = 0;
                for (std::size_t b = 0; b < el.ids[u].size(); ++b) w += vt_sym(el.coef + 20 * u + b) * tf<D>(tt[u])->transform(f(el.ids[u][b], VALUE, x), cd);
                eq("sol", cfg, el.uniform, u, s[u], w);
            }
        });
        vtTry("sold", [&] {
            vt_emit_i("try.sold", cfg, el.uniform, 0, 1);
            const auto& s = p.getSolutionDeriv();
            for (std::size_t u = 0; u < 2; ++u) {
                SV<D> w;
                for (std::size_t b = 0; b < el.ids[u].size(); ++b) w += vt_sym(el.coef + 20 * u + b) * tf<D>(tt[u])->transformDeriv(fv<D>(el.ids[u][b], DERIV, x), cd);
                eqv("sold", cfg, el.uniform, u, s[u], w, D);
            }
        });
    }
    // result storage starts at zero for every position
    vtTry("res", [&] {
        vt_emit_i("try.res", cfg, 0, 0, 1);
        auto& m = p.getResultMatrix();
        auto& v = p.getResultVector();
        const std::size_t n = el.ids[0].size() + el.ids[1].size();
        eqi("res.n", cfg, 0, 0, m.getNumberOfRows(), n);
        eqi("res.n", cfg, 0, 1, m.getNumberOfColumns(), n);
        eqi("res.n", cfg, 0, 2, v.size(), n);
        for (std::size_t i = 0; i < n; ++i) {
            eq("res", cfg, 50, i, v[i], 0.);
            v[i] = vt_sym(900 + i);
            for (std::size_t j = 0; j < n; ++j) {
                eq("res", cfg, i, j, m(i, j), 0.);
                m(i, j) = vt_sym(910 + i);
            }
        }
    });
}
template <std::size_t D>
static PR<D> pt(const Geometry::PointReferenceBase& b) {
    const PR<D>& p = b;
    return p;
}
template <std::size_t D>
static void histories(long base, std::size_t n) {
    El<D> A = mk<D>(n, 10, 1, 300, 7), B = mk<D>(n, 50, 2, 400, 9), U = mk<D>(n, 10, 0, 300, 11);
    const PR<D> x = vt::symPoint<D>(0), y = vt::symPoint<D>(3);
    QuadratureRules::GaussQuadratureRule* R = A.e->getReferenceGeometry()->getGaussQuadratureRule(2);
    QuadratureRules::GaussQuadratureRule* R2 = A.e->getReferenceGeometry()->getGaussQuadratureRule(3);
    const int V1 = D > 1 ? THCURL : TH1, V2 = D > 1 ? THDIV : TH1;
    auto fresh = [&](int t0, int t1) {
        auto* p = new Base::PhysicalElement<D>();
        p->setTransformation(tf<D>(t0), 0);
        p->setTransformation(tf<D>(t1), 1);
        return p;
    };
    for (int t = 0; t < 4; ++t) {
        const long c0 = base + t * 100;
        const int t0 = t == 0 ? TH1 : t == 1 ? V1 : t == 2 ? V2 : TANY, t1 = t == 2 ? V1 : t == 3 ? TANY + 1 : TH1;
        TRYC("hist", c0, {
            auto& p = *fresh(t0, t1);
            p.setElement(A.e);
            p.setPointReference(x);
            all(c0 + 1, p, A, x, t0, t1, false);
            p.setPointReference(y);  // another point
            all(c0 + 2, p, A, y, t0, t1, false);
            p.setElement(B.e);  // another element with other numbers of functions
            all(c0 + 3, p, B, y, t0, t1, false);
            p.setElement(A.e);
            p.setPointReference(x);
            all(c0 + 4, p, A, x, t0, t1, false);
            p.setTransformation(tf<D>(t1), 0);  // other transformations
            all(c0 + 5, p, A, x, t1, t1, false);
            p.setTransformation(tf<D>(t0), 1);
            all(c0 + 6, p, A, x, t1, t0, false);
            if (t == 3) {
                p.setQuadratureRule(R);
                p.setTransformation(tf<D>(TANY + 2), 0);
                all(c0 + 7, p, A, pt<D>(R->getPoint(0)), TANY + 2, t0, false);
                p.setTransformation(tf<D>(TANY + 3), 1);
                p.setTransformation(tf<D>(TANY + 1), 0);
                all(c0 + 8, p, A, pt<D>(R->getPoint(0)), TANY + 1, TANY + 3, false);
            }
        });
        TRYC("hist", c0 + 50, {
            auto& p = *fresh(t0, t1);
            p.setElement(A.e);
            p.setQuadratureRule(R);
            all(c0 + 51, p, A, pt<D>(R->getPoint(0)), t0, t1, false);
            const std::size_t last = R->getNumberOfPoints() - 1;
            p.setQuadraturePointIndex(last);
            all(c0 + 52, p, A, pt<D>(R->getPoint(last)), t0, t1, false);
            p.setElement(B.e);
            p.setQuadraturePointIndex(last);
            all(c0 + 53, p, B, pt<D>(R->getPoint(last)), t0, t1, false);
            p.setQuadratureRule(R2);
            p.setQuadraturePointIndex(1);
            all(c0 + 54, p, B, pt<D>(R2->getPoint(1)), t0, t1, false);
            p.setPointReference(x);  // leaving the quadrature points
            all(c0 + 55, p, B, x, t0, t1, false);
            // and through face maps
            p.setElement(A.e);
            for (std::size_t face = 0; face < 2; ++face) {
                const auto* g = A.e->getReferenceGeometry();
                const auto* map = g->getCodim1MappingPtr(face);
                QuadratureRules::GaussQuadratureRule* F = g->getCodim1ReferenceGeometry(face)->getGaussQuadratureRule(2);
                p.setQuadratureRule(F, map);
                const std::size_t k = F->getNumberOfPoints() - 1;
                p.setQuadraturePointIndex(k);
                PR<D - 1> q = F->getPoint(k);
                all(c0 + 56 + face, p, A, static_cast<PR<D>>(map->transform(q)), t0, t1, false);
            }
            p.setQuadratureRule(R);
            all(c0 + 58, p, A, pt<D>(R->getPoint(0)), t0, t1, false);
        });
        TRYC("hist", c0 + 70, {
            auto* p0 = new Base::PhysicalElement<D>();
            auto& p = *p0;
            p.setTransformation(tf<D>(t0), 0);
            p.setTransformation(tf<D>(t0), 1);
            p.setElement(U.e);
            p.setPointReference(x);
            all(c0 + 71, p, U, x, t0, t0, false);
            p.setPointReference(y);
            all(c0 + 72, p, U, y, t0, t0, false);
            p.setQuadratureRule(R);
            p.setQuadraturePointIndex(1 % R->getNumberOfPoints());
            all(c0 + 73, p, U, pt<D>(R->getPoint(1 % R->getNumberOfPoints())), t0, t0, false);
            for (std::size_t face = 0; face < 2; ++face) {
                const auto* g = U.e->getReferenceGeometry();
                const auto* map = g->getCodim1MappingPtr(face);
                QuadratureRules::GaussQuadratureRule* F = g->getCodim1ReferenceGeometry(face)->getGaussQuadratureRule(2);
                p.setQuadratureRule(F, map);
                const std::size_t k = F->getNumberOfPoints() - 1;
                p.setQuadraturePointIndex(k);
                PR<D - 1> q = F->getPoint(k);
                all(c0 + 75 + 2 * face, p, U, static_cast<PR<D>>(map->transform(q)), t0, t0, false);
            }
            p.setQuadratureRule(R);
            p.setQuadraturePointIndex(1 % R->getNumberOfPoints());
            all(c0 + 79, p, U, pt<D>(R->getPoint(1 % R->getNumberOfPoints())), t0, t0, false);
            if (t == 3) {
                p.setTransformation(tf<D>(TANY + 2));
                p.setTransformation(tf<D>(TANY + 2), 1);
                all(c0 + 74, p, U, pt<D>(R->getPoint(1 % R->getNumberOfPoints())), TANY + 2, TANY + 2, false);
            }
        });
    }
}
extern "C" void probe_physelem1() { histories<1>(1000, 2); }
extern "C" void probe_physelem2() { histories<2>(2000, 3); }
extern "C" void probe_physelem3() { histories<3>(3000, 4); }

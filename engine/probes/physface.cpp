// Probe: evaluation of traces through PhysicalFace, along histories of setter calls.
// symbols: reference face points 0..1 and 3..4; node n has coordinates 10+n*D..; solution coefficients 300../400..
#include "elem.h"
#include "Base/PhysicalFace.h"
#include "Base/Node.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace op;
typedef std::vector<std::vector<long>> Ids;
template <std::size_t D>
struct El {
    Base::Element* e;
    Ids ids;
    int coef;
    bool uniform;
};
static Base::Node* node(std::size_t i) {
    static std::vector<Base::Node*> n(40, nullptr);
    if (!n[i]) n[i] = new Base::Node(i);
    return n[i];
}
template <std::size_t D>
static Geometry::PointPhysical<D> symNode(std::size_t i) {
    Geometry::PointPhysical<D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = vt_sym(10 + i * D + d);
    return p;
}
// nodes are given by number; positions by 'pos'
template <std::size_t D>
static El<D> mk(const std::vector<std::size_t>& nodes, const std::vector<Geometry::PointPhysical<D>>& pos, int kind, int coef, long id, bool shared = false) {
    auto* all = new std::vector<Geometry::PointPhysical<D>>(pos);
    Base::Element* e = new Base::Element(shared ? nodes : iota(nodes.size()), &sets(), *all, 2, 1, id, zone());
    El<D> r;
    r.e = e;
    r.coef = coef;
    r.uniform = kind == 0 || kind == 3;
    if (r.uniform) {
        e->setDefaultBasisFunctionSet(kind == 0 ? 0 : 3);
        std::vector<long> v = kind == 0 ? std::vector<long>{0, 1, 2} : std::vector<long>{6, 7};
        r.ids = {v, v};
    } else {
        e->setDefaultBasisFunctionSet(kind == 1 ? 0 : 4, 0);
        e->setDefaultBasisFunctionSet(kind == 1 ? 1 : 2, 1);
        r.ids = {kind == 1 ? std::vector<long>{0, 1, 2} : std::vector<long>{8, 9, 10, 11}, kind == 1 ? std::vector<long>{3, 4} : std::vector<long>{5}};
    }
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        node(nodes[i])->addElement(e, i);
    }
    e->setNumberOfTimeIntegrationVectors(2);
    for (std::size_t u = 0; u < 2; ++u)
        for (std::size_t b = 0; b < r.ids[u].size(); ++b) {
            e->setTimeIntegrationData(0, u, b, vt_sym(coef + 20 * u + b));
            e->setTimeIntegrationData(1, u, b, vt_sym(coef + 50 + 20 * u + b));
        }
    return r;
}
template <std::size_t D>
static El<D> mks(const std::vector<std::size_t>& nodes, int kind, int coef, long id) {
    std::vector<Geometry::PointPhysical<D>> pos;
    for (std::size_t n = 0; n < D + 2; ++n) pos.push_back(symNode<D>(n));
    return mk<D>(nodes, pos, kind, coef, id, true);
}
enum { TH1, THCURL, THDIV, TANY };
// a transformation that scales every kind of data by its own factor: tells apart what was computed with which one
template <std::size_t D>
struct Scaling : Base::CoordinateTransformation<D> {
    int k;
    explicit Scaling(int n) : k(960 + 5 * n) {}
    double transform(double r, const Base::CoordinateTransformationData<D>&) const final { return vt_sym(k) * r; }
    SV<D> transform(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 1); }
    SV<D> transformDeriv(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 2); }
    double transformDiv(double r, const Base::CoordinateTransformationData<D>&) const final { return vt_sym(k + 3) * r; }
    SV<D> transformCurl(SV<D> r, const Base::CoordinateTransformationData<D>&) const final { return r * vt_sym(k + 4); }
};
template <std::size_t D>
static std::shared_ptr<Base::CoordinateTransformation<D>> tf(int k) {
    typedef std::shared_ptr<Base::CoordinateTransformation<D>> P;
    if (k >= TANY) return P(new Scaling<D>(k - TANY));
    if (k == THCURL) return P(new Base::HCurlConformingTransformation<D>());
    if (k == THDIV) return P(new Base::HDivConformingTransformation<D>());
    return P(new Base::H1ConformingTransformation<D>());
}
template <std::size_t D>
struct Side_ {
    const El<D>* el;
    PR<D> x;
    Base::ValueCoordinateTransformationData<D> cd;
};
template <std::size_t D>
struct Fc {
    Base::Face* f;
    El<D> L, R;
    bool internal;
    const LinearAlgebra::SmallMatrix<D, D>* rot;  // rotation of the right side, or null
};
template <std::size_t D>
static void all(long cfg, Base::PhysicalFace<D>& p, const Fc<D>& fc, const PR<D - 1>& q, int t0, int t1) {
    const int tt[2] = {t0, t1};
    const Base::Face* f = fc.f;
    Side_<D> S[2];
    S[0].el = &fc.L;
    S[1].el = &fc.R;
    const int ns = fc.internal ? 2 : 1;
    S[0].x = f->mapRefFaceToRefElemL(q);
    if (fc.internal) S[1].x = f->mapRefFaceToRefElemR(q);
    for (int s = 0; s < ns; ++s) {
        Geometry::Jacobian<D, D> J = S[s].el->e->calcJacobian(S[s].x);
        S[s].cd.setJacobian(J);
    }
    const Base::Side SD[2] = {Base::Side::LEFT, Base::Side::RIGHT};
    const LinearAlgebra::SmallVector<D> n = f->getNormalVector(q);
    const double len = n.l2Norm();
    auto rotate = [&](int s, SV<D> v) {
        if (s == 0 || !fc.rot) return v;
        SV<D> r;
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j) r[i] += (*fc.rot)(i, j) * v[j];
        return r;
    };
    TRYC("face", cfg, {
        eqi("face", cfg, 0, 0, p.getFace() == f, 1);
        eqi("face", cfg, 0, 1, p.getID(), f->getID());
        eqi("face", cfg, 0, 2, p.getNumberOfUnknowns(), 2);
        eqi("face", cfg, 0, 6, p.isInternal(), fc.internal);
        for (std::size_t u = 0; u < 2; ++u) eqi("face", cfg, 0, 3 + u, p.getNumberOfBasisFunctions(u), fc.L.ids[u].size() + (fc.internal ? fc.R.ids[u].size() : 0));
        for (int s = 0; s < ns; ++s) eqi("face", cfg, 0, 7 + s, p.getPhysicalElement(SD[s]).getElement() == S[s].el->e, 1);
        const long nl = fc.L.ids[0].size() + fc.L.ids[1].size();
        for (int s = 0; s < ns; ++s)
            for (std::size_t u = 0; u < 2; ++u)
                for (std::size_t b = 0; b < S[s].el->ids[u].size(); ++b) eqi("face", cfg, 10 + s * 2 + u, b, p.convertToSingleIndex(SD[s], b, u), (s ? nl : 0) + (u ? S[s].el->ids[0].size() : 0) + b);
    });
    TRYC("geo", cfg, {
        if constexpr (D > 1) eqv("geo.ref", cfg, 0, 0, p.getPointReference(), q, D - 1);
        eqv("geo.phys", cfg, 0, 0, p.getPointPhysical(), fc.L.e->referenceToPhysical(S[0].x), D);
        eqv("geo.normal", cfg, 0, 0, p.getNormalVector(), n, D);
        eq("geo.area", cfg, 0, 0, p.getRelativeSurfaceArea(), len);
        eqv("geo.unit", cfg, 0, 0, p.getUnitNormalVector(), n / len, D);
    });
    for (std::size_t u = 0; u < 2; ++u)
        for (int s = 0; s < ns; ++s)
            for (std::size_t b = 0; b < S[s].el->ids[u].size(); ++b) {
                const long id = S[s].el->ids[u][b], key = cfg * 1000 + s * 100 + u * 10 + b;
                const std::size_t k = b + (s ? fc.L.ids[u].size() : 0);
                const PR<D>& x = S[s].x;
                const auto& cd = S[s].cd;
                const double sg = s ? -1. : 1.;
                const bool first = fc.L.uniform && u == 0;
                auto T = tf<D>(tt[u]);
                if (tt[u] == TH1 || tt[u] >= TANY) {
                    const double v = T->transform(op::f(id, VALUE, x), cd);
                    const SV<D> g = rotate(s, T->transformDeriv(fv<D>(id, DERIV, x), cd));
                    auto zero = [&] {
                    if (first)
                        TRYC("bf0", key, {
                            eq("bf0", key, 0, 0, p.basisFunction(k), v);
                            eq("bf0", key, 0, 1, p.basisFunction(SD[s], b), v);
                            eqv("bf0", key, 1, 0, p.basisFunctionDeriv(k), g, D);
                            eqv("bf0", key, 1, 1, p.basisFunctionDeriv(SD[s], b), g, D);
                            eqv("bf0", key, 2, 0, p.basisFunctionNormal(k), n * (sg * v), D);
                            eqv("bf0", key, 2, 1, p.basisFunctionNormal(SD[s], b), n * (sg * v), D);
                            eqv("bf0", key, 3, 0, p.basisFunctionUnitNormal(k), n * (sg * v) / len, D);
                            eqv("bf0", key, 3, 1, p.basisFunctionUnitNormal(SD[s], b), n * (sg * v) / len, D);
                        });
                    };
                    if (cfg % 2) zero();
                    TRYC("bf", key, {
                        eq("bf", key, 0, 0, p.basisFunction(k, u), v);
                        eq("bf", key, 0, 1, p.basisFunction(SD[s], b, u), v);
                    });
                    TRYC("bfd", key, {
                        eqv("bfd", key, 0, 0, p.basisFunctionDeriv(k, u), g, D);
                        eqv("bfd", key, 0, 1, p.basisFunctionDeriv(SD[s], b, u), g, D);
                    });
                    TRYC("bfn", key, {
                        eqv("bfn", key, 0, 0, p.basisFunctionNormal(k, u), n * (sg * v), D);
                        eqv("bfn", key, 0, 1, p.basisFunctionNormal(SD[s], b, u), n * (sg * v), D);
                    });
                    TRYC("bfun", key, {
                        eqv("bfun", key, 0, 0, p.basisFunctionUnitNormal(k, u), n * (sg * v) / len, D);
                        eqv("bfun", key, 0, 1, p.basisFunctionUnitNormal(SD[s], b, u), n * (sg * v) / len, D);
                    });
                    if (cfg % 2 == 0) zero();
                }
            if constexpr (D > 1) if (tt[u] != TH1) {
                    const SV<D> v = rotate(s, T->transform(fv<D>(id, VEC, x), cd));
                    SV<D> cross;
                    if constexpr (D == 2)
                        cross[0] = sg * (n[0] * v[1] - n[1] * v[0]);
                    else
                        for (std::size_t i = 0; i < 3; ++i) cross[i] = sg * (n[(i + 1) % 3] * v[(i + 2) % 3] - n[(i + 2) % 3] * v[(i + 1) % 3]);
                    auto zero = [&] {
                    if (first)
                        TRYC("bfv0", key, {
                            SV<D> r;
                            p.basisFunction(k, r);
                            eqv("bfv0", key, 0, 0, r, v, D);
                            SV<D> r2;
                            p.basisFunction(SD[s], b, r2);
                            eqv("bfv0", key, 0, 1, r2, v, D);
                            SV<D> r3;
                            p.basisFunctionUnitNormalCross(k, r3);
                            eqv("bfv0", key, 0, 2, r3, cross / len, D);
                            SV<D> r5;
                            p.basisFunctionUnitNormalCross(SD[s], b, r5);
                            eqv("bfv0", key, 0, 4, r5, cross / len, D);
                            if constexpr (D == 3) {
                                SV<D> r4;
                                p.basisFunctionNormalCross(k, r4);
                                eqv("bfv0", key, 0, 3, r4, cross, D);
                                SV<D> r6;
                                p.basisFunctionNormalCross(SD[s], b, r6);
                                eqv("bfv0", key, 0, 5, r6, cross, D);
                            }
                            if (tt[u] == THCURL || tt[u] >= TANY) {
                                const SV<D> c0 = T->transformCurl(fv<D>(id, CURL, x, D == 2 ? 1 : D), cd), c = D == 3 ? rotate(s, c0) : c0;
                                eqv("bfv0", key, 1, 0, p.basisFunctionCurl(k), c, D);
                                eqv("bfv0", key, 1, 1, p.basisFunctionCurl(SD[s], b), c, D);
                            }
                            if (tt[u] == THDIV || tt[u] >= TANY) {
                                const double d = T->transformDiv(op::f(id, DIV, x), cd);
                                eq("bfv0", key, 2, 0, p.basisFunctionDiv(k), d);
                                eq("bfv0", key, 2, 1, p.basisFunctionDiv(SD[s], b), d);
                            }
                        });
                    };
                    if (cfg % 2) zero();
                    TRYC("bfv", key, {
                        SV<D> r;
                        p.basisFunction(k, r, u);
                        eqv("bfv", key, 0, 0, r, v, D);
                        SV<D> r2;
                        p.basisFunction(SD[s], b, r2, u);
                        eqv("bfv", key, 0, 1, r2, v, D);
                    });
                    if (tt[u] == THCURL || tt[u] >= TANY)
                        TRYC("bfc", key, {
                            const SV<D> c0 = T->transformCurl(fv<D>(id, CURL, x, D == 2 ? 1 : D), cd), c = D == 3 ? rotate(s, c0) : c0;
                            eqv("bfc", key, 0, 0, p.basisFunctionCurl(k, u), c, D);
                            eqv("bfc", key, 0, 1, p.basisFunctionCurl(SD[s], b, u), c, D);
                        });
                    if (tt[u] == THDIV || tt[u] >= TANY)
                        TRYC("bfdiv", key, {
                            const double d = T->transformDiv(op::f(id, DIV, x), cd);
                            eq("bfdiv", key, 0, 0, p.basisFunctionDiv(k, u), d);
                            eq("bfdiv", key, 0, 1, p.basisFunctionDiv(SD[s], b, u), d);
                        });
                    TRYC("cross", key, {
                        SV<D> r;
                        p.basisFunctionUnitNormalCross(k, r, u);
                        eqv("cross", key, 0, 0, r, cross / len, D);
                        SV<D> r2;
                        p.basisFunctionUnitNormalCross(SD[s], b, r2, u);
                        eqv("cross", key, 0, 1, r2, cross / len, D);
                        if constexpr (D == 3) {
                            SV<D> r3;
                            p.basisFunctionNormalCross(k, r3, u);
                            eqv("cross", key, 0, 2, r3, cross, D);
                            SV<D> r4;
                            p.basisFunctionNormalCross(SD[s], b, r4, u);
                            eqv("cross", key, 0, 3, r4, cross, D);
                        }
                    });
                    if (cfg % 2 == 0) zero();
                }
            }
    if ((t0 == TH1 || t0 >= TANY) && (t1 == TH1 || t1 >= TANY) && fc.L.uniform) {
        for (int s = 0; s < ns; ++s)
            TRYC("sol", cfg * 10 + s, {
                const auto& v = p.getSolution(SD[s]);
                eqi("sol.n", cfg, s, 0, v.size(), 2);
                for (std::size_t u = 0; u < 2; ++u) {
                    double w = 0;
                    SV<D> g;
                    for (std::size_t b = 0; b < S[s].el->ids[u].size(); ++b) {
                        w += vt_sym(S[s].el->coef + 20 * u + b) * tf<D>(tt[u])->transform(op::f(S[s].el->ids[u][b], VALUE, S[s].x), S[s].cd);
                        g += vt_sym(S[s].el->coef + 20 * u + b) * tf<D>(tt[u])->transformDeriv(fv<D>(S[s].el->ids[u][b], DERIV, S[s].x), S[s].cd);
                    }
                    eq("sol", cfg, s, u, v[u], w);
                    if (!fc.rot) eqv("sold", cfg, s, u, p.getSolutionDeriv(SD[s])[u], g, D);
                }
            });
    }
    TRYC("res", cfg, {
        std::size_t nn[2] = {fc.L.ids[0].size() + fc.L.ids[1].size(), fc.internal ? fc.R.ids[0].size() + fc.R.ids[1].size() : 0};
        auto& m = p.getResultMatrix();
        for (int a = 0; a < ns; ++a)
            for (int b = 0; b < ns; ++b) {
                const auto& M = m.getElementMatrix(SD[a], SD[b]);
                eqi("res.n", cfg, a, b * 2, M.getNumberOfRows(), nn[a]);
                eqi("res.n", cfg, a, b * 2 + 1, M.getNumberOfColumns(), nn[b]);
                auto& M2 = p.getResultMatrix(SD[a], SD[b]);
                eqi("res.n", cfg, a, 10 + b * 2, M2.getNumberOfRows(), nn[a]);
                eqi("res.n", cfg, a, 10 + b * 2 + 1, M2.getNumberOfColumns(), nn[b]);
                for (std::size_t i = 0; i < nn[a]; ++i)
                    for (std::size_t j = 0; j < nn[b]; ++j) {
                        eq("res", cfg, a * 10 + b, i * 10 + j, M(i, j), 0.);
                        eq("res", cfg, a * 10 + b + 50, i * 10 + j, M2(i, j), 0.);
                        M2(i, j) = vt_sym(910 + i);
                    }
            }
        for (std::size_t i = 0; i < nn[0] + nn[1]; ++i)
            for (std::size_t j = 0; j < nn[0] + nn[1]; ++j) m(i, j) = vt_sym(920 + i);
        auto& v = p.getResultVector();
        eqi("res.n", cfg, 5, 0, v.size(), nn[0] + nn[1]);
        for (std::size_t i = 0; i < nn[0] + nn[1]; ++i) {
            eq("res", cfg, 99, i, v[i], 0.);
            v[i] = vt_sym(900 + i);
        }
        for (int a = 0; a < ns; ++a) {
            auto& w = p.getResultVector(SD[a]);
            eqi("res.n", cfg, 6 + a, 0, w.size(), nn[a]);
            for (std::size_t i = 0; i < nn[a]; ++i) {
                eq("res", cfg, 100 + a, i, w[i], 0.);
                w[i] = vt_sym(900 + i);
            }
        }
    });
}
template <std::size_t D>
static PR<D> pt(const Geometry::PointReferenceBase& b) {
    const PR<D>& p = b;
    return p;
}
template <std::size_t D>
static std::vector<Geometry::PointPhysical<D>> numNodes(const std::vector<std::vector<double>>& c) {
    std::vector<Geometry::PointPhysical<D>> r;
    for (auto& x : c) {
        Geometry::PointPhysical<D> p;
        for (std::size_t d = 0; d < D; ++d) p[d] = x[d];
        r.push_back(p);
    }
    return r;
}
template <std::size_t D>
static void histories(long base) {
    std::vector<std::size_t> na, nb;
    std::size_t fa, fb, ga;
    if (D == 1) {
        na = {0, 1}, nb = {1, 2}, fa = 1, fb = 0, ga = 0;
    } else if (D == 2) {
        na = {0, 1, 2}, nb = {2, 3, 1}, fa = 2, fb = 1, ga = 0;  // faces {1,2} and {2,1}
    } else {
        na = {0, 1, 2, 3}, nb = {4, 2, 1, 3}, fa = 3, fb = 3, ga = 0;  // faces opposite the first vertex
    }
    auto face = [&](El<D> l, std::size_t fl, El<D> r, std::size_t fr, long id) {
        Fc<D> c;
        c.f = new Base::Face(l.e, fl, r.e, fr, id);
        c.L = l;
        c.R = r;
        c.internal = true;
        c.rot = nullptr;
        return c;
    };
    auto bface = [&](El<D> l, std::size_t fl, long id) {
        Fc<D> c;
        c.f = new Base::Face(l.e, fl, Geometry::FaceType::WALL_BC, id);
        c.L = l;
        c.internal = false;
        c.rot = nullptr;
        return c;
    };
    Fc<D> F1 = face(mks<D>(na, 1, 300, 1), fa, mks<D>(nb, 2, 400, 2), fb, 21);
    Fc<D> F2 = face(mks<D>(nb, 2, 500, 3), fb, mks<D>(na, 1, 600, 4), fa, 22);
    Fc<D> U = face(mks<D>(na, 0, 300, 5), fa, mks<D>(nb, 3, 400, 6), fb, 23);
    Fc<D> B1 = bface(mks<D>(na, 1, 300, 7), ga, 24), B2 = bface(mks<D>(nb, 2, 400, 8), fb, 25);
    Fc<D> UB = bface(mks<D>(nb, 3, 400, 12), fb, 27);
    Fc<D> R, UR;
    bool haveRot = false;
    auto* rot = new LinearAlgebra::SmallMatrix<D, D>();
    if constexpr (D == 2) {
        El<D> l = mk<D>({0, 1, 2}, numNodes<D>({{0, 0}, {1, 0}, {0.5, 1}}), 1, 300, 9);
        // the face {1,2} of the left element, turned over 90 degrees and moved; node 3 on the far side
        El<D> r = mk<D>({2, 3, 1}, numNodes<D>({{2, 1.5}, {2, 3}, {3, 2}}), 2, 400, 10);
        R = face(l, 2, r, 1, 26);
        UR = face(mk<D>({0, 1, 2}, numNodes<D>({{0, 0}, {1, 0}, {0.5, 1}}), 0, 300, 13), 2, mk<D>({2, 3, 1}, numNodes<D>({{2, 1.5}, {2, 3}, {3, 2}}), 3, 400, 14), 1, 28);
        UR.rot = rot;
        (*rot)(0, 1) = 1;
        (*rot)(1, 0) = -1;
        R.rot = rot;
        haveRot = true;
    }
    if constexpr (D == 3) {
        El<D> l = mk<D>({0, 1, 2, 3}, numNodes<D>({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}), 1, 300, 9);
        // right = (y,-x,z)^-1: (x,y,z)->(-y,x,z)+(5,5,5)
        El<D> r = mk<D>({4, 2, 1, 3}, numNodes<D>({{4, 6, 6}, {4, 5, 5}, {5, 6, 5}, {5, 5, 6}}), 2, 400, 10);
        R = face(l, 3, r, 3, 26);
        UR = face(mk<D>({0, 1, 2, 3}, numNodes<D>({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}), 0, 300, 13), 3, mk<D>({4, 2, 1, 3}, numNodes<D>({{4, 6, 6}, {4, 5, 5}, {5, 6, 5}, {5, 5, 6}}), 3, 400, 14), 3, 28);
        UR.rot = rot;
        (*rot)(0, 1) = 1;
        (*rot)(1, 0) = -1;
        (*rot)(2, 2) = 1;
        R.rot = rot;
        haveRot = true;
    }
    const PR<D - 1> x = vt::symPoint<D - 1>(0), y = vt::symPoint<D - 1>(3);
    QuadratureRules::GaussQuadratureRule* Q = F1.f->getReferenceGeometry()->getGaussQuadratureRule(2);
    const int V1 = D > 1 ? THCURL : TH1, V2 = D > 1 ? THDIV : TH1;
    auto fresh = [&](bool internal, int t0, int t1) {
        auto* p = new Base::PhysicalFace<D>(internal);
        p->setTransform(tf<D>(t0), 0);
        p->setTransform(tf<D>(t1), 1);
        return p;
    };
    for (int t = 0; t < 4; ++t) {
        const long c0 = base + t * 100;
        const int t0 = t == 0 ? TH1 : t == 1 ? V1 : t == 2 ? V2 : TANY, t1 = t == 2 ? V1 : t == 3 ? TANY + 1 : TH1;
        TRYC("hist", c0, {
            auto& p = *fresh(true, t0, t1);
            p.setFace(F1.f);
            p.setPointReference(x);
            all(c0 + 1, p, F1, x, t0, t1);
            p.setPointReference(y);
            all(c0 + 2, p, F1, y, t0, t1);
            p.setFace(F2.f);  // other elements with other numbers of functions
            all(c0 + 3, p, F2, y, t0, t1);
            p.setFace(F1.f);
            p.setPointReference(x);
            all(c0 + 4, p, F1, x, t0, t1);
            p.setTransform(tf<D>(t1), 0);
            all(c0 + 5, p, F1, x, t1, t1);
            p.setTransform(tf<D>(t0), 1);
            all(c0 + 6, p, F1, x, t1, t0);
        });
        TRYC("hist", c0 + 10, {
            auto& p = *fresh(true, t0, t1);
            p.setFace(F1.f);
            p.setQuadratureRule(Q);
            all(c0 + 11, p, F1, pt<D - 1>(Q->getPoint(0)), t0, t1);
            const std::size_t last = Q->getNumberOfPoints() - 1;
            p.setQuadraturePointIndex(last);
            all(c0 + 12, p, F1, pt<D - 1>(Q->getPoint(last)), t0, t1);
            p.setFace(F2.f);
            p.setQuadratureRule(Q);
            p.setQuadraturePointIndex(last);
            all(c0 + 13, p, F2, pt<D - 1>(Q->getPoint(last)), t0, t1);
            p.setPointReference(x);
            all(c0 + 14, p, F2, x, t0, t1);
            if (t == 3) {
                p.setQuadratureRule(Q);
                p.setTransform(tf<D>(TANY + 2), 0);
                all(c0 + 15, p, F2, pt<D - 1>(Q->getPoint(0)), TANY + 2, t1);
                p.setTransform(tf<D>(TANY + 3), 1);
                all(c0 + 16, p, F2, pt<D - 1>(Q->getPoint(0)), TANY + 2, TANY + 3);
            }
        });
        TRYC("hist", c0 + 20, {
            auto& p = *fresh(false, t0, t1);
            p.setFace(B1.f);
            p.setPointReference(x);
            all(c0 + 21, p, B1, x, t0, t1);
            p.setFace(B2.f);
            all(c0 + 22, p, B2, x, t0, t1);
            p.setQuadratureRule(Q);
            all(c0 + 23, p, B2, pt<D - 1>(Q->getPoint(0)), t0, t1);
            if (t == 3) {
                p.setTransform(tf<D>(TANY + 2), 0);
                all(c0 + 24, p, B2, pt<D - 1>(Q->getPoint(0)), TANY + 2, t1);
            }
        });
        TRYC("hist", c0 + 30, {
            auto& p = *fresh(true, t0, t0);
            p.setFace(U.f);
            p.setPointReference(x);
            all(c0 + 31, p, U, x, t0, t0);
            p.setPointReference(y);
            all(c0 + 32, p, U, y, t0, t0);
            p.setQuadratureRule(Q);
            all(c0 + 33, p, U, pt<D - 1>(Q->getPoint(0)), t0, t0);
            if (t == 3) {
                p.setTransform(tf<D>(TANY + 2));
                p.setTransform(tf<D>(TANY + 2), 1);
                all(c0 + 34, p, U, pt<D - 1>(Q->getPoint(0)), TANY + 2, TANY + 2);
            }
        });
        TRYC("hist", c0 + 50, {
            auto& p = *fresh(false, t0, t0);
            p.setFace(UB.f);
            p.setPointReference(x);
            all(c0 + 51, p, UB, x, t0, t0);
            p.setQuadratureRule(Q);
            all(c0 + 53, p, UB, pt<D - 1>(Q->getPoint(0)), t0, t0);
        });
        if (haveRot && t < 3)
            TRYC("hist", c0 + 60, {
                auto& p = *fresh(true, t0, t0);
                p.setFace(UR.f);
                p.setPointReference(x);
                all(c0 + 61, p, UR, x, t0, t0);
                p.setQuadratureRule(Q);
                all(c0 + 63, p, UR, pt<D - 1>(Q->getPoint(0)), t0, t0);
            });
        if (haveRot && t < 3)
            TRYC("hist", c0 + 40, {
                auto& p = *fresh(true, t0, t1);
                p.setFace(R.f);
                p.setPointReference(x);
                all(c0 + 41, p, R, x, t0, t1);
                p.setPointReference(y);
                all(c0 + 42, p, R, y, t0, t1);
                p.setFace(F1.f);
                all(c0 + 43, p, F1, y, t0, t1);
                p.setFace(R.f);
                all(c0 + 44, p, R, y, t0, t1);
            });
    }
}
extern "C" void probe_physface1() { histories<1>(1000); }
extern "C" void probe_physface2() { histories<2>(2000); }
extern "C" void probe_physface3() { histories<3>(3000); }

// Probe: data stored on elements and faces, numbering of the functions of an element and a face, local indexing helpers.
// every stored number is an indeterminate of its own
#include "elem.h"
#include "Base/Node.h"
#include "Base/Edge.h"
#include "Base/FaceMatrix.h"
#include "Base/PhysicalElement.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
#include "Utilities/Table2D.h"
using namespace op;
typedef LinearAlgebra::MiddleSizeVector MV;
typedef LinearAlgebra::MiddleSizeMatrix MM;
using Base::Side;
static double re(double x) { return x; }
static double re(const std::complex<double>& x) { return x.real(); }
static int fresh = 100;
static MV vec(std::size_t n, std::vector<double>& ref) {
    MV v(n);
    ref.clear();
    for (std::size_t i = 0; i < n; ++i) {
        ref.push_back(vt_sym(fresh++));
        v[i] = ref.back();
    }
    return v;
}
static MM matr(std::size_t r, std::size_t c, std::vector<double>& ref) {
    MM m(r, c);
    ref.clear();
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) {
            ref.push_back(vt_sym(fresh++));
            m(i, j) = ref.back();
        }
    return m;
}
static void same(const char* t, long i, long j, long k, const MV& v, const std::vector<double>& r) {
    eqi("size", i, j, k, v.size(), r.size());
    if (v.size() == r.size())
        for (std::size_t a = 0; a < r.size(); ++a) eq(t, i, j, k * 100 + a, re(v[a]), r[a]);
}
static void same(const char* t, long i, long j, long k, const MM& m, std::size_t r, std::size_t c, const std::vector<double>& ref) {
    eqi("size", i, j, k, m.getNumberOfRows() * 100 + m.getNumberOfColumns(), r * 100 + c);
    if (m.getNumberOfRows() == r && m.getNumberOfColumns() == c)
        for (std::size_t a = 0; a < r; ++a)
            for (std::size_t b = 0; b < c; ++b) eq(t, i, j, k * 100 + a * 10 + b, re(m(a, b)), ref[a * c + b]);
}
static std::vector<Geometry::PointPhysical<2>>& pos() {
    static std::vector<Geometry::PointPhysical<2>> p(8);
    for (std::size_t i = 0; i < 8; ++i) {
        p[i][0] = i % 3 + 0.1 * i;
        p[i][1] = i / 3 - 0.05 * i * i;
    }
    return p;
}
static Base::Node* node(std::size_t i) {
    static std::vector<Base::Node*> n(40, nullptr);
    if (!n[i]) n[i] = new Base::Node(i);
    return n[i];
}
struct Who {
    Base::Element* e;
    std::vector<std::vector<long>> ids;  // expected functions per unknown, in order
};
// kinds 0..: different numbers of functions per unknown, sets on the interior, faces and vertices
static Who make(int kind, const std::vector<std::size_t>& nodes, std::size_t timeLevels, long id, std::size_t matrices = 0, std::size_t vectors = 0) {
    Who w;
    w.e = new Base::Element(nodes, &sets(), pos(), 3, timeLevels, id, zone(), 0, true, matrices, vectors);
    for (std::size_t i = 0; i < nodes.size(); ++i) node(nodes[i])->addElement(w.e, i);
    const std::vector<std::vector<long>> S{{0, 1, 2}, {3, 4}, {5}, {6, 7}, {8, 9, 10, 11}};
    auto cat = [&](std::vector<int> k) {
        std::vector<long> r;
        for (int i : k) r.insert(r.end(), S[i].begin(), S[i].end());
        return r;
    };
    if (kind == 0) {
        for (int u = 0; u < 3; ++u) w.e->setDefaultBasisFunctionSet(u, u);
        w.ids = {S[0], S[1], S[2]};
    } else if (kind == 1) {
        w.e->setDefaultBasisFunctionSet(4, 0);
        w.e->setDefaultBasisFunctionSet(2, 1);
        w.e->setDefaultBasisFunctionSet(3, 2);
        w.ids = {S[4], S[2], S[3]};
    } else if (kind == 2) {  // conforming: interior, faces 0 and 2, vertices; assigned out of order
        w.e->setDefaultBasisFunctionSet(1, 0);
        w.e->setVertexBasisFunctionSet(2, 1, 0);
        w.e->setVertexBasisFunctionSet(3, 0, 0);
        w.e->setFaceBasisFunctionSet(0, 2, 0);
        w.e->setFaceBasisFunctionSet(4, 0, 0);
        w.e->setDefaultBasisFunctionSet(2, 1);
        w.e->setFaceBasisFunctionSet(3, 1, 1);
        w.e->setDefaultBasisFunctionSet(0, 2);
        w.e->setDefaultBasisFunctionSet(3, 2);  // replaces
        w.ids = {cat({1, 4, 0, 3, 2}), cat({2, 3}), cat({3})};
    } else {  // no interior functions at all for unknown 0
        w.e->setVertexBasisFunctionSet(0, 0, 0);
        w.e->setVertexBasisFunctionSet(1, 2, 0);
        w.e->setVertexBasisFunctionSet(2, 1, 1);
        w.e->setDefaultBasisFunctionSet(3, 2);
        w.ids = {cat({0, 1}), cat({2}), cat({3})};
    }
    return w;
}
static std::size_t total(const Who& w) { return w.ids[0].size() + w.ids[1].size() + w.ids[2].size(); }
static std::size_t off(const Who& w, std::size_t u) {
    std::size_t n = 0;
    for (std::size_t i = 0; i < u; ++i) n += w.ids[i].size();
    return n;
}
static void elements(int kind) {
    Who w = make(kind, {0, 1, 3}, 3, 7, 2, 2);
    Base::Element& e = *w.e;
    const long K = kind;
    TRYC("number", K, {
        eqi("number", K, 0, 0, e.getTotalNumberOfBasisFunctions(), total(w));
        eqi("number", K, 0, 1, e.getNumberOfUnknowns(), 3);
        for (std::size_t u = 0; u < 3; ++u) {
            eqi("number", K, 1 + u, 99, e.getNumberOfBasisFunctions(u), w.ids[u].size());
            for (std::size_t b = 0; b < w.ids[u].size(); ++b) {
                eqi("number", K, 1 + u, b, e.convertToSingleIndex(b, u), off(w, u) + b);
                PR<2> p = vt::symPoint<2>(0);
                eq("function", K, u, b, e.basisFunction(b, p, u), f(w.ids[u][b], VALUE, p));
                eqv("function.deriv", K, u, b, e.basisFunctionDeriv(b, p, u), fv<2>(w.ids[u][b], DERIV, p), 2);
                SV<2> v;
                e.basisFunction(b, p, v, u);
                eqv("function.vector", K, u, b, v, fv<2>(w.ids[u][b], VEC, p), 2);
                eqv("function.curl", K, u, b, e.basisFunctionCurl(b, p, u), fv<2>(w.ids[u][b], CURL, p, 1), 2);
                eq("function.div", K, u, b, e.basisFunctionDiv(b, p, u), f(w.ids[u][b], DIV, p));
            }
        }
    });
    // offsets of the functions of faces and vertices: the functions found there are those registered there
    TRYC("offset", K, {
        auto first = [&](std::size_t o, std::size_t u) { return o < w.ids[u].size() ? w.ids[u][o] : -1; };
        if (kind == 2) {
            eqi("offset", K, 0, 0, first(e.getFaceBasisFunctionOffset(0, 0), 0), 8);
            eqi("offset", K, 0, 1, first(e.getFaceBasisFunctionOffset(2, 0), 0), 0);
            eqi("offset", K, 0, 2, first(e.getFaceBasisFunctionOffset(1, 1), 1), 6);
            eqi("offset", K, 0, 3, first(e.getNodeBasisFunctionOffset(0, 0), 0), 6);
            eqi("offset", K, 0, 4, first(e.getNodeBasisFunctionOffset(1, 0), 0), 5);
            eqi("offset", K, 0, 5, e.getLocalNumberOfBasisFunctions(0) * 100 + e.getLocalNumberOfBasisFunctions(1) * 10 + e.getLocalNumberOfBasisFunctions(2), 212);
        }
        if (kind == 3) {
            eqi("offset", K, 0, 0, first(e.getNodeBasisFunctionOffset(0, 0), 0), 0);
            eqi("offset", K, 0, 1, first(e.getNodeBasisFunctionOffset(2, 0), 0), 3);
            eqi("offset", K, 0, 2, first(e.getNodeBasisFunctionOffset(1, 1), 1), 5);
            eqi("offset", K, 0, 5, e.getLocalNumberOfBasisFunctions(0) * 100 + e.getLocalNumberOfBasisFunctions(1) * 10 + e.getLocalNumberOfBasisFunctions(2), 2);
        }
    });
    const std::size_t N = total(w);
    // time levels: written one way, read every way
    std::vector<std::vector<double>> L(3);
    auto readLevels = [&](Base::Element& x, long step) {
        const Base::Element& c = x;
        for (std::size_t t = 0; t < 3; ++t) {
            same("level.all", K, step, t, c.getTimeLevelDataVector(t), L[t]);
            same("level.all", K, step, 3 + t, x.getTimeLevelDataVector(t), L[t]);
            for (std::size_t u = 0; u < 3; ++u) {
                std::vector<double> part(L[t].begin() + off(w, u), L[t].begin() + off(w, u) + w.ids[u].size());
                same("level.unknown", K, step, t * 10 + u, c.getTimeLevelData(t, u), part);
                for (std::size_t b = 0; b < part.size(); ++b) eq("level.one", K, step, t * 1000 + u * 100 + b, re(c.getData(t, u, b)), part[b]);
            }
        }
    };
    TRYC("level", K, {
        for (std::size_t t = 0; t < 3; ++t) {
            L[t].assign(N, 0.);
            for (std::size_t u = 3; u-- > 0;)
                for (std::size_t b = 0; b < w.ids[u].size(); ++b) {
                    L[t][off(w, u) + b] = vt_sym(fresh);
                    e.setData(t, u, b, vt_sym(fresh++));
                }
        }
        readLevels(e, 1);
        for (std::size_t t = 0; t < 3; ++t)
            for (std::size_t u = 0; u < 3; ++u) {
                std::vector<double> r;
                e.setTimeLevelData(t, u, vec(w.ids[u].size(), r));
                for (std::size_t b = 0; b < r.size(); ++b) L[t][off(w, u) + b] = r[b];
            }
        readLevels(e, 2);
        {
            MV v = vec(N, L[1]);
            e.setTimeLevelDataVector(1, v);
        }
        readLevels(e, 3);
        e.getTimeLevelDataVector(2)[N - 1] = vt_sym(fresh);
        L[2][N - 1] = vt_sym(fresh++);
        readLevels(e, 4);
    });
    std::vector<std::vector<double>> I(2);
    auto readInt = [&](Base::Element& x, long step) {
        const Base::Element& c = x;
        eqi("size", K, step, 50, x.getNumberOfTimeIntegrationVectors(), 2);
        for (std::size_t t = 0; t < 2; ++t) {
            same("integration.all", K, step, t, c.getTimeIntegrationVector(t), I[t]);
            same("integration.all", K, step, 3 + t, x.getTimeIntegrationVector(t), I[t]);
            for (std::size_t u = 0; u < 3; ++u) {
                std::vector<double> part(I[t].begin() + off(w, u), I[t].begin() + off(w, u) + w.ids[u].size());
                same("integration.unknown", K, step, t * 10 + u, c.getTimeIntegrationSubvector(t, u), part);
                for (std::size_t b = 0; b < part.size(); ++b) eq("integration.one", K, step, t * 1000 + u * 100 + b, re(c.getTimeIntegrationData(t, u, b)), part[b]);
            }
        }
    };
    TRYC("integration", K, {
        e.setNumberOfTimeIntegrationVectors(2);
        I[0].assign(N, 0.);
        I[1].assign(N, 0.);
        readInt(e, 11);
        for (std::size_t t = 0; t < 2; ++t)
            for (std::size_t u = 0; u < 3; ++u)
                for (std::size_t b = 0; b < w.ids[u].size(); ++b) {
                    I[t][off(w, u) + b] = vt_sym(fresh);
                    e.setTimeIntegrationData(t, u, b, vt_sym(fresh++));
                }
        readInt(e, 12);
        for (std::size_t u = 0; u < 3; ++u) {
            std::vector<double> r;
            e.setTimeIntegrationSubvector(1, u, vec(w.ids[u].size(), r));
            for (std::size_t b = 0; b < r.size(); ++b) I[1][off(w, u) + b] = r[b];
        }
        readInt(e, 13);
        {
            MV v = vec(N, I[0]);
            e.setTimeIntegrationVector(0, v);
        }
        readInt(e, 14);
        readLevels(e, 15);  // untouched
    });
    TRYC("matrices", K, {
        std::vector<std::vector<double>> M(4);
        std::vector<std::vector<double>> V(4);
        const Base::Element& c = e;
        for (std::size_t i : {0, 1, 3}) {  // the last one was not allocated beforehand
            e.setElementMatrix(matr(3, 3, M[i]), i);
            e.setElementVector(vec(4, V[i]), i);
        }
        for (std::size_t i : {0, 1, 3}) {
            same("matrix", K, 0, i, c.getElementMatrix(i), 3, 3, M[i]);
            same("matrix", K, 0, 4 + i, e.getElementMatrix(i), 3, 3, M[i]);
            same("vector", K, 0, i, c.getElementVector(i), V[i]);
        }
        e.setElementMatrix(matr(2, 2, M[1]), 1);
        same("matrix", K, 1, 1, c.getElementMatrix(1), 2, 2, M[1]);
        same("matrix", K, 1, 0, c.getElementMatrix(0), 3, 3, M[0]);
        // a copy has its own data
        Base::Element& x = *e.copyWithoutFacesEdgesNodes();
        readLevels(x, 31);
        readInt(x, 32);
        same("matrix", K, 2, 3, x.getElementMatrix(3), 3, 3, M[3]);
        same("vector", K, 2, 3, x.getElementVector(3), V[3]);
        eqi("copy", K, 0, 0, x.getID(), e.getID());
        eqi("copy", K, 0, 1, x.getGaussQuadratureRule() == e.getGaussQuadratureRule(), 1);
        eqi("copy", K, 0, 2, x.getTotalNumberOfBasisFunctions(), N);
        eqi("copy", K, 0, 3, &x.getZone() == &zone(), 1);
        eqi("copy", K, 0, 4, x.getReferenceGeometry() == e.getReferenceGeometry(), 1);
        for (std::size_t u = 0; u < 3; ++u)
            for (std::size_t b = 0; b < w.ids[u].size(); ++b) {
                PR<2> p = vt::symPoint<2>(0);
                eq("copy", K, 1 + u, b, x.basisFunction(b, p, u), f(w.ids[u][b], VALUE, p));
            }
        x.setData(0, 0, 0, vt_sym(fresh++));
        x.setTimeIntegrationData(0, 0, 0, vt_sym(fresh++));
        x.getElementMatrix(0)(0, 0) = vt_sym(fresh++);
        readLevels(e, 33);
        readInt(e, 34);
        same("matrix", K, 3, 0, c.getElementMatrix(0), 3, 3, M[0]);
    });
}
static void faces(int kl, int kr) {
    const long K = 100 + kl * 10 + kr;
    // triangles {0,1,3} and {1,2,3}... sharing nodes 1 and 3: local face 2 of the first, {1,3}
    Who l = make(kl, {0, 1, 3}, 1, 1), r = make(kr, {3, 4, 1}, 1, 2);
    Base::Face* F = new Base::Face(l.e, 2, r.e, 1, 5, 2, 2);
    Base::Face* B = new Base::Face(l.e, 0, Geometry::FaceType::WALL_BC, 6, 1, 1);
    const std::size_t nl = total(l), nr = total(r);
    TRYC("facenumber", K, {
        const Side S[2] = {Side::LEFT, Side::RIGHT};
        for (int s = 0; s < 2; ++s)
            for (std::size_t u = 0; u < 3; ++u) {
                const Who& w = s ? r : l;
                for (std::size_t b = 0; b < w.ids[u].size(); ++b) {
                    const std::size_t want = (s ? nl : 0) + off(w, u) + b;
                    eqi("facenumber", K, s * 10 + u, b, F->convertToSingleIndex(S[s], b, u), want);
                    eqi("facenumber.side", K, s * 10 + u, b, F->getSide(want) == S[s], 1);
                    eqi("facenumber.back", K, s * 10 + u, b, F->getElementBasisFunctionId(want), off(w, u) + b);
                    if (s == 0) eqi("facenumber", K, 50 + u, b, B->convertToSingleIndex(S[s], b, u), want);
                }
            }
        for (std::size_t u = 0; u < 3; ++u) {
            eqi("facenumber", K, 60 + u, 0, F->getNumberOfBasisFunctions(u), l.ids[u].size() + r.ids[u].size());
            eqi("facenumber", K, 60 + u, 1, B->getNumberOfBasisFunctions(u), l.ids[u].size());
        }
    });
    TRYC("facefunction", K, {
        const PR<1> p = vt::symPoint<1>(0);
        for (std::size_t u = 0; u < 3; ++u)
            for (std::size_t b = 0; b < l.ids[u].size() + r.ids[u].size(); ++b) {
                const bool right = b >= l.ids[u].size();
                const long id = right ? r.ids[u][b - l.ids[u].size()] : l.ids[u][b];
                const PR<2> x = right ? F->mapRefFaceToRefElemR(p) : F->mapRefFaceToRefElemL(p);
                eq("facefunction", K, u, b, F->basisFunction(b, p, u), f(id, VALUE, x));
                eqv("facefunction.deriv", K, u, b, F->basisFunctionDeriv(b, p, u), fv<2>(id, DERIV, x), 2);
            }
    });
    TRYC("facedata", K, {
        l.e->setNumberOfTimeIntegrationVectors(2);
        r.e->setNumberOfTimeIntegrationVectors(2);
        for (std::size_t t = 0; t < 2; ++t)
            for (std::size_t u = 0; u < 3; ++u) {
                std::vector<double> a;
                std::vector<double> b;
                l.e->setTimeIntegrationSubvector(t, u, vec(l.ids[u].size(), a));
                r.e->setTimeIntegrationSubvector(t, u, vec(r.ids[u].size(), b));
                same("facedata", K, 1, t * 10 + u, B->getTimeIntegrationVector(t, u), a);
                a.insert(a.end(), b.begin(), b.end());
                same("facedata", K, 0, t * 10 + u, F->getTimeIntegrationVector(t, u), a);
            }
        std::vector<double> V[3];
        for (std::size_t i = 0; i < 3; ++i) F->setFaceVector(vec(4, V[i]), i);
        for (std::size_t i = 0; i < 3; ++i) same("facevector", K, 0, i, F->getFaceVector(i), V[i]);
        std::vector<double> R;
        MV res = vec(5, R);
        F->setResidue(res);
        same("facevector", K, 1, 0, F->getResidue(), R);
        for (std::size_t i = 0; i < 3; ++i) same("facevector", K, 2, i, F->getFaceVector(i), V[i]);
    });
}
static void matrices(std::size_t nl, std::size_t nr) {
    const long K = 200 + nl * 10 + nr;
    const Side S[2] = {Side::LEFT, Side::RIGHT};
    const std::size_t n[2] = {nl, nr}, o[2] = {0, nl}, N = nl + nr;
    auto whole = [&](long step, Base::FaceMatrix& m, const std::vector<double>& ref) {
        eqi("size", K, step, 60, m.getNumberOfDegreesOfFreedom(Side::LEFT) * 10 + m.getNumberOfDegreesOfFreedom(Side::RIGHT), K - 200);
        same("facematrix.entire", K, step, 0, m.getEntireMatrix(), N, N, ref);
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < N; ++j) eq("facematrix.entry", K, step, i * 10 + j, re(m(i, j)), ref[i * N + j]);
        const Base::FaceMatrix& c = m;
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b) {
                std::vector<double> block;
                for (std::size_t i = 0; i < n[a]; ++i)
                    for (std::size_t j = 0; j < n[b]; ++j) {
                        block.push_back(ref[(o[a] + i) * N + o[b] + j]);
                        eq("facematrix.side", K, step, (a * 2 + b) * 100 + i * 10 + j, re(m(S[a], S[b], i, j)), block.back());
                    }
                same("facematrix.block", K, step, a * 2 + b, c.getElementMatrix(S[a], S[b]), n[a], n[b], block);
                same("facematrix.block", K, step, 4 + a * 2 + b, m.getElementMatrix(S[a], S[b]), n[a], n[b], block);
            }
    };
    TRYC("facematrix", K, {
        Base::FaceMatrix m(nl, nr);
        std::vector<double> R(N * N, 0.);
        whole(0, m, R);
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < N; ++j) {
                R[i * N + j] = vt_sym(fresh);
                m(i, j) = vt_sym(fresh++);
            }
        whole(1, m, R);
        std::vector<double> block;
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b) {
                m.setElementMatrix(matr(n[a], n[b], block), S[a], S[b]);
                for (std::size_t i = 0; i < n[a]; ++i)
                    for (std::size_t j = 0; j < n[b]; ++j) R[(o[a] + i) * N + o[b] + j] = block[i * n[b] + j];
            }
        whole(2, m, R);
        m.setEntireMatrix(matr(N, N, R));
        whole(3, m, R);
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b)
                for (std::size_t i = 0; i < n[a]; ++i)
                    for (std::size_t j = 0; j < n[b]; ++j) {
                        R[(o[a] + i) * N + o[b] + j] = vt_sym(fresh);
                        m(S[a], S[b], i, j) = vt_sym(fresh++);
                    }
        whole(4, m, R);
        std::vector<double> Q;
        Base::FaceMatrix k;
        k.resize(nl, nr);
        k.setEntireMatrix(matr(N, N, Q));
        whole(5, k, Q);
        Base::FaceMatrix copy(m);
        Base::FaceMatrix assigned;
        assigned = m;
        copy(0, 0) = vt_sym(fresh);
        whole(6, m, R);
        std::vector<double> R2 = R;
        R2[0] = vt_sym(fresh++);
        whole(7, copy, R2);
        whole(8, assigned, R);
        m += k;
        for (std::size_t i = 0; i < N * N; ++i) R[i] += Q[i];
        whole(9, m, R);
        whole(10, k, Q);
        const double s = vt_sym(fresh++);
        m *= s;
        for (double& x : R) x = x * s;
        whole(11, m, R);
        m.axpy(s, k);
        for (std::size_t i = 0; i < N * N; ++i) R[i] += s * Q[i];
        whole(12, m, R);
        whole(13, k, Q);
        // stored on a face
        Who l = make(0, {0, 1, 3}, 1, 1);
        Who r = make(1, {3, 4, 1}, 1, 2);
        Base::Face* F = new Base::Face(l.e, 2, r.e, 1, 5, 1, 1);
        F->setFaceMatrix(m, 0);
        F->setFaceMatrix(k, 2);  // not allocated beforehand
        whole(14, F->getFaceMatrix(0), R);
        whole(15, F->getFaceMatrix(2), Q);
        same("facematrix.entire", K, 16, 0, F->getFaceMatrixMatrix(2), N, N, Q);
        F->setFaceMatrix(k, 0);
        whole(17, F->getFaceMatrix(0), Q);
    });
}
static void indexing() {
    std::vector<Who> W;
    for (int k = 0; k < 4; ++k) W.push_back(make(k, {0, 1, 3}, 1, k));
    const std::vector<std::vector<std::size_t>> U{{0, 1, 2}, {2, 0}, {1}, {}, {2, 1}, {0}};
    const std::size_t NONE = Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED;
    auto has = [&](const std::vector<std::size_t>& u, std::size_t k) {
        for (std::size_t x : u)
            if (x == k) return true;
        return false;
    };
    // expected offset/size
    auto offset = [&](const Who& w, const std::vector<std::size_t>& u, std::size_t k) {
        std::size_t n = 0;
        for (std::size_t x = 0; x < k; ++x)
            if (has(u, x)) n += w.ids[x].size();
        return n;
    };
    auto elem = [&](long key, const Utilities::ElementLocalIndexing& I, const Who* w, const std::vector<std::size_t>& u) {
        std::size_t n = 0;
        for (std::size_t k = 0; k < 4; ++k) {
            const bool in = w && has(u, k);
            eqi("elementindex", key, 0, k, I.getDoFOffset(k), in ? offset(*w, u, k) : NONE);
            eqi("elementindex", key, 1, k, I.getNumberOfDoFs(k), in ? w->ids[k].size() : 0);
            if (in) n += w->ids[k].size();
        }
        eqi("elementindex", key, 2, 0, I.getNumberOfDoFs(), n);
        eqi("elementindex", key, 2, 1, I.getIncludedUnknowns().size(), u.size());
        eqi("elementindex", key, 2, 2, I.getElement() == (w ? w->e : nullptr), 1);
    };
    TRYC("elementindex", 300, {
        Utilities::ElementLocalIndexing I;
        long key = 300;
        for (std::size_t a = 0; a < U.size(); ++a) {
            I.reinit(U[a]);
            if (a > 0) elem(key++, I, &W[3], U[a]);
            for (int k = 0; k < 4; ++k) {
                I.reinit(W[k].e);
                elem(key++, I, &W[k], U[a]);
            }
            const Base::Element* none = nullptr;
            I.reinit(none);
            elem(key++, I, nullptr, U[a]);
            I.reinit(W[3].e, U[a]);
            elem(key++, I, &W[3], U[a]);
        }
    });
    TRYC("faceindex", 400, {
        Utilities::FaceLocalIndexing I;
        long key = 400;
        std::vector<Base::Face*> F;
        std::vector<const Who*> LW;
        std::vector<const Who*> RW;
        for (int a = 0; a < 4; ++a)
            for (int b = 0; b < 4; b += 2) {
                Who* r = new Who(make(b, {3, 4, 1}, 1, 20));
                F.push_back(new Base::Face(W[a].e, 2, r->e, 1, 5));
                LW.push_back(&W[a]);
                RW.push_back(r);
            }
        F.push_back(new Base::Face(W[2].e, 0, Geometry::FaceType::WALL_BC, 6));
        LW.push_back(&W[2]);
        RW.push_back(nullptr);
        for (std::size_t a = 0; a < U.size(); ++a) {
            I.reinit(U[a]);
            for (std::size_t f = 0; f < F.size(); ++f) {
                I.reinit(F[f]);
                ++key;
                std::size_t nl = 0;
                std::size_t nr = 0;
                for (std::size_t k : U[a]) {
                    nl += LW[f]->ids[k].size();
                    if (RW[f]) nr += RW[f]->ids[k].size();
                }
                eqi("faceindex", key, 0, 0, I.getNumberOfDoFs(), nl + nr);
                eqi("faceindex", key, 0, 1, I.getNumberOfDoFs(Side::LEFT), nl);
                if (RW[f]) eqi("faceindex", key, 0, 2, I.getNumberOfDoFs(Side::RIGHT), nr);
                eqi("faceindex", key, 0, 3, I.getFace() == F[f], 1);
                for (std::size_t k : U[a]) {
                    eqi("faceindex", key, 1, k, I.getDoFOffset(k, Side::LEFT), offset(*LW[f], U[a], k));
                    eqi("faceindex", key, 2, k, I.getNumberOfDoFs(k, Side::LEFT), LW[f]->ids[k].size());
                    std::vector<std::size_t> m;
                    I.getDoFMapping(k, m);
                    const std::size_t cl = LW[f]->ids[k].size(), cr = RW[f] ? RW[f]->ids[k].size() : 0;
                    eqi("faceindex", key, 5, k, m.size(), cl + cr);
                    for (std::size_t i = 0; i < m.size() && i < cl + cr; ++i) eqi("faceindex", key, 10 + k, i, m[i], i < cl ? offset(*LW[f], U[a], k) + i : nl + offset(*RW[f], U[a], k) + i - cl);
                    if (RW[f]) {
                        eqi("faceindex", key, 3, k, I.getDoFOffset(k, Side::RIGHT), nl + offset(*RW[f], U[a], k));
                        eqi("faceindex", key, 4, k, I.getNumberOfDoFs(k, Side::RIGHT), RW[f]->ids[k].size());
                    }
                }
            }
        }
    });
    TRYC("table", 900, {
        Utilities::Table2D<double> T(2, 3, 1.5);
        for (std::size_t i = 0; i < 2; ++i)
            for (std::size_t j = 0; j < 3; ++j) eq("table", 900, 0, i * 10 + j, T(i, j), 1.5);
        auto fillAll = [&](long step, std::size_t r, std::size_t c) {
            std::vector<double> ref;
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < c; ++j) {
                    ref.push_back(vt_sym(fresh));
                    T(i, j) = vt_sym(fresh++);
                }
            const auto& C = T;
            for (std::size_t i = 0; i < r; ++i)
                for (std::size_t j = 0; j < c; ++j) {
                    eq("table", 900, step, i * 10 + j, C(i, j), ref[i * c + j]);
                    eq("table", 900, step, 100 + i * 10 + j, T(i, j), ref[i * c + j]);
                }
            eqi("table", 900, step, 300, T.getNumberOfRows() * 100 + T.getNumberOfColumns() * 10 + T.getSize(), r * 100 + c * 10 + r * c);
        };
        fillAll(1, 2, 3);
        T.resize(4, 2);
        fillAll(2, 4, 2);
        T = 2.5;
        for (std::size_t i = 0; i < 8; ++i) eq("table", 900, 3, i, T[i], 2.5);
    });
}
extern "C" void probe_storage() {
    for (int k = 0; k < 4; ++k) elements(k);
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b) faces(a, b);
    matrices(2, 3);
    matrices(3, 1);
    matrices(1, 2);
    indexing();
}

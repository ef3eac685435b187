// The problems of the applications on meshes with opaque basis functions: what they assemble, each together with its definition.
// symbols: coefficients 3000+200t+40e+i; time 250; material 251; basis functions 1000.. (elem.h)
#include "elem.h"
#include <deque>
#define private public
#define protected public
#include "mesh.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/CommandLineOptions.h"
#include "meshcases.inc"
const MeshCase* ::vts::current = nullptr;
#define main appMain
#if APP == 1
#include APPFILE
static const std::size_t DIMS = 2, VARS = 1;
static TutorialPoisson* make() { return new TutorialPoisson(4, 2); }
static const double ONBOUNDARY = 1.;
static double penalty() { return make()->penalty_; }
#elif APP == 2
#include APPFILE
static const std::size_t DIMS = 3, VARS = 1;
static PoissonTest* make() { return new PoissonTest(3, 4, 2); }
static const double ONBOUNDARY = 2.;
static double penalty() { return make()->penalty_; }
#elif APP == 3
#include APPFILE
static const std::size_t DIMS = 2, VARS = 1;
static TutorialAdvection* make() { return new TutorialAdvection(2); }
#elif APP == 4 || APP == 5
#include APPFILE
static const std::size_t DIMS = AXES, VARS = AXES + 1;
#if APP == 4
typedef AcousticWave<AXES> App;
#else
typedef AcousticWaveLinear<AXES> App;
#endif
static App* make() {
    App* a = new App(VARS, 2, TimeIntegration::AllTimeIntegrators::Instance().getRule(1, 1));
    a->setMaterialParameter(vt_sym(251));
    return a;
}
#elif APP == 6
#include APPFILE
static const std::size_t DIMS = AXES, VARS = AXES + 2;
static Euler<AXES>* make() { return new Euler<AXES>(VARS, 1., 2, TimeIntegration::AllTimeIntegrators::Instance().getRule(1, 1)); }
#endif
#undef main
#undef private
#undef protected
using namespace op;
typedef LinearAlgebra::MiddleSizeVector MV;
typedef LinearAlgebra::MiddleSizeMatrix MM;
static long num(const Base::Element* e, const Base::Element* first) { return (long)e->getID() - (long)first->getID(); }
struct At {
    const Base::Element* e;
    Base::PhysicalElement<DIMS> p;
    At(const Base::Element* el) : e(el) {
        for (std::size_t u = 0; u < el->getNumberOfUnknowns(); ++u) p.setTransformation(std::make_shared<Base::H1ConformingTransformation<DIMS>>(), u);
        p.setElement(el);
    }
    double v(std::size_t i) { return p.basisFunction(i); }
    SV<DIMS> d(std::size_t i) { return p.basisFunctionDeriv(i); }
    std::size_t n() const { return e->getNumberOfBasisFunctions(); }
};
template <class F>
void element(const Base::Element* e, F f) {
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        At a(e);
        const PR<DIMS>& x = rule->getPoint(q);
        a.p.setPointReference(x);
        const double det = e->calcJacobian(x).determinant();
        f(a, rule->weight(q) * (det < 0 ? -det : det));
    }
}
struct Trace {
    std::deque<At> side;
    SV<DIMS> n;
    Geometry::PointPhysical<DIMS> x;
    double sign(int s) const { return s ? -1. : 1.; }
};
template <class F>
void face(const Base::Face* f, F g) {
    auto* rule = f->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        Trace t;
        const PR<DIMS - 1>& x = rule->getPoint(q);
        t.side.emplace_back(f->getPtrElementLeft());
        t.side.back().p.setPointReference(f->mapRefFaceToRefElemL(x));
        t.x = f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(x));
        if (f->isInternal()) {
            t.side.emplace_back(f->getPtrElementRight());
            t.side.back().p.setPointReference(f->mapRefFaceToRefElemR(x));
        }
        t.n = f->getNormalVector(x);
        const double len = t.n.l2Norm();
        t.n /= len;
        g(t, rule->weight(q) * len);
    }
}
typedef std::vector<std::vector<double>> M;
static M zero(std::size_t r, std::size_t c) { return M(r, std::vector<double>(c, 0.)); }
static long cfg;
static void same(const char* t, long i, const MM& got, const M& want) {
    eqi(t, cfg * 100 + i, 0, 99990, got.getNumberOfRows(), want.size());
    if (!want.empty()) eqi(t, cfg * 100 + i, 0, 99991, got.getNumberOfColumns(), want[0].size());
    for (std::size_t r = 0; r < want.size() && r < got.getNumberOfRows(); ++r)
        for (std::size_t c = 0; c < want[r].size() && c < got.getNumberOfColumns(); ++c) eq(t, cfg * 100 + i, r, c, got(r, c), want[r][c]);
}
static void same(const char* t, long i, const MV& got, const std::vector<double>& want) {
    eqi(t, cfg * 100 + i, 0, 99990, got.size(), want.size());
    for (std::size_t r = 0; r < want.size() && r < got.size(); ++r) eq(t, cfg * 100 + i, r, 0, got[r], want[r]);
}
#if APP == 6
// given values and opaque derivatives
struct Known : FE::BaseBasisFunction {
    long id_;
    explicit Known(long id) : id_(id) {}
    double eval(const PR<1>&) const final { return 1. + .5 * id_; }
    double eval(const PR<2>&) const final { return 1. + .5 * id_; }
    double eval(const PR<3>&) const final { return 1. + .5 * id_; }
    SV<1> evalDeriv(const PR<1>& p) const final { return fv(id_, DERIV, PR<1>()); }
    SV<2> evalDeriv(const PR<2>& p) const final { return fv(id_, DERIV, PR<2>()); }
    SV<3> evalDeriv(const PR<3>& p) const final { return fv(id_, DERIV, PR<3>()); }
};
#else
typedef Fun Known;
#endif
static const FE::BasisFunctionSet* mk(long first, long n) {
    auto* s = new FE::BasisFunctionSet(1);
    for (long i = 0; i < n; ++i) s->addBasisFunction(new Known(first + i));
    return s;
}
template <class A>
struct World {
    Base::MeshManipulator<DIMS>* mesh;
    std::vector<Base::Element*> els;
    World(A& app) {
        mesh = new Base::MeshManipulator<DIMS>(app.configData_, 3, 3, 2, 2);
        mesh->readMesh("mesh.hpgem");
        app.meshes_.push_back(mesh);
        std::size_t first = mesh->collBasisFSet_.size();
        mesh->collBasisFSet_.emplace_back(mk(0, APP == 6 ? 2 : 3));
        mesh->collBasisFSet_.emplace_back(mk(3, APP == 6 ? 1 : 2));
        for (Base::Element* e : mesh->getElementsList()) {
            els.push_back(e);
            e->setDefaultBasisFunctionSet(first + (els.size() + 1) % 2);
            e->setNumberOfTimeIntegrationVectors(2);
            // not what is given as the coefficients of the solution
            for (std::size_t t = 0; t < 2; ++t) {
                MV v = c(e, t);
                e->setTimeIntegrationVector(t, v);
            }
        }
    }
    long number(const Base::Element* e) { return num(e, els[0]); }
    MV c(const Base::Element* e, std::size_t t) {
        MV v(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(3000 + 500 * t + 40 * number(e) + i);
        return v;
    }
};
// value and gradient of variable u with coefficients c
static double value(At& a, const MV& c, std::size_t u) {
    double r = 0;
    for (std::size_t i = 0; i < a.n(); ++i) r += c[u * a.n() + i] * a.v(i);
    return r;
}
static SV<DIMS> gradient(At& a, const MV& c, std::size_t u) {
    SV<DIMS> r;
    for (std::size_t i = 0; i < a.n(); ++i) r += c[u * a.n() + i] * a.d(i);
    return r;
}
template <class A>
void linearForms(A& app, World<A>& W, const std::function<double(At&, std::size_t, std::size_t)>& el, const std::function<double(Trace&, bool, int, std::size_t, int, std::size_t)>& fa) {
    for (Base::Element* e : W.els)
        TRYC("element", cfg * 100 + W.number(e), {
            std::size_t n = e->getTotalNumberOfBasisFunctions();
            M r = zero(n, n);
            element(e, [&](At& a, double w) {
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < n; ++j) r[i][j] += w * el(a, i, j);
            });
            same("element", W.number(e), app.computeStiffnessMatrixAtElement(e), r);
        });
    long k = 0;
    for (Base::Face* f : W.mesh->getFacesList()) {
        TRYC("face", cfg * 100 + k, {
            std::size_t l = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), n = l + (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0);
            M r = zero(n, n);
            face(f, [&](Trace& t, double w) {
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < n; ++j) r[i][j] += w * fa(t, f->isInternal(), i >= l, i >= l ? i - l : i, j >= l, j >= l ? j - l : j);
            });
            same("face", k, app.computeStiffnessMatrixAtFace(f).getEntireMatrix(), r);
        });
        ++k;
    }
}
static void go() {
    auto& app = *make();
    typedef std::remove_reference<decltype(app)>::type A;
    World<A> W(app);
#if APP == 1 || APP == 2
    const double pen = penalty();
    eqi("penalty", cfg * 100, 0, 0, pen > 3. * 4 * 2 * (2 + DIMS - 1), 1);
    linearForms<A>(
        app, W, [](At& a, std::size_t i, std::size_t j) { return a.d(i) * a.d(j); },
        [pen](Trace& t, bool internal, int si, std::size_t i, int sj, std::size_t j) -> double {
            At &a = t.side[si], &b = t.side[sj];
            const double ni = t.sign(si) * a.v(i), nj = t.sign(sj) * b.v(j);
            if (internal) return -.5 * (ni * (t.n * b.d(j)) + nj * (t.n * a.d(i))) + pen * ni * nj;
            const double x = t.x[0];
            if (!((x < 1e-6 && x > -1e-6) || (x > 1 - 1e-6 && x < 1 + 1e-6))) return 0.;
            return -(ni * (t.n * b.d(j)) + nj * (t.n * a.d(i))) + ONBOUNDARY * pen * ni * nj;
        });
    long k = 0;
    for (Base::Face* f : W.mesh->getFacesList()) {
        TRYC("facesource", cfg * 100 + k, {
            std::size_t n = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions() + (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0);
            same("facesource", k, app.integrateSourceTermAtFace(f, 0., 0), std::vector<double>(n, 0.));
        });
        ++k;
    }
#elif APP == 3
    SV<DIMS> v;
    for (std::size_t i = 0; i < DIMS; ++i) v[i] = 0.1 + 0.1 * i;
    linearForms<A>(
        app, W, [v](At& a, std::size_t i, std::size_t j) { return a.v(j) * (v * a.d(i)); },
        [v](Trace& t, bool internal, int si, std::size_t i, int sj, std::size_t j) -> double {
            // i: test function, j: the solution, taken from upwind
            const double an = v * t.n;
            const double w = an > 1e-10 ? (sj == 0) : an < -1e-10 ? (sj == 1) : .5;
            return -w * an * t.sign(si) * t.side[si].v(i) * t.side[sj].v(j);
        });
#elif APP == 4 || APP == 5
    const double c = 1. / vt_sym(251), time = vt_sym(250);
    app.tasksBeforeSolving();
    for (Base::Element* e : W.els) {
        const std::size_t b = e->getNumberOfBasisFunctions(), n = b * VARS;
        TRYC("mass", cfg * 100 + W.number(e), {
            M r = zero(n, n);
            element(e, [&](At& a, double w) {
                for (std::size_t u = 0; u < VARS; ++u)
                    for (std::size_t i = 0; i < b; ++i)
                        for (std::size_t j = 0; j < b; ++j) r[u * b + i][u * b + j] += w * a.v(i) * a.v(j) * (u ? c : 1.);
            });
            same("mass", W.number(e), app.computeMassMatrixAtElement(e), r);
        });
        TRYC("initial", cfg * 100 + W.number(e), {
            std::vector<double> r(n, 0.);
            element(e, [&](At& a, double w) {
                MV u0 = app.getInitialSolution(a.p.getPointPhysical(), time);
                for (std::size_t u = 0; u < VARS; ++u)
                    for (std::size_t i = 0; i < b; ++i) r[u * b + i] += w * a.v(i) * u0[u] * (u ? c : 1.);
            });
            same("initial", W.number(e), app.integrateInitialSolutionAtElement(e, time, 0), r);
        });
    }
    // test function i of variable u against function j of variable v
    auto el = [](At& a, std::size_t u, std::size_t i, std::size_t v, std::size_t j) -> double {
        if (u == 0 && v > 0) return a.v(i) * a.d(j)[v - 1];
        if (u > 0 && v == 0) return a.v(i) * a.d(j)[u - 1];
        return 0.;
    };
    auto fa = [](Trace& t, bool internal, int si, std::size_t u, std::size_t i, int sj, std::size_t v, std::size_t j) -> double {
        const double x = t.side[si].v(i) * t.side[sj].v(j) * t.sign(sj);
        if (u == 0 && v > 0) return -(internal ? .5 : 1.) * x * t.n[v - 1];
        if (u > 0 && v == 0 && internal) return -.5 * x * t.n[u - 1];
        return 0.;
    };
#if APP == 5
    linearForms<A>(
        app, W, [el](At& a, std::size_t i, std::size_t j) { return el(a, i / a.n(), i % a.n(), j / a.n(), j % a.n()); },
        [fa](Trace& t, bool internal, int si, std::size_t i, int sj, std::size_t j) {
            const std::size_t a = t.side[si].n(), b = t.side[sj].n();
            return fa(t, internal, si, i / a, i % a, sj, j / b, j % b);
        });
#else
    for (Base::Element* e : W.els)
        TRYC("element", cfg * 100 + W.number(e), {
            const std::size_t n = e->getTotalNumberOfBasisFunctions();
            MV u = W.c(e, 2);
            std::vector<double> r(n, 0.);
            element(e, [&](At& a, double w) {
                for (std::size_t i = 0; i < n; ++i)
                    for (std::size_t j = 0; j < n; ++j) r[i] += w * u[j] * el(a, i / a.n(), i % a.n(), j / a.n(), j % a.n());
            });
            same("element", W.number(e), app.computeRightHandSideAtElement(e, u, time), r);
        });
    long k = 0;
    for (Base::Face* f : W.mesh->getFacesList()) {
        MV u[2];
        u[0] = W.c(f->getPtrElementLeft(), 2);
        if (f->isInternal()) u[1] = W.c(f->getPtrElementRight(), 2);
        for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s)
            TRYC("face", cfg * 100 + 2 * k + s, {
                const std::size_t n = u[s].size();
                std::vector<double> r(n, 0.);
                face(f, [&](Trace& t, double w) {
                    for (int o = 0; o < (int)t.side.size(); ++o)
                        for (std::size_t i = 0; i < n; ++i)
                            for (std::size_t j = 0; j < u[o].size(); ++j) r[i] += w * u[o][j] * fa(t, f->isInternal(), s, i / t.side[s].n(), i % t.side[s].n(), o, j / t.side[o].n(), j % t.side[o].n());
                });
                MV got = f->isInternal() ? app.computeRightHandSideAtFace(f, s ? Base::Side::RIGHT : Base::Side::LEFT, u[0], u[1], time) : app.computeRightHandSideAtFace(f, u[0], time);
                same("face", 2 * k + s, got, r);
            });
        ++k;
    }
#endif
#elif APP == 6
    const double time = vt_sym(250);
    for (Base::Element* e : W.els)
        TRYC("element", cfg * 100 + W.number(e), {
            const std::size_t n = e->getTotalNumberOfBasisFunctions();
            MV c = W.c(e, 2);
            std::vector<double> r(n, 0.);
            element(e, [&](At& a, double w) {
                double rho = value(a, c, 0), E = value(a, c, DIMS + 1), m2 = 0;
                SV<DIMS> m;
                MV q(VARS);
                for (std::size_t u = 0; u < VARS; ++u) q[u] = value(a, c, u);
                for (std::size_t k = 0; k < DIMS; ++k) m[k] = value(a, c, k + 1), m2 += m[k] * m[k];
                const double p = .4 * (E - .5 * m2 / rho);
                MV s = app.integrandSourceAtElement(a.p, q, p, time);
                for (std::size_t i = 0; i < a.n(); ++i) {
                    const SV<DIMS> g = a.d(i);
                    r[i] += w * (m * g);
                    for (std::size_t k = 0; k < DIMS; ++k) r[(k + 1) * a.n() + i] += w * (m[k] / rho * (m * g) + p * g[k]);
                    r[(DIMS + 1) * a.n() + i] += w * (E + p) / rho * (m * g);
                }
                for (std::size_t i = 0; i < n; ++i) r[i] += w * s[i];
            });
            same("element", W.number(e), app.computeRightHandSideAtElement(e, c, time), r);
        });
#endif
}
extern "C" void probe_apps() {
    for (int c = 0; c < numberOfCases; ++c) {
        ::vts::current = &cases[c];
        cfg = APP * 10 + c;
        if (cases[c].dim == (int)DIMS) vtmpi::run("apps", 1, c, [] { go(); });
    }
}

// Time stepping on simulated processes: what the user's functions are given and what becomes of their results.
#include "mesh.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/FaceMatrix.h"
#include <cmath>
#include <set>
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
static const long CODE = 128;
static const std::size_t STAGES = 3;
struct Opaque : TimeIntegration::ButcherTableau {
    std::size_t getOrder() const final { return 3; }
    std::size_t getNumberOfStages() const final { return STAGES; }
    bool getTotalVariationDiminishing() const final { return false; }
    double getA(std::size_t i, std::size_t j) const final { return vt_sym(100 + 10 * i + j); }
    double getB(std::size_t i) const final { return vt_sym(200 + i); }
    double getC(std::size_t i) const final { return vt_sym(220 + i); }
};
static const Opaque opaque{};
inline double U0(long e, std::size_t i) { return vt_sym(50000000 + e * 100 + i); }
static MiddleSizeMatrix mass(const Base::Element* e) {
    std::size_t n = e->getTotalNumberOfBasisFunctions();
    MiddleSizeMatrix M(n, n);
    for (std::size_t i = 0; i < n; ++i) M(i, i) = 1 << ((e->getID() + i) % 3);
    M(0, 1) = 1.;
    return M;
}
template <std::size_t DIM, class API>
struct Shown : API {
    long q = 0;
    template <class... A>
    explicit Shown(A... a) : API(a...) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    void show(const char* tag, long q, std::size_t id) {
        for (Base::Element* e : mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            const MiddleSizeVector& v = e->getTimeIntegrationVector(id);
            for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(tag, q, e->getID(), i, v[i]);
        }
    }
    void set(std::size_t id, long shift) {
        for (Base::Element* e : mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(50000000 + shift * 1000000 + (long)e->getID() * 100 + i);
            e->setTimeIntegrationVector(id, v);
        }
    }
    void topology(long q) {
        for (Base::Face* f : mesh().getFacesList()) {
            vt_emit_i("f", q, f->getID(), 0, f->getPtrElementLeft()->getID());
            if (f->isInternal()) vt_emit_i("f", q, f->getID(), 1, f->getPtrElementRight()->getID());
        }
        for (Base::Element* e : mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            vt_emit_i("n", q, e->getID(), 0, e->getTotalNumberOfBasisFunctions());
            if (e->isOwnedByCurrentProcessor()) vt_emit_i("e", q, e->getID(), 0, 1);
        }
    }
};
template <std::size_t DIM>
struct Explicit : Shown<DIM, Base::HpgemAPISimplified<DIM>> {
    long stage = 0, q;
    std::set<std::size_t> seen;
    Explicit(long q, bool both) : Shown<DIM, Base::HpgemAPISimplified<DIM>>((std::size_t)2, (std::size_t)1, (const TimeIntegration::ButcherTableau*)&opaque, (std::size_t)2, both), q(q) {}
    MiddleSizeMatrix computeMassMatrixAtElement(Base::Element* e) override { return mass(e); }
    static MiddleSizeVector value(const Base::Element* e, long base) {
        MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(base + i);
        return v;
    }
    void in(const char* tag, long entity, long k, const MiddleSizeVector& v) {
        for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(tag, q + stage, entity, k + i, v[i]);
    }
    MiddleSizeVector computeRightHandSideAtElement(Base::Element* e, const MiddleSizeVector& c, const double time) override {
        if (!seen.insert(e->getID()).second) {  // a second visit: the next stage
            ++stage;
            seen.clear();
            seen.insert(e->getID());
        }
        in("in.e", e->getID(), 0, c);
        vt_emit_d("t.e", q + stage, e->getID(), 0, time);
        return value(e, 10000000 + stage * 1000000 + (long)e->getID() * 100);
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, MiddleSizeVector& c, const double time) override {
        in("in.l", f->getID(), 0, c);
        vt_emit_d("t.f", q + stage, f->getID(), 0, time);
        vt_emit_i("side", q + stage, f->getID(), 3, 1);
        return value(f->getPtrElementLeft(), 20000000 + stage * 1000000 + (long)f->getID() * 200);
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, const Base::Side s, MiddleSizeVector& l, MiddleSizeVector& r, const double time) override {
        in("in.l", f->getID(), s == Base::Side::LEFT ? 0 : 100, l);
        in("in.r", f->getID(), s == Base::Side::LEFT ? 0 : 100, r);
        vt_emit_d("t.f", q + stage, f->getID(), s == Base::Side::LEFT ? 0 : 1, time);
        vt_emit_i("side", q + stage, f->getID(), s == Base::Side::LEFT ? 0 : 1, 1);
        return value(f->getPtrElement(s), 20000000 + stage * 1000000 + (long)f->getID() * 200 + (s == Base::Side::LEFT ? 0 : 100));
    }
    std::pair<MiddleSizeVector, MiddleSizeVector> computeBothRightHandSidesAtFace(Base::Face* f, MiddleSizeVector& l, MiddleSizeVector& r, const double time) override {
        in("in.l", f->getID(), 0, l);
        in("in.r", f->getID(), 0, r);
        vt_emit_d("t.f", q + stage, f->getID(), 0, time);
        vt_emit_i("side", q + stage, f->getID(), 2, 1);
        long b = 20000000 + stage * 1000000 + (long)f->getID() * 200;
        return std::make_pair(value(f->getPtrElementLeft(), b), value(f->getPtrElementRight(), b + 100));
    }
    MiddleSizeVector integrateInitialSolutionAtElement(Base::Element* e, const double t, const std::size_t order) override {
        vt_emit_d("t.init", q, e->getID(), order, t);
        return value(e, 40000000 + (long)e->getID() * 100);
    }
    LinearAlgebra::MiddleSizeVector::type integrateErrorAtElement(Base::Element* e, MiddleSizeVector& c, const double t) override {
        in("in.err", e->getID(), 0, c);
        vt_emit_d("t.err", q, e->getID(), 0, t);
        return (double)(e->getID() + 1);
    }
    MiddleSizeVector computeMaxErrorAtElement(Base::Element* e, const MiddleSizeVector& c, const double t) override {
        in("in.max", e->getID(), 0, c);
        vt_emit_d("t.max", q, e->getID(), 0, t);
        MiddleSizeVector r(2);
        r[0] = 1. + (e->getID() * 7) % 5;
        r[1] = 20. - e->getID();
        return r;
    }
};
template <std::size_t DIM>
struct Linear : Shown<DIM, Base::HpgemAPILinear<DIM>> {
    long q;
    Linear(long q) : Shown<DIM, Base::HpgemAPILinear<DIM>>((std::size_t)2, (std::size_t)1, (const TimeIntegration::ButcherTableau*)&opaque, (std::size_t)0, true, true), q(q) {}
    MiddleSizeMatrix computeMassMatrixAtElement(Base::Element* e) override { return mass(e); }
    MiddleSizeMatrix computeStiffnessMatrixAtElement(Base::Element* e) override {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        MiddleSizeMatrix M(n, n);
        double s = vt_sym(10000000 + e->getID());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) M(i, j) = s * (double)(i * CODE + j + 1);
        return M;
    }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        std::size_t l = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), r = f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0;
        Base::FaceMatrix M(l, r);
        double s = vt_sym(20000000 + f->getID());
        for (std::size_t i = 0; i < l + r; ++i)
            for (std::size_t j = 0; j < l + r; ++j) M(i, j) = s * (double)(i * CODE + j + 1);
        return M;
    }
    MiddleSizeVector integrateSourceTermAtElement(Base::Element* e, const double time, const std::size_t) override {
        return Explicit<DIM>::value(e, 30000000 + (long)e->getID() * 100) * time;
    }
    MiddleSizeVector integrateSourceTermAtFace(Base::Face* f, const double time, const std::size_t) override {
        return Explicit<DIM>::value(f->getPtrElementLeft(), 40000000 + (long)f->getID() * 100) * time;
    }
};
// symbols only for the numbers of one variable per element keep the products small
template <std::size_t DIM>
__attribute__((noinline)) void one(int c, int both) {
    vtmpi::run("timestep", cases[c].size, 2 * c + both, [c, both]() {
        long q = ((long)(2 * c + both) * 10 + vtmpi::rank()) * 100;
        {
            Explicit<DIM> s(q, both);
            s.readMesh("mesh.hpgem");
            s.topology(q);
            // initial solution
            s.setInitialSolution(0, vt_sym(253), 1);
            s.show("init", q, 0);
            // one step from known data
            s.set(0, 0);
            double t = vt_sym(251);
            s.computeOneTimeStep(t, vt_sym(250));
            vt_emit_d("time", q, 0, 0, t);
            s.show("u", q, 0);
            // a time derivative of a single vector
            s.stage = 5;
            s.seen.clear();
            s.set(1, 2);
            s.computeTimeDerivative((std::size_t)1, (std::size_t)2, vt_sym(251));
            s.show("k", q + 5, 2);
            // vector operations; the ghosts hold other data before
            s.set(1, 2);
            s.set(2, 3);
            s.scaleVector(1, vt_sym(254));
            s.show("scale", q, 1);
            s.scaleAndAddVector(2, 1, vt_sym(255));
            s.show("add", q, 2);
            s.show("scale", q + 1, 1);
            s.set(0, 4);
            vt_emit_d("error", q, 0, 0, s.computeTotalError(0, vt_sym(256)));
            {
                MiddleSizeVector largest = s.computeMaxError(0, vt_sym(256));
                for (std::size_t i = 0; i < largest.size(); ++i) vt_emit_d("largest", q, 0, i, largest[i]);
            }
            // synchronisation overwrites what the ghosts hold
            for (Base::Element* e : s.mesh().getElementsList(Base::IteratorType::GLOBAL)) {
                MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
                if (e->isOwnedByCurrentProcessor())
                    for (std::size_t i = 0; i < v.size(); ++i) v[i] = U0(e->getID(), i);
                e->setTimeIntegrationVector(2, v);
            }
            s.synchronize(2);
            s.show("sync", q, 2);
            s.show("sync.other", q, 0);
            // storing as time level and restoring
            s.copyTimeIntegrationToTimeLevelData(2, 1);
            s.copyTimeIntegrationToTimeLevelData(0, 0);
            s.copyTimeLevelToTimeIntegrationData(1, 3);
            for (Base::Element* e : s.mesh().getElementsList()) {
                for (int l = 0; l < 2; ++l) {
                    const MiddleSizeVector& v = e->getTimeLevelDataVector(l);
                    for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(l ? "level1" : "level0", q, e->getID(), i, v[i]);
                }
                const MiddleSizeVector& v = e->getTimeIntegrationVector(3);
                for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d("restored", q, e->getID(), i, v[i]);
            }
        }
        if (!both) {
            Linear<DIM> s(q + 50);
            s.readMesh("mesh.hpgem");
            s.topology(q + 50);
            s.createMassMatrices();
            s.createStiffnessMatrices();
            s.set(0, 0);
            s.set(1, 1);
            s.computeRightHandSide(0, 2, vt_sym(251));
            s.show("lin", q + 50, 2);
            s.computeRightHandSide(std::vector<std::size_t>{0, 1}, std::vector<double>{2., -3.}, 3, vt_sym(251));
            s.show("lin", q + 51, 3);
            s.set(1, 1);
            s.solveMassMatrixEquations(1);
            s.show("solved", q + 50, 1);
        }
    });
}
extern "C" void probe_timestep() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        for (int o = 0; o < 2; ++o) {
            vt_emit_i("try.timestep", c, o, 0, 1);
            if (cases[c].dim == 1) one<1>(c, o);
            if (cases[c].dim == 2) one<2>(c, o);
            if (cases[c].dim == 3) one<3>(c, o);
        }
    }
}

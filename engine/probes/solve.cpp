// The loop over the time steps and adaptive steps on simulated processes.
namespace std {
struct vts_ofstream {
    explicit vts_ofstream(const std::string&) {}
};
}
#define ofstream vts_ofstream
#define private public
#define protected public
#include "mesh.h"
#include "Base/HpgemAPISimplified.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
namespace Base = hpgem::Base;
static long now = 0, count = 0;
void vts::tecplot(double t) { vt_emit_d("tecplot", now, count, 0, t); }
struct Pair : TimeIntegration::ButcherTableau {
    std::size_t getOrder() const final { return 2; }
    std::size_t getNumberOfStages() const final { return 3; }
    bool getTotalVariationDiminishing() const final { return false; }
    bool hasErrorEstimate() const final { return true; }
    double getA(std::size_t i, std::size_t j) const final { return i == 1 ? 0.5 : j == 0 ? 0.25 : 0.5; }
    double getB(std::size_t i) const final { return i == 0 ? 0.25 : i == 1 ? 0.5 : 0.25; }
    double getC(std::size_t i) const final { return i == 0 ? 0. : i == 1 ? 0.5 : 0.75; }
    double getErrorCoefficient(std::size_t i) const final { return i == 0 ? 0.5 : i == 1 ? -1. : 0.5; }
};
static const Pair pair{};
template <std::size_t DIM>
struct Adaptive : Base::HpgemAPISimplified<DIM> {
    long steps = 0;
    Adaptive() : Base::HpgemAPISimplified<DIM>((std::size_t)1, (std::size_t)1, (const TimeIntegration::ButcherTableau*)&pair, (std::size_t)0, true) {}
    MiddleSizeMatrix computeMassMatrixAtElement(Base::Element* e) override {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        MiddleSizeMatrix M(n, n);
        for (std::size_t i = 0; i < n; ++i) M(i, i) = 2.;
        return M;
    }
    MiddleSizeVector computeRightHandSideAtElement(Base::Element* e, const MiddleSizeVector& c, const double time) override {
        MiddleSizeVector v(c.size());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = 2. * (c[i] * -(double)(e->getID() % 3 + 1) + time * (double)(i + 1));
        return v;
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, MiddleSizeVector& c, const double) override { return c * 0.; }
    std::pair<MiddleSizeVector, MiddleSizeVector> computeBothRightHandSidesAtFace(Base::Face* f, MiddleSizeVector& l, MiddleSizeVector& r, const double) override { return std::make_pair(l * 0., r * 0.); }
    void computeOneTimeStep(double& t, const double dt) override {
        ++steps;
        Base::HpgemAPISimplified<DIM>::computeOneTimeStep(t, dt);
    }
    void computeOneTimeStep(double& t, const double e, const double dt) override { Base::HpgemAPISimplified<DIM>::computeOneTimeStep(t, e, dt); }
    void show(const char* tag, long q, std::size_t id) {
        for (Base::Element* e : this->meshes_[0]->getElementsList(Base::IteratorType::GLOBAL)) {
            const MiddleSizeVector& v = e->getTimeIntegrationVector(id);
            for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(tag, q, e->getID(), i, v[i]);
        }
    }
};
template <std::size_t DIM>
struct Loop : Base::HpgemAPISimplified<DIM> {
    Loop() : Base::HpgemAPISimplified<DIM>((std::size_t)1, (std::size_t)1, (const TimeIntegration::ButcherTableau*)&pair, (std::size_t)0, true) { this->outputFileName_ = "out"; }
    void computeOneTimeStep(double& t, const double dt) override {
        vt_emit_d("step", now, count, 0, dt);
        vt_emit_d("step", now, count, 1, t);
        ++count;
        t += dt;
    }
    void computeOneTimeStep(double& t, const double e, const double dt) override {
        vt_emit_d("most", now, count, 0, dt);
        vt_emit_d("most", now, count, 1, t);
        vt_emit_d("tol", now, count, 0, e);
        double d = std::min(dt, count % 3 == 1 ? 0.04 : count % 3 == 2 ? 0.11 : dt);
        ++count;
        t += d;
    }
    void setInitialSolution(const std::size_t id, const double t, const std::size_t order) override { vt_emit_d("start", now, id, order, t); }
    void tasksBeforeSolving() override { vt_emit_i("before", now, 0, 0, count); }
    void tasksAfterSolving() override { vt_emit_i("after", now, 0, 0, count); }
    void registerVTKWriteFunctions() override {}
    void VTKWrite(Output::VTKTimeDependentWriter<DIM>&, double t, std::size_t id) override {
        vt_emit_d("vtk", now, count, id, t);
    }
    LinearAlgebra::MiddleSizeVector::type computeTotalError(const std::size_t id, const double t) override {
        vt_emit_d("error", now, count, id, t);
        return 0.;
    }
    MiddleSizeVector computeMaxError(const std::size_t id, const double t) override {
        vt_emit_d("maxerror", now, count, id, t);
        return MiddleSizeVector(1);
    }
};
static const double runs[][4] = {{0, 1, 0.25, 1}, {0, 1, 0.3, 1}, {0.5, 2.25, 0.4, 3}, {-1, 1, 0.07, 5}, {0, 0.5, 2, 1}, {0, 0.5, 2, 4}, {2, 3, 0.5, 0}, {2, 3, 0.3, 0}, {0, 1, 0.1, 10}, {0, 3, 0.1, 7}, {0, 10, 0.1, 1}, {2, 10, 0.1, 4}};
template <std::size_t DIM>
__attribute__((noinline)) void one(int c) {
    vtmpi::run("solve", cases[c].size, c, [c]() {
        long q = (long)(10 * c + vtmpi::rank()) * 100;
        Adaptive<DIM> s;
        s.readMesh("mesh.hpgem");
        for (Base::Element* e : s.meshes_[0]->getElementsList(Base::IteratorType::GLOBAL)) {
            MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = 1. + (double)((e->getID() * 7 + i * 3) % 5);
            e->setTimeIntegrationVector(s.solutionVectorId_, v);
            if (e->isOwnedByCurrentProcessor()) vt_emit_i("own", q, e->getID(), 0, 1);
        }
        double t = 0.25;
        const double tol[] = {1e-1, 1e-2, 1e-4, 1e-6, 1e-3}, most[] = {1e-2, 2, 3, 1, 1e-3};
        for (int k = 0; k < 5; ++k) {
            s.show("u0", q + k, s.solutionVectorId_);
            vt_emit_d("time", q + k, 0, 0, t);
            s.steps = 0;
            s.computeOneTimeStep(t, tol[k], most[k]);
            vt_emit_i("tries", q + k, 0, 0, s.steps);
            vt_emit_d("time", q + k, 1, 0, t);
            s.show("u1", q + k, s.solutionVectorId_);
        }
    });
}
template <std::size_t DIM>
__attribute__((noinline)) void loop(int c) {
    vtmpi::run("loop", 1, 1000 + c, [c]() {
        Loop<DIM> s;
        s.readMesh("mesh.hpgem");
        for (int k = 0; k < (int)(sizeof(runs) / sizeof(runs[0])); ++k)
            for (int adaptive = 0; adaptive < 3; ++adaptive) {
                now = (long)c * 100 + 10000000 + 3 * k + adaptive;
                count = 0;
                for (int i = 0; i < 4; ++i) vt_emit_d("run", now, i, 0, runs[k][i]);
                Base::error.used = adaptive > 0;
                Base::error.getValue() = 0.125;
                Base::dt.used = adaptive < 2;
                bool done = s.solve(runs[k][0], runs[k][1], runs[k][2], (std::size_t)runs[k][3], true);
                vt_emit_i("done", now, 0, 0, done);
            }
    });
}
extern "C" void probe_solve() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        vt_emit_i("try.solve", c, 0, 0, 1);
        if (cases[c].dim == 1) one<1>(c);
        if (cases[c].dim == 2) one<2>(c);
        if (cases[c].dim == 3) one<3>(c);
        if (cases[c].size != 1) continue;
        vt_emit_i("try.loop", c, 0, 0, 1);
        if (cases[c].dim == 1) loop<1>(c);
        if (cases[c].dim == 2) loop<2>(c);
    }
}

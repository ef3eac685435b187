// Linear steady-state problems on simulated processes: the system that is handed to the solver, and what becomes of its solution.
namespace std {
struct vts_ofstream {
    explicit vts_ofstream(const std::string&) {}
};
}
#define ofstream vts_ofstream
#include "mesh.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/FaceMatrix.h"
#include "vtpetsc.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
static const long CODE = 128;
static long now[8];
void vts::tecplot(double) { vt_emit_i("tecplot", now[vtmpi::rank()], 0, 0, 1); }
static void solved(Mat A, Vec b, Vec x) {
    long q = now[vtmpi::rank()];
    vtpetsc::emit(A, q);
    vtpetsc::emit(b, q);
    vt_emit_i("solves", q, 0, 0, 1);
    PetscInt N;
    VecGetSize(x, &N);
    for (PetscInt i = 0; i < N; ++i) vtpetsc::set(x, i, vt_sym(300000 + i));
}
template <std::size_t DIM>
struct Steady : Base::HpgemAPILinearSteadyState<DIM> {
    Steady(bool boundary) : Base::HpgemAPILinearSteadyState<DIM>((std::size_t)2, (std::size_t)1, true, boundary) {}
    Base::MeshManipulator<DIM>& mesh() { return *this->meshes_[0]; }
    MiddleSizeMatrix computeMassMatrixAtElement(Base::Element* e) override {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        MiddleSizeMatrix M(n, n);
        for (std::size_t i = 0; i < n; ++i) M(i, i) = 5.;
        return M;
    }
    MiddleSizeMatrix computeStiffnessMatrixAtElement(Base::Element* e) override {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        MiddleSizeMatrix M(n, n);
        double s = vt_sym(100000 + e->getID());
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < n; ++j) M(i, j) = s * (double)(i * CODE + j + 1);
        return M;
    }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        std::size_t l = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), r = f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0;
        Base::FaceMatrix M(l, r);
        double s = vt_sym(200000 + f->getID());
        for (std::size_t i = 0; i < l + r; ++i)
            for (std::size_t j = 0; j < l + r; ++j) M(i, j) = s * (double)(i * CODE + j + 1);
        return M;
    }
    MiddleSizeVector integrateSourceTermAtElement(Base::Element* e, const double, const std::size_t) override {
        MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(150000 + e->getID()) * (double)(i + 1);
        return v;
    }
    MiddleSizeVector integrateSourceTermAtFace(Base::Face* f, const double, const std::size_t) override {
        MiddleSizeVector v(f->getPtrElementLeft()->getTotalNumberOfBasisFunctions() + (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0));
        if (!f->isInternal())
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(250000 + f->getID()) * (double)(i + 1);
        return v;
    }
    void registerVTKWriteFunctions() override {}
    void VTKWrite(Output::VTKSpecificTimeWriter<DIM>&) override {
        vt_emit_i("vtk", now[vtmpi::rank()], 0, 0, 1);
        show("x.vtk", 0);
    }
    void show(const char* tag, std::size_t id) {
        for (Base::Element* e : mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            const MiddleSizeVector& v = e->getTimeIntegrationVector(id);
            for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(tag, now[vtmpi::rank()], e->getID(), i, v[i]);
        }
    }
    LinearAlgebra::MiddleSizeVector::type computeTotalError(const std::size_t id, const double) override {
        show("x.error", id);
        return 0.;
    }
    MiddleSizeVector computeMaxError(const std::size_t id, const double) override {
        show("x.maxerror", id);
        return MiddleSizeVector(2);
    }
    void topology() {
        long q = now[vtmpi::rank()];
        Utilities::GlobalIndexing g(&mesh());
        std::vector<int> l;
        for (Base::Element* e : mesh().getElementsList(Base::IteratorType::GLOBAL)) {
            l.clear();
            g.getGlobalIndices(e, l);
            for (std::size_t k = 0; k < l.size(); ++k) vt_emit_i("r", q, e->getID(), k, l[k]);
        }
        for (Base::Element* e : mesh().getElementsList()) vt_emit_i("e", q, e->getID(), 0, 1);
        for (Base::Face* f : mesh().getFacesList()) {
            vt_emit_i("f", q, f->getID(), 0, f->getPtrElementLeft()->getID());
            if (f->isInternal()) vt_emit_i("f", q, f->getID(), 1, f->getPtrElementRight()->getID());
        }
    }
};
template <std::size_t DIM>
__attribute__((noinline)) void one(int c) {
    vtmpi::run("steady", cases[c].size, c, [c]() {
        now[vtmpi::rank()] = 10 * c + vtmpi::rank();
        Steady<DIM> s(true);
        s.setOutputNames("out", "title", "solution", std::vector<std::string>{"a", "b"});
        s.readMesh("mesh.hpgem");
        s.topology();
        s.solveSteadyStateWithPetsc(true);
        s.show("x", 0);
    });
}
extern "C" void probe_steady() {
    vtpetsc::solve = solved;
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        vt_emit_i("try.steady", c, 0, 0, 1);
        if (cases[c].dim == 1) one<1>(c);
        if (cases[c].dim == 2) one<2>(c);
        if (cases[c].dim == 3) one<3>(c);
    }
}

// Global matrices and vectors on simulated processes.
#include "mesh.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/SparsityEstimator.h"
#include "Base/FaceMatrix.h"
#include "vtpetsc.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
using Utilities::GlobalIndexing;
using Utilities::GlobalPetscMatrix;
using Utilities::GlobalPetscVector;
using Utilities::Table2D;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
static const long CODE = 128;
static bool hasPyramid(const char* s) {
    for (; *s; ++s)
        if (s[0] == 'p' && s[1] == 'y') return true;
    return false;
}
static std::vector<int> unknownsOf(const Base::Element* e, const GlobalIndexing& g) {
    std::vector<int> out;
    for (std::size_t u : g.getIncludedUnknowns())
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) out.push_back(u);
    return out;
}
// coupled(u, v): whether the unknowns u (row) and v couple in face matrices
template <std::size_t DIM>
__attribute__((noinline)) void fill(Base::MeshManipulator<DIM>& mesh, const GlobalIndexing& R, const GlobalIndexing& C, bool faces, const int coupled[3], int shift) {
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t n = unknownsOf(e, R).size(), m = unknownsOf(e, C).size();
        double s = vt_sym(100000 + shift + e->getID());
        MiddleSizeMatrix M(n, m);
        MiddleSizeVector v(n);
        for (std::size_t i = 0; i < n; ++i) {
            for (std::size_t j = 0; j < m; ++j) M(i, j) = s * (double)(i * CODE + j + 1);
            v[i] = s * (double)(i + 1);
        }
        e->setElementMatrix(M, 0);
        e->setElementVector(v, 0);
    }
    if (faces)
        for (Base::Face* f : mesh.getFacesList()) {
            std::vector<int> ul = unknownsOf(f->getPtrElementLeft(), R), all = ul, ur;
            if (f->isInternal()) ur = unknownsOf(f->getPtrElementRight(), R);
            for (int u : ur) all.push_back(u);
            double s = vt_sym(200000 + shift + f->getID());
            Base::FaceMatrix M(ul.size(), ur.size());
            MiddleSizeVector v(all.size());
            for (std::size_t i = 0; i < all.size(); ++i) {
                for (std::size_t j = 0; j < all.size(); ++j)
                    if (coupled[all[i]] >> all[j] & 1) M(i, j) = s * (double)(i * CODE + j + 1);
                v[i] = s * (double)(i + 1);
            }
            f->setFaceMatrix(M, 0);
            f->setFaceVector(v, 0);
        }
}
template <std::size_t DIM>
__attribute__((noinline)) void numbers(long q, Base::MeshManipulator<DIM>& mesh, const GlobalIndexing& R, const GlobalIndexing& C) {
    std::vector<int> l;
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        l.clear();
        R.getGlobalIndices(e, l);
        for (std::size_t k = 0; k < l.size(); ++k) vt_emit_i("r", q, e->getID(), k, l[k]);
        l.clear();
        C.getGlobalIndices(e, l);
        for (std::size_t k = 0; k < l.size(); ++k) vt_emit_i("c", q, e->getID(), k, l[k]);
        std::vector<int> u = unknownsOf(e, R);
        for (std::size_t k = 0; k < u.size(); ++k) vt_emit_i("ru", q, e->getID(), k, u[k]);
        u = unknownsOf(e, C);
        for (std::size_t k = 0; k < u.size(); ++k) vt_emit_i("cu", q, e->getID(), k, u[k]);
    }
}
template <std::size_t DIM>
__attribute__((noinline)) void boundary(long q, Base::MeshManipulator<DIM>& mesh, GlobalPetscMatrix& A, const GlobalIndexing& R) {
    long n = 0;
    std::vector<int> entries(1, -5);
    std::size_t count = 1;
    for (Base::Face* f : mesh.getFacesList()) {
        if (f->isInternal() && n % 3) {
            ++n;
            continue;
        }
        std::size_t before = entries.size();
        A.getMatrixBCEntries(f, count, entries);
        vt_emit_i("bc.n", q, f->getID(), 0, count);
        vt_emit_i("bc.n", q, f->getID(), 1, entries.size());
        for (std::size_t k = before; k < entries.size(); ++k) vt_emit_i("bc", q, f->getID(), k - before, entries[k]);
        // what is on the face: its own functions, those of its nodes and of the edges between its nodes
        const Base::Element* e = f->getPtrElementLeft();
        std::vector<std::size_t> nodes = e->getReferenceGeometry()->getCodim1EntityLocalIndices(f->localFaceNumberLeft());
        long w = 0;
        auto put = [&](auto* x) {
            for (std::size_t u : R.getIncludedUnknowns())
                for (std::size_t i = 0; i < x->getLocalNumberOfBasisFunctions(u); ++i) vt_emit_i("bc.want", q, f->getID(), w++, R.getGlobalIndex(x, u) + i);
        };
        put(f);
        if (DIM > 1)
            for (std::size_t k : nodes) put(e->getNode(k));
        for (std::size_t k = 0; k < e->getNumberOfEdges(); ++k) {
            std::vector<std::size_t> ends = e->getReferenceGeometry()->getCodim2EntityLocalIndices(k);
            int on = 0;
            for (std::size_t a : ends)
                for (std::size_t b : nodes) on += a == b;
            if (on == 2) put(e->getEdge(k));
        }
        ++n;
    }
}
template <std::size_t DIM>
__attribute__((noinline)) void exchange(long q, Base::MeshManipulator<DIM>& mesh, const GlobalIndexing& R, GlobalPetscVector& b, std::size_t unknown) {
    std::vector<int> l;
    auto value = [&](int id, long shift) {
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            l.clear();
            R.getGlobalIndices(e, l);
            MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
            for (std::size_t i = 0; i < v.size(); ++i) v[i] = vt_sym(300000 + shift + l[i]);
            e->setTimeIntegrationVector(id, v);
        }
    };
    auto show = [&](const char* tag, int id) {
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            const MiddleSizeVector& v = e->getTimeIntegrationVector(id);
            for (std::size_t i = 0; i < v.size(); ++i) vt_emit_d(tag, q, e->getID(), i, v[i]);
        }
    };
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) e->setNumberOfTimeIntegrationVectors(3);
    value(0, 0);
    value(1, 1000);
    value(2, 2000);
    // garbage on the ghosts must not matter
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL))
        if (!e->isOwnedByCurrentProcessor()) {
            MiddleSizeVector zero(e->getTotalNumberOfBasisFunctions());
            e->setTimeIntegrationVector(1, zero);
        }
    b.constructFromTimeIntegrationVector(1);
    vtpetsc::emit((Vec)b, q + 1000000);
    b.constructFromTimeIntegrationVector(2, unknown);
    vtpetsc::emit((Vec)b, q + 2000000);
    PetscInt N;
    VecGetSize((Vec)b, &N);
    for (PetscInt i = 0; i < N; ++i) vtpetsc::set((Vec)b, i, vt_sym(304000 + i));
    b.writeTimeIntegrationVector(0);
    show("w.all", 0);
    show("w.other", 2);
    for (PetscInt i = 0; i < N; ++i) vtpetsc::set((Vec)b, i, vt_sym(305000 + i));
    b.writeTimeIntegrationVector(2, unknown);
    show("w.one", 2);
}
template <std::size_t DIM>
__attribute__((noinline)) void one(int c, int order) {
    vtmpi::run("assembly", cases[c].size, 2 * c + order, [c, order]() {
        using V = std::vector<std::size_t>;
        for (int space = 0; space < 3; ++space) {
            std::size_t nu = space ? 3 : 2;
            Base::ConfigurationData cfg(nu, 1);
            auto mesh = readCase<DIM>(cfg);
            if (space == 0)
                mesh->useDefaultDGBasisFunctions(1);
            else if (space == 1) {
                mesh->useDefaultConformingBasisFunctions(hasPyramid(cases[c].name) ? 1 : 2, 0);
                mesh->useDefaultDGBasisFunctions(1, 1);
                mesh->useDefaultConformingBasisFunctions(1, 2);
            } else {
                mesh->useDefaultDGBasisFunctions(0);
                mesh->useDefaultConformingBasisFunctions(1, 1);
                mesh->useDefaultDGBasisFunctions(1, 2);
            }
            long base = ((long)(2 * c + order) * 10) * 10 + vtmpi::rank();
            if (space == 0) {
                long q = base;
                GlobalIndexing R(mesh.get(), GlobalIndexing::SEQUENTIAL);
                int all[3] = {7, 7, 7};
                fill<DIM>(*mesh, R, R, true, all, 0);
                numbers<DIM>(q, *mesh, R, R);
                GlobalPetscMatrix A(R, 0, 0);
                vtpetsc::emit((Mat)A, q);
                GlobalPetscVector b(R, 0, 0);
                vtpetsc::emit((Vec)b, q);
                exchange<DIM>(q, *mesh, R, b, 1);
                // another numbering, other local matrices
                q = base + 10;
                R.reset(mesh.get(), GlobalIndexing::BLOCKED_GLOBAL);
                fill<DIM>(*mesh, R, R, true, all, 50000);
                numbers<DIM>(q, *mesh, R, R);
                A.reinit();
                b.reinit();
                vtpetsc::emit((Mat)A, q);
                vtpetsc::emit((Vec)b, q);
                // only the local matrices change
                q = base + 20;
                fill<DIM>(*mesh, R, R, true, all, 20000);
                numbers<DIM>(q, *mesh, R, R);
                A.assemble();
                b.assemble();
                vtpetsc::emit((Mat)A, q);
                vtpetsc::emit((Vec)b, q);
            } else if (space == 1) {
                long q = base + 30;
                GlobalIndexing R(mesh.get(), GlobalIndexing::BLOCKED_PROCESSOR);
                int some[3] = {0, 7, 0};
                Table2D<bool> t(3, 3, false);
                for (int j = 0; j < 3; ++j) t(1, j) = true;
                fill<DIM>(*mesh, R, R, true, some, 0);
                numbers<DIM>(q, *mesh, R, R);
                GlobalPetscMatrix A(R, R, t, 0, 0);
                vtpetsc::emit((Mat)A, q);
                GlobalPetscVector b(R, 0, 0);
                vtpetsc::emit((Vec)b, q);
                boundary<DIM>(q, *mesh, A, R);
                exchange<DIM>(q, *mesh, R, b, 1);
                q = base + 40;
                V rows{2, 0}, columns{1};
                GlobalIndexing Q(mesh.get(), GlobalIndexing::BLOCKED_GLOBAL, &rows), C(mesh.get(), GlobalIndexing::SEQUENTIAL, &columns);
                fill<DIM>(*mesh, Q, C, false, some, 0);
                numbers<DIM>(q, *mesh, Q, C);
                GlobalPetscMatrix B(Q, C, 0);
                vtpetsc::emit((Mat)B, q);
                GlobalPetscVector d(Q, 0, -1);
                vtpetsc::emit((Vec)d, q);
                if (cases[c].size == 1) {
                    q = base + 50;
                    int all[3] = {7, 7, 7};
                    fill<DIM>(*mesh, R, R, true, all, 0);
                    numbers<DIM>(q, *mesh, R, R);
                    GlobalPetscMatrix F(R, 0, 0);
                    vtpetsc::emit((Mat)F, q);
                }
            } else {
                long q = base + 60;
                V rows{1, 2};
                GlobalIndexing R(mesh.get(), GlobalIndexing::SEQUENTIAL, &rows);
                int some[3] = {0, 0, 6};
                Table2D<bool> t(2, 2, false);
                t(1, 0) = t(1, 1) = true;
                fill<DIM>(*mesh, R, R, true, some, 0);
                numbers<DIM>(q, *mesh, R, R);
                GlobalPetscMatrix A(R, R, t, 0, 0);
                vtpetsc::emit((Mat)A, q);
                GlobalPetscVector b(R, 0, 0);
                vtpetsc::emit((Vec)b, q);
                boundary<DIM>(q, *mesh, A, R);
            }
            for (Base::Face* f : mesh->getFacesList()) {
                vt_emit_i("f", base + 70 + 10 * space, f->getID(), 0, f->getPtrElementLeft()->getID());
                if (f->isInternal()) vt_emit_i("f", base + 70 + 10 * space, f->getID(), 1, f->getPtrElementRight()->getID());
                vt_emit_i("f", base + 70 + 10 * space, f->getID(), 2, space);
            }
            for (Base::Element* e : mesh->getElementsList()) vt_emit_i("e", base + 70 + 10 * space, e->getID(), 0, space);
        }
    });
}
extern "C" void probe_assembly() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        for (int o = 0; o < (cases[c].size > 2 ? 1 : 1); ++o) {
            vt_emit_i("try.assembly", c, o, 0, 1);
            if (cases[c].dim == 1) one<1>(c, o);
            if (cases[c].dim == 2) one<2>(c, o);
            if (cases[c].dim == 3) one<3>(c, o);
        }
    }
}

#include "mesh.h"
#include "Utilities/GlobalIndexing.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
using Utilities::GlobalIndexing;
static bool hasPyramid(const char* s) {
    for (; *s; ++s)
        if (s[0] == 'p' && s[1] == 'y') return true;
    return false;
}
template <std::size_t DIM>
__attribute__((noinline)) void counts(long q, Base::MeshManipulator<DIM>& mesh, std::size_t nu) {
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("o.elem", q, e->getID(), 0, e->isOwnedByCurrentProcessor());
        for (std::size_t k = 0; k < e->getPhysicalGeometry()->getNumberOfFaces(); ++k) vt_emit_i("a.face", q, e->getID(), k, e->getFace(k)->getID());
        for (std::size_t k = 0; k < e->getNumberOfEdges(); ++k) vt_emit_i("a.edge", q, e->getID(), k, e->getEdge(k)->getID());
        for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) vt_emit_i("a.node", q, e->getID(), k, e->getNode(k)->getID());
    }
    for (Base::Face* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("s.face", q, f->getID(), 0, f->getPtrElementLeft()->getID());
        if (f->isInternal()) vt_emit_i("s.face", q, f->getID(), 1, f->getPtrElementRight()->getID());
    }
    for (std::size_t u = 0; u < nu; ++u) {
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            vt_emit_i("n.elem", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
            vt_emit_i("n.all", q, e->getID(), u, e->getNumberOfBasisFunctions(u));
        }
        for (Base::Face* e : mesh.getFacesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.face", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
        for (Base::Edge* e : mesh.getEdgesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.edge", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
        for (Base::Node* e : mesh.getNodesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.node", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
    }
}
template <std::size_t DIM>
__attribute__((noinline)) void indices(long q, Base::MeshManipulator<DIM>& mesh, const GlobalIndexing& g, long total) {
    vt_emit_i("g.size", q, 0, 0, g.getNumberOfLocalBasisFunctions());
    vt_emit_i("g.size", q, 0, 1, g.getTotalNumberOfUnknowns());
    vt_emit_i("g.size", q, 0, 2, g.getNumberOfIncludedUnknowns());
    for (std::size_t u = 0; u < g.getTotalNumberOfUnknowns(); ++u) vt_emit_i("g.included", q, 0, u, g.isIncludedInIndex(u));
    for (std::size_t u : g.getIncludedUnknowns()) {
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
            vt_emit_i("g.elem", q, e->getID(), u, g.getGlobalIndex(e, u));
            if (e->isOwnedByCurrentProcessor()) vt_emit_i("l.elem", q, e->getID(), u, g.getProcessorLocalIndex(e, u));
        }
        for (Base::Face* e : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
            vt_emit_i("g.face", q, e->getID(), u, g.getGlobalIndex(e, u));
            if (e->isOwnedByCurrentProcessor()) vt_emit_i("l.face", q, e->getID(), u, g.getProcessorLocalIndex(e, u));
        }
        for (Base::Edge* e : mesh.getEdgesList(Base::IteratorType::GLOBAL)) {
            vt_emit_i("g.edge", q, e->getID(), u, g.getGlobalIndex(e, u));
            if (e->isOwnedByCurrentProcessor()) vt_emit_i("l.edge", q, e->getID(), u, g.getProcessorLocalIndex(e, u));
        }
        if (DIM > 1)
            for (Base::Node* e : mesh.getNodesList(Base::IteratorType::GLOBAL)) {
                vt_emit_i("g.node", q, e->getID(), u, g.getGlobalIndex(e, u));
                if (e->isOwnedByCurrentProcessor()) vt_emit_i("l.node", q, e->getID(), u, g.getProcessorLocalIndex(e, u));
            }
    }
    std::vector<int> reused(3, -7);
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        g.getGlobalIndices(e, reused);
        for (std::size_t k = 0; k < reused.size(); ++k) vt_emit_i("i.elem", q, e->getID(), k, reused[k]);
        vt_emit_i("i.elem", q, e->getID(), -1, reused.size());
        vt_emit_i("i.copy", q, e->getID(), 0, g.getGlobalIndices(e) == reused);
    }
    for (Base::Face* e : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
        g.getGlobalIndices(e, reused);
        for (std::size_t k = 0; k < reused.size(); ++k) vt_emit_i("i.face", q, e->getID(), k, reused[k]);
        vt_emit_i("i.face", q, e->getID(), -1, reused.size());
    }
    for (long k = 0; k < total; ++k) vt_emit_i("g2l", q, k, 0, g.globalToProcessorLocalIndex(k));
}
template <std::size_t DIM>
__attribute__((noinline)) void one(int c, int order) {
    vtmpi::run("index", cases[c].size, 2 * c + order, [c, order]() {
        for (int space = 0; space < 2; ++space) {
            std::size_t nu = space ? 3 : 2;
            Base::ConfigurationData cfg(nu, 1);
            auto mesh = readCase<DIM>(cfg);
            if (space == 0)
                mesh->useDefaultDGBasisFunctions(1);
            else {
                mesh->useDefaultConformingBasisFunctions(hasPyramid(cases[c].name) ? 1 : DIM == 3 ? 2 : 3, 0);
                mesh->useDefaultDGBasisFunctions(1, 1);
                mesh->useDefaultConformingBasisFunctions(1, 2);
            }
            long base = ((long)(2 * c + order) * 2 + space);
            counts<DIM>(base * 10 + vtmpi::rank(), *mesh, nu);
            long total = 0;
            for (Base::Element* e : mesh->getElementsList()) total += e->getTotalNumberOfBasisFunctions();
#ifdef HPGEM_USE_MPI
            MPI_Allreduce(MPI_IN_PLACE, &total, 1, Base::Detail::toMPIType(total), MPI_SUM, Base::MPIContainer::Instance().getComm());
#endif
            GlobalIndexing again;
            for (int layout = 0; layout < 3; ++layout)
                for (int subset = 0; subset < (space ? 3 : 1); ++subset) {
                    GlobalIndexing::Layout l = layout == 0 ? GlobalIndexing::SEQUENTIAL : layout == 1 ? GlobalIndexing::BLOCKED_PROCESSOR : GlobalIndexing::BLOCKED_GLOBAL;
                    std::vector<std::size_t> some = subset == 1 ? std::vector<std::size_t>{1} : std::vector<std::size_t>{2, 0};
                    long q = ((base * 3 + layout) * 3 + subset) * 10 + vtmpi::rank();
                    if (subset == 2) {
                        GlobalIndexing fresh(mesh.get(), l, &some);
                        indices<DIM>(q, *mesh, fresh, total + 2);
                    } else {
                        again.reset(mesh.get(), l, subset ? &some : nullptr);
                        indices<DIM>(q, *mesh, again, total + 2);
                    }
                }
        }
    });
}
extern "C" void probe_globalindex() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        for (int o = 0; o < (cases[c].size > 2 ? 2 : 1); ++o) {
            vt_emit_i("try.index", c, o, 0, 1);
            if (cases[c].dim == 1) one<1>(c, o);
            if (cases[c].dim == 2) one<2>(c, o);
            if (cases[c].dim == 3) one<3>(c, o);
        }
    }
}

// Probe: the basis functions every element carries after a space has been chosen for a mesh.
#include "mesh.h"
#include "common.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
static bool has(const char* s, const char* w) {
    for (; *s; ++s) {
        int k = 0;
        while (w[k] && s[k] == w[k]) ++k;
        if (!w[k]) return true;
    }
    return false;
}
template <std::size_t DIM>
__attribute__((noinline)) void entities(long q, Base::MeshManipulator<DIM>& mesh, std::size_t nu) {
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        const long i = e->getID();
        vt_emit_i("shape", q, i, 0, (long)e->getReferenceGeometry()->getGeometryType());
        vt_emit_i("owned", q, i, 0, e->isOwnedByCurrentProcessor());
        for (std::size_t k = 0; k < e->getPhysicalGeometry()->getNumberOfFaces(); ++k) vt_emit_i("a.face", q, i, k, e->getFace(k)->getID());
        for (std::size_t k = 0; k < e->getNumberOfEdges(); ++k) vt_emit_i("a.edge", q, i, k, e->getEdge(k)->getID());
        for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) vt_emit_i("a.node", q, i, k, e->getNode(k)->getID());
        for (std::size_t u = 0; u < nu; ++u) {
            vt_emit_i("n.elem", q, i, u, e->getLocalNumberOfBasisFunctions(u));
            vt_emit_i("n.all", q, i, u, e->getNumberOfBasisFunctions(u));
        }
    }
    for (std::size_t u = 0; u < nu; ++u) {
        for (Base::Face* e : mesh.getFacesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.face", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
        for (Base::Edge* e : mesh.getEdgesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.edge", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
        for (Base::Node* e : mesh.getNodesList(Base::IteratorType::GLOBAL)) vt_emit_i("n.node", q, e->getID(), u, e->getLocalNumberOfBasisFunctions(u));
    }
}
template <std::size_t DIM>
__attribute__((noinline)) void scalars(long q, Base::MeshManipulator<DIM>& mesh, std::size_t nu) {
    auto p = vt::symPoint<DIM>();
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL))
        for (std::size_t u = 0; u < nu; ++u)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) vt_emit_d("val", q, e->getID(), u * 1000 + i, e->basisFunction(i, p, u));
}
template <std::size_t DIM>
__attribute__((noinline)) void vectors(long q, Base::MeshManipulator<DIM>& mesh, std::size_t nu) {
    auto p = vt::symPoint<DIM>();
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL))
        for (std::size_t u = 0; u < nu; ++u)
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
                LinearAlgebra::SmallVector<DIM> v;
                e->basisFunction(i, p, v, u);
                for (std::size_t d = 0; d < DIM; ++d) vt_emit_d("vec", q, e->getID(), (u * 1000 + i) * 4 + d, v[d]);
            }
}
template <std::size_t DIM>
__attribute__((noinline)) void closure(long q, long f, const Base::Element* e, std::size_t k) {
    const Geometry::ReferenceGeometry* r = e->getReferenceGeometry();
    std::vector<std::size_t> nodes = r->getCodim1EntityLocalIndices(k);
    vt_emit_i("c.face", q, f, k, 1);
    if (DIM > 1)
        for (std::size_t n : nodes) vt_emit_i("c.node", q, f, n, 1);
    if (DIM > 2)
        for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) {
            bool in = true;
            for (std::size_t n : r->getCodim2EntityLocalIndices(i)) {
                bool found = false;
                for (std::size_t m : nodes) found = found || m == n;
                in = in && found;
            }
            if (in) vt_emit_i("c.edge", q, f, i, 1);
        }
}
template <std::size_t DIM>
__attribute__((noinline)) void traces(long q, Base::MeshManipulator<DIM>& mesh, std::size_t nu) {
    auto p = vt::symPoint<DIM - 1>();
    for (Base::Face* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
        const long i = f->getID();
        const Base::Element* e = f->getPtrElementLeft();
        vt_emit_i("left", q, i, 0, e->getID());
        closure<DIM>(q, 2 * i, e, f->localFaceNumberLeft());
        Geometry::PointReference<DIM> l = f->mapRefFaceToRefElemL(p);
        for (std::size_t u = 0; u < nu; ++u)
            for (std::size_t k = 0; k < e->getNumberOfBasisFunctions(u); ++k) vt_emit_d("trace", q, 2 * i, u * 1000 + k, e->basisFunction(k, l, u));
        if (!f->isInternal()) continue;
        e = f->getPtrElementRight();
        vt_emit_i("right", q, i, 0, e->getID());
        closure<DIM>(q, 2 * i + 1, e, f->localFaceNumberRight());
        Geometry::PointReference<DIM> r = f->mapRefFaceToRefElemR(p);
        for (std::size_t u = 0; u < nu; ++u)
            for (std::size_t k = 0; k < e->getNumberOfBasisFunctions(u); ++k) vt_emit_d("trace", q, 2 * i + 1, u * 1000 + k, e->basisFunction(k, r, u));
    }
}
template <std::size_t DIM>
__attribute__((noinline)) void one(int c) {
    vtmpi::run("conform", cases[c].size, c, [c]() {
        const char* name = cases[c].name;
        const bool tets = has(name, "tetrahedra") && !has(name, "cube"), tris = has(name, "triangles") && !has(name, "squares"), mixed = has(name, "pyramid");
        const int high = mixed ? 1 : tets ? 4 : has(name, "prisms") ? 2 : 3;
        for (int space = 0; space < 7; ++space) {
            if ((space == 5 && !tris && !tets) || (space == 6 && !tets)) continue;
            const std::size_t nu = space == 3 ? 3 : space > 4 ? 1 : 2;
            Base::ConfigurationData cfg(nu, 1);
            auto mesh = readCase<DIM>(cfg);
            const long q = (c * 8L + space) * 10 + vtmpi::rank();
            switch (space) {
                case 0: mesh->useMonomialBasisFunctions(2); break;
                case 1: mesh->useDefaultDGBasisFunctions(mixed ? 1 : 2); break;
                case 2: mesh->useDefaultConformingBasisFunctions(high); break;
                case 3:
                    mesh->useDefaultConformingBasisFunctions(high, 0);
                    mesh->useDefaultDGBasisFunctions(1, 1);
                    mesh->useDefaultConformingBasisFunctions(mixed ? 1 : 2, 2);
                    break;
                case 4:  // a second choice replaces the first
                    mesh->useDefaultConformingBasisFunctions(mixed ? 1 : 2);
                    mesh->useDefaultDGBasisFunctions(1);
                    break;
                case 5: mesh->useNedelecDGBasisFunctions(2); break;
                case 6: mesh->useAinsworthCoyleDGBasisFunctions(2); break;
            }
            entities<DIM>(q, *mesh, nu);
            if (space < 5)
                scalars<DIM>(q, *mesh, nu);
            else if constexpr (DIM > 1)
                vectors<DIM>(q, *mesh, nu);
            if (space == 2 || space == 3) traces<DIM>(q, *mesh, nu);
        }
    });
}
extern "C" void probe_conform() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        vt_emit_i("try.conform", c, 0, 0, 1);
        if (cases[c].dim == 1) one<1>(c);
        if (cases[c].dim == 2) one<2>(c);
        if (cases[c].dim == 3) one<3>(c);
    }
}

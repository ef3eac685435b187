// Reading of mesh files by simulated processes: everything a process knows about the mesh afterwards.
#pragma once
#include "vt.h"
#include "vtmpi.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Base/MpiContainer.h"
#include <cstring>
using namespace hpgem;
struct MeshCase {
    const char* name;
    int dim, size;
    const char* text;
};
namespace vts {
extern const MeshCase* current;
}
extern "C" const char* vt_file(const char*) { return vts::current->text; }
extern "C" double vt_number(const char* t) {
    const char* p = t;
    bool neg = *p == '-';
    if (neg || *p == '+') ++p;
    if (p[0] == '0' && p[1] == 'x') p += 2;
    if (*p == 's') {
        int n = 0;
        for (++p; *p >= '0' && *p <= '9'; ++p) n = 10 * n + (*p - '0');
        return neg ? -vt_sym(n) : vt_sym(n);
    }
    double v = 0;
    for (; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0');
    if (*p == '.') {
        double s = 1;
        for (++p; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0'), s *= 10;
        v = v / s;
    }
    return neg ? -v : v;
}
inline long idOf(const Base::Element* e) { return e ? (long)e->getID() : -1; }
inline long key(int c) { return 10 * c + vtmpi::rank(); }
template <std::size_t DIM>
std::unique_ptr<Base::MeshManipulator<DIM>> readCase(const Base::ConfigurationData& cfg) {
    auto mesh = std::make_unique<Base::MeshManipulator<DIM>>(&cfg, 1, 1, 1, 1);
    mesh->readMesh("mesh.hpgem");
    return mesh;
}
template <std::size_t DIM>
__attribute__((noinline)) void emitMesh(int c, Base::MeshManipulator<DIM>& mesh) {
    long q = key(c);
    long n = 0;
    for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("elem", q, n, 0, e->getID());
        vt_emit_i("elem", q, n, 1, e->getOwner());
        vt_emit_i("elem", q, n, 2, e->isOwnedByCurrentProcessor());
        vt_emit_i("elem", q, n, 3, e->getNumberOfNodes());
        vt_emit_i("elem", q, n, 4, e->getNumberOfFaces());
        vt_emit_i("elem", q, n, 5, e->getNumberOfEdges());
        vt_emit_s("zone", q, n, 0, e->getZone().getName().c_str());
        vt_emit_i("zoneid", q, n, 0, e->getZone().getZoneId());
        for (std::size_t k = 0; k < e->getNumberOfNodes(); ++k) {
            vt_emit_i("enode", q, n, k, e->getNode(k)->getID());
            const Geometry::PointPhysical<DIM> p = e->getPhysicalGeometry()->getLocalNodeCoordinates(k);
            for (std::size_t d = 0; d < DIM; ++d) vt_emit_d("ecoord", q, n, 4 * k + d, p[d]);
        }
        for (std::size_t k = 0; k < e->getNumberOfFaces(); ++k) vt_emit_i("eface", q, n, k, e->getFace(k) ? (long)e->getFace(k)->getID() : -1);
        for (std::size_t k = 0; k < e->getNumberOfEdges(); ++k) vt_emit_i("eedge", q, n, k, e->getEdge(k) ? (long)e->getEdge(k)->getID() : -1);
        ++n;
    }
    vt_emit_i("count", q, 0, 0, n);
    n = 0;
    for (Base::Face* f : mesh.getFacesList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("face", q, n, 0, f->getID());
        vt_emit_i("face", q, n, 1, (long)f->getFaceType());
        vt_emit_i("face", q, n, 2, idOf(f->getPtrElementLeft()));
        vt_emit_i("face", q, n, 3, f->localFaceNumberLeft());
        vt_emit_i("face", q, n, 4, idOf(f->getPtrElementRight()));
        vt_emit_i("face", q, n, 5, f->getPtrElementRight() ? (long)f->localFaceNumberRight() : -1);
        vt_emit_i("face", q, n, 6, f->isInternal());
        vt_emit_i("face", q, n, 7, f->isOwnedByCurrentProcessor());
        vt_emit_i("face", q, n, 8, f->isSubdomainBoundary());
        // the vertices of the face seen from both sides, point by point
        if constexpr (DIM > 1) {
            const Geometry::ReferenceGeometry* r = f->getReferenceGeometry();
            for (std::size_t k = 0; k < r->getNumberOfNodes(); ++k) {
                const Geometry::PointReference<DIM - 1>& p = r->getReferenceNodeCoordinate(k);
                auto l = f->mapRefFaceToRefElemL(p);
                for (std::size_t d = 0; d < DIM; ++d) vt_emit_d("fleft", q, n, 4 * k + d, l[d]);
                if (f->isInternal()) {
                    auto rr = f->mapRefFaceToRefElemR(p);
                    for (std::size_t d = 0; d < DIM; ++d) vt_emit_d("fright", q, n, 4 * k + d, rr[d]);
                }
            }
        }
        auto nodes = f->getNodesList();
        vt_emit_i("fnodes", q, n, 0, nodes.size());
        for (std::size_t k = 0; k < nodes.size(); ++k) vt_emit_i("fnode", q, n, k, nodes[k]->getID());
        ++n;
    }
    vt_emit_i("count", q, 0, 1, n);
    n = 0;
    for (Base::Edge* f : mesh.getEdgesList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("edge", q, n, 0, f->getID());
        vt_emit_i("edge", q, n, 1, f->getNumberOfElements());
        vt_emit_i("edge", q, n, 2, f->isOwnedByCurrentProcessor());
        for (std::size_t k = 0; k < f->getNumberOfElements(); ++k) {
            vt_emit_i("edgeelem", q, n, 3 * k, idOf(f->getElement(k)));
            vt_emit_i("edgeelem", q, n, 3 * k + 1, f->getEdgeNumber(k));
            vt_emit_i("edgeelem", q, n, 3 * k + 2, f->getOrientation(k));
        }
        ++n;
    }
    vt_emit_i("count", q, 0, 2, n);
    n = 0;
    for (Base::Node* f : mesh.getNodesList(Base::IteratorType::GLOBAL)) {
        vt_emit_i("node", q, n, 0, f->getID());
        vt_emit_i("node", q, n, 1, f->getNumberOfElements());
        vt_emit_i("node", q, n, 2, f->isOwnedByCurrentProcessor());
        for (std::size_t k = 0; k < f->getNumberOfElements(); ++k) {
            vt_emit_i("nodeelem", q, n, 2 * k, idOf(f->getElement(k)));
            vt_emit_i("nodeelem", q, n, 2 * k + 1, f->getNodeNumber(k));
        }
        ++n;
    }
    vt_emit_i("count", q, 0, 3, n);
    n = 0;
    for (Base::Element* e : mesh.getElementsList()) vt_emit_i("local", q, 0, n++, e->getID());
    vt_emit_i("count", q, 0, 4, n);
    n = 0;
    for (Base::Face* e : mesh.getFacesList()) vt_emit_i("local", q, 1, n++, e->getID());
    vt_emit_i("count", q, 0, 5, n);
    n = 0;
    for (Base::Edge* e : mesh.getEdgesList()) vt_emit_i("local", q, 2, n++, e->getID());
    vt_emit_i("count", q, 0, 6, n);
    n = 0;
    for (Base::Node* e : mesh.getNodesList()) vt_emit_i("local", q, 3, n++, e->getID());
    vt_emit_i("count", q, 0, 7, n);
    for (auto& p : mesh.getPushElements()) {
        long k = 0;
        for (Base::Element* e : p.second) vt_emit_i("push", q, p.first, k++, e->getID());
    }
    for (auto& p : mesh.getPullElements()) {
        long k = 0;
        for (Base::Element* e : p.second) vt_emit_i("pull", q, p.first, k++, e->getID());
    }
}

// Probe: reference-to-physical maps of every element shape, with symbolic node positions.
// symbols: 0..3 reference point; 10.. node coordinates; 110.. node coordinates after moving the mesh; 210.. affine parameters
#include "common.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/ReferenceGeometryFactory.h"
using namespace Geometry;
template <std::size_t D>
static void dump(long id, long stage, const ElementGeometry& e) {
    vtTry("tr", [&] {
        vt_emit_i("try.tr", id, stage, 0, 1);
        vt::point("tr", id, stage, e.referenceToPhysical(vt::symPoint<D>()), D);
    });
    vtTry("jac", [&] {
        vt_emit_i("try.jac", id, stage, 0, 1);
        vt::mat("jac", id, stage, e.calcJacobian(vt::symPoint<D>()));
    });
}
template <std::size_t D>
static void shape(long id, std::size_t n, bool affine) {
    vtTry("shape", [&] {
        vt_emit_i("try.shape", id, 0, 0, 1);
        vt_emit_i("shape", id, D, n, 1);
        // the element uses every second entry of the node list, in reverse: indexing through the global numbers matters
        std::vector<PointPhysical<D>> nodes(2 * n);
        std::vector<std::size_t> idx(n);
        const ReferenceGeometry& ref = ReferenceGeometryFactory::Instance().getGeometry(D, n);
        for (std::size_t i = 0; i < n; ++i) idx[i] = 2 * (n - i) - 1;
        auto place = [&](long base) {
            for (std::size_t i = 0; i < n; ++i) {
                PointPhysical<D> q;
                const PointReference<D>& x = ref.getReferenceNodeCoordinate(i);
                for (std::size_t d = 0; d < D; ++d) {
                    double v;
                    if (affine) {
                        v = vt_sym(base + d * (D + 1) + D);
                        for (std::size_t k = 0; k < D; ++k) v += x[k] * vt_sym(base + d * (D + 1) + k);
                    } else
                        v = vt_sym(base + i * D + d);
                    q[d] = v;
                }
                nodes[idx[i]] = q;
            }
        };
        place(10);
        ElementGeometry e(idx, nodes);
        vt_emit_class("refgeo", id, 0, 0, e.getReferenceGeometry());
        vt_emit_class("map", id, 0, 0, e.getReferenceToPhysicalMap());
        vt_emit_i("refnodes", id, 0, 0, ref.getNumberOfNodes());
        for (std::size_t i = 0; i < n; ++i) vt::point("refnode", id, i, static_cast<const PointReference<D>&>(ref.getReferenceNodeCoordinate(i)), D);
        dump<D>(id, 0, e);
        for (std::size_t i = 0; i < n; ++i)
            vtTry("corner", [&] {
                vt_emit_i("try.corner", id, i, 0, 1);
                const PointReference<D>& x = ref.getReferenceNodeCoordinate(i);
                vt::point("corner", id, i, e.referenceToPhysical(x), D);
                vt::point("want", id, i, nodes[idx[i]], D);
            });
        // the nodes move
        place(110);
        vtTry("reinit", [&] {
            vt_emit_i("try.reinit", id, 0, 0, 1);
            e.getReferenceToPhysicalMap()->reinit();
            dump<D>(id, 1, e);
        });
        vtTry("copy", [&] {
            vt_emit_i("try.copy", id, 0, 0, 1);
            ElementGeometry f(e);
            dump<D>(id, 2, f);
        });
    });
}
template <std::size_t D>
static void inverse(long id, std::size_t n) {
    vtTry("inv", [&] {
        vt_emit_i("try.inv", id, 0, 0, 1);
        std::vector<PointPhysical<D>> nodes(n);
        std::vector<std::size_t> idx(n);
        for (std::size_t i = 0; i < n; ++i) {
            idx[i] = i;
            for (std::size_t d = 0; d < D; ++d) nodes[i][d] = vt_sym(10 + i * D + d);
        }
        ElementGeometry e(idx, nodes);
        PointPhysical<D> y = e.referenceToPhysical(vt::symPoint<D>());
        vt::point("inv", id, 0, e.physicalToReference(y), D);
    });
}
extern "C" void probe_mapping() {
    shape<1>(1, 2, false);
    shape<2>(2, 4, false);
    shape<2>(3, 3, false);
    shape<3>(4, 8, false);
    shape<3>(5, 4, false);
    shape<3>(6, 5, false);
    shape<3>(7, 6, false);
    shape<4>(8, 16, true);
    shape<2>(23, 6, false);
    shape<3>(25, 10, false);
    inverse<1>(1, 2);
    inverse<2>(3, 3);
    inverse<3>(5, 4);
}

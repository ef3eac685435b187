// Probe: evaluations cached by quadrature rules equal direct evaluation, for every rule dimension, map and orientation, also
// after a basis function set was destroyed and another one was created at the same address.
#include "elem.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include <new>
using namespace op;
typedef QuadratureRules::GaussQuadratureRule Rule;
typedef Geometry::MappingReferenceToReference<1> Map1;
template <std::size_t D>
static void one(long key, Rule* r, const FE::BasisFunctionSet* s, const std::vector<long>& ids, const Map1* m, bool backwards) {
    const std::size_t np = r->getNumberOfPoints(), nf = ids.size();
    std::vector<std::size_t> qs{0};
    if (np > 1) qs.push_back(np - 1);
    if (np > 3) qs.push_back(np / 2);
    TRYC("qc", key, {
        for (std::size_t a = 0; a < qs.size(); ++a)
            for (std::size_t b = 0; b < nf; ++b) {
                const std::size_t q = qs[backwards ? qs.size() - 1 - a : a], i = backwards ? nf - 1 - b : b;
                PR<D> x;
                if (m) {
                    const Geometry::PointReference<D - 1>& y = r->getPoint(q);
                    x = m->transform(y);
                } else {
                    const PR<D>& y = r->getPoint(q);
                    x = y;
                }
                const long c = a * 10 + b;
                eq("value", key, c, 0, m ? r->eval(s, i, q, m) : r->eval(s, i, q), f(ids[i], VALUE, x));
                const LinearAlgebra::MiddleSizeVector& g = m ? r->evalGrad(s, i, q, m) : r->evalGrad(s, i, q);
                SV<D> gg = fv<D>(ids[i], DERIV, x);
                eqi("size", key, c, 0, g.size(), D);
                for (std::size_t d = 0; d < D; ++d) eq("gradient", key, c, d, std::real(g[d]), gg[d]);
                if constexpr (D > 1) {
                    SV<D> v;
                    if (m)
                        r->eval(s, i, q, m, v);
                    else
                        r->eval(s, i, q, v);
                    eqv("vector", key, c, 0, v, fv<D>(ids[i], VEC, x), D);
                    eqv("curl", key, c, 0, m ? r->evalCurl<D>(s, i, q, m) : r->evalCurl<D>(s, i, q), fv<D>(ids[i], CURL, x, D == 2 ? 1 : D), D);
                    eq("divergence", key, c, 0, m ? r->evalDiv(s, i, q, m) : r->evalDiv(s, i, q), f(ids[i], DIV, x));
                }
            }
    });
}
template <std::size_t D>
static void everything(long key, const Geometry::ReferenceGeometry& g, const FE::BasisFunctionSet* s, const std::vector<long>& ids, bool backwards) {
    one<D>(key * 1000, const_cast<Geometry::ReferenceGeometry&>(g).getGaussQuadratureRule(2), s, ids, nullptr, backwards);
    for (std::size_t fc = 0; fc < g.getNumberOfCodim1Entities(); ++fc) {
        auto* fg = g.getCodim1ReferenceGeometry(fc);
        Rule* r = const_cast<Geometry::ReferenceGeometry*>(fg)->getGaussQuadratureRule(2);
        const Map1* m = g.getCodim1MappingPtr(fc);
        one<D>(key * 1000 + 1 + fc * 20, r, s, ids, m, backwards);
        const int nm = D == 1 ? 1 : D == 2 ? 2 : fg->getNumberOfNodes() == 3 ? 6 : 8;
        for (int o = 0; o < nm; ++o) {
            Geometry::ConcatenatedMapping cm(*fg->getCodim0MappingPtr(o), *m);
            one<D>(key * 1000 + 2 + o + fc * 20, r, s, ids, &cm, backwards);
        }
    }
}
alignas(16) static char room[2][sizeof(FE::BasisFunctionSet)];
static FE::BasisFunctionSet* make(int k, const std::vector<long>& ids) {
    auto* s = new (room[k]) FE::BasisFunctionSet(1);
    for (long i : ids) s->addBasisFunction(new Fun(i));
    return s;
}
template <std::size_t D>
static void shape(long key, const Geometry::ReferenceGeometry& g) {
    const std::vector<long> a{0, 1, 2}, b{6, 7}, c{8, 9, 10};
    auto *s = make(0, a), *t = make(1, b);
    everything<D>(key * 10, g, s, a, false);
    everything<D>(key * 10 + 1, g, t, b, true);
    everything<D>(key * 10 + 2, g, s, a, true);
    s->~BasisFunctionSet();
    s = make(0, c);  // another set at the same address
    everything<D>(key * 10 + 3, g, s, c, false);
    everything<D>(key * 10 + 4, g, t, b, false);
    s->~BasisFunctionSet();
    t->~BasisFunctionSet();
}
extern "C" void probe_qrcache1() {
    shape<1>(1, Geometry::ReferenceLine::Instance());
    shape<2>(2, Geometry::ReferenceSquare::Instance());
    shape<2>(3, Geometry::ReferenceTriangle::Instance());
}
extern "C" void probe_qrcache2() { shape<3>(4, Geometry::ReferenceCube::Instance()); }
extern "C" void probe_qrcache3() {
    shape<3>(5, Geometry::ReferenceTetrahedron::Instance());
    shape<3>(6, Geometry::ReferencePyramid::Instance());
}
extern "C" void probe_qrcache4() { shape<3>(7, Geometry::ReferenceTriangularPrism::Instance()); }

#pragma once
#include "vt.h"
#include "Geometry/PointReference.h"
#include "Geometry/PointPhysical.h"
#include "Geometry/Jacobian.h"
#include "Geometry/ReferenceGeometry.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
using namespace hpgem;
namespace vt {
template <std::size_t D>
Geometry::PointReference<D> symPoint(int base = 0) {
    Geometry::PointReference<D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = vt_sym(base + d);
    return p;
}
template <>
inline Geometry::PointReference<0> symPoint<0>(int) { return Geometry::PointReference<0>(); }
template <class P>
void point(const char* tag, long i, long j, const P& p, std::size_t D) {
    for (std::size_t d = 0; d < D; ++d) vt_emit_d(tag, i, j, d, p[d]);
}
template <std::size_t R, std::size_t C>
void mat(const char* tag, long i, long j, const LinearAlgebra::SmallMatrix<R, C>& m) {
    for (std::size_t r = 0; r < R; ++r)
        for (std::size_t c = 0; c < C; ++c) vt_emit_d(tag, i, j, r * 10 + c, m(r, c));
}
inline void list(const char* tag, long i, long j, const std::vector<std::size_t>& v) {
    vt_emit_i(tag, i, j, -1, v.size());
    for (std::size_t k = 0; k < v.size(); ++k) vt_emit_i(tag, i, j, k, v[k]);
}
}  // namespace vt

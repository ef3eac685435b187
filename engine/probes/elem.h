// Elements with opaque basis functions: every value, derivative, vector component, curl component and divergence of every
// function is an affine function of the reference point with coefficients that are independent indeterminates.
#pragma once
#include "common.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Zone.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BaseBasisFunction.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
namespace op {
using namespace hpgem;
template <std::size_t D>
using PR = Geometry::PointReference<D>;
template <std::size_t D>
using SV = LinearAlgebra::SmallVector<D>;
enum { VALUE = 0, DERIV = 1, VEC = 5, CURL = 9, DIV = 13 };
template <std::size_t D>
double f(long id, long slot, const PR<D>& p) {
    const long s = 1000 + (id * 16 + slot) * 5;
    double v = vt_sym(s);
    for (std::size_t k = 0; k < D; ++k) v += p[k] * vt_sym(s + 1 + k);
    return v;
}
template <std::size_t D>
SV<D> fv(long id, long slot, const PR<D>& p, std::size_t n = D) {
    SV<D> r;
    for (std::size_t k = 0; k < n; ++k) r[k] = f(id, slot + k, p);
    return r;
}
class Fun : public FE::BaseBasisFunction {
   public:
    explicit Fun(long id) : id_(id) {}
    double eval(const PR<1>& p) const final { return f(id_, VALUE, p); }
    double eval(const PR<2>& p) const final { return f(id_, VALUE, p); }
    double eval(const PR<3>& p) const final { return f(id_, VALUE, p); }
    void eval(const PR<2>& p, SV<2>& r) const final { r = fv(id_, VEC, p); }
    void eval(const PR<3>& p, SV<3>& r) const final { r = fv(id_, VEC, p); }
    double evalDeriv0(const PR<1>& p) const final { return f(id_, DERIV, p); }
    double evalDeriv0(const PR<2>& p) const final { return f(id_, DERIV, p); }
    double evalDeriv0(const PR<3>& p) const final { return f(id_, DERIV, p); }
    double evalDeriv1(const PR<2>& p) const final { return f(id_, DERIV + 1, p); }
    double evalDeriv1(const PR<3>& p) const final { return f(id_, DERIV + 1, p); }
    double evalDeriv2(const PR<3>& p) const final { return f(id_, DERIV + 2, p); }
    SV<1> evalDeriv(const PR<1>& p) const final { return fv(id_, DERIV, p); }
    SV<2> evalDeriv(const PR<2>& p) const final { return fv(id_, DERIV, p); }
    SV<3> evalDeriv(const PR<3>& p) const final { return fv(id_, DERIV, p); }
    SV<2> evalCurl(const PR<2>& p) const final { return fv(id_, CURL, p, 1); }
    SV<3> evalCurl(const PR<3>& p) const final { return fv(id_, CURL, p); }
    double evalDiv(const PR<2>& p) const final { return f(id_, DIV, p); }
    double evalDiv(const PR<3>& p) const final { return f(id_, DIV, p); }

   private:
    long id_;
};
typedef Base::Element::CollectionOfBasisFunctionSets Sets;
inline std::shared_ptr<const FE::BasisFunctionSet> mkset(long first, long n, std::size_t order) {
    auto* s = new FE::BasisFunctionSet(order);
    for (long i = 0; i < n; ++i) s->addBasisFunction(new Fun(first + i));
    return std::shared_ptr<const FE::BasisFunctionSet>(s);
}
// 0: functions 0..2, 1: functions 3,4, 2: function 5, 3: functions 6,7, 4: functions 8..11
inline const Sets& sets() {
    static Sets s{mkset(0, 3, 1), mkset(3, 2, 1), mkset(5, 1, 1), mkset(6, 2, 1), mkset(8, 4, 2)};
    return s;
}
inline Base::Zone& zone() {
    static Base::Zone z("z", 0);
    return z;
}
// pairs of observed and expected values
inline void eq(const char* t, long i, long j, long k, double got, double want) {
    vt_emit_d(t, i, j, k, got);
    vt_emit_d(t, i, j, k + 1000000, want);
}
inline void eqi(const char* t, long i, long j, long k, long got, long want) {
    vt_emit_i(t, i, j, k, got);
    vt_emit_i(t, i, j, k + 1000000, want);
}
template <class A, class B>
void eqv(const char* t, long i, long j, long k, const A& got, const B& want, std::size_t n) {
    for (std::size_t d = 0; d < n; ++d) eq(t, i, j, k * 10 + d, got[d], want[d]);
}
template <std::size_t D>
std::vector<Geometry::PointPhysical<D>>& nodesSym(std::size_t n, int base) {
    auto* v = new std::vector<Geometry::PointPhysical<D>>(n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) (*v)[i][d] = vt_sym(base + i * D + d);
    return *v;
}
inline std::vector<std::size_t> iota(std::size_t n, std::size_t first = 0) {
    std::vector<std::size_t> v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = first + i;
    return v;
}
}  // namespace op
#define TRYC(op_, cfg, ...) vtTry(op_, [&] { vt_emit_i("try." op_, cfg, 0, 0, 1); __VA_ARGS__; })

// Probe: coordinate transformations of function values with a symbolic Jacobian (entries 100+10r+c), values 200.., gradient 210.., curl 220.., div 230
#include "elem.h"
using namespace op;
template <std::size_t D>
static Base::ValueCoordinateTransformationData<D> data() {
    Geometry::Jacobian<D, D> J;
    for (std::size_t r = 0; r < D; ++r)
        for (std::size_t c = 0; c < D; ++c) J(r, c) = vt_sym(100 + 10 * r + c);
    Base::ValueCoordinateTransformationData<D> d;
    d.setJacobian(J);
    return d;
}
template <std::size_t D>
static SV<D> sv(int base) {
    SV<D> v;
    for (std::size_t i = 0; i < D; ++i) v[i] = vt_sym(base + i);
    return v;
}
template <std::size_t D>
static void out(const char* t, const SV<D>& v) {
    for (std::size_t i = 0; i < D; ++i) vt_emit_d(t, D, i, 0, v[i]);
}
template <std::size_t D>
static void h1() {
    TRYC("data", D, {
        auto d = data<D>();
        for (std::size_t r = 0; r < D; ++r)
            for (std::size_t c = 0; c < D; ++c) {
                vt_emit_d("data.J", D, r, c, d.getJacobian()(r, c));
                vt_emit_d("data.T", D, r, c, d.getTransposeJacobian()(r, c));
            }
        vt_emit_d("data.det", D, 0, 0, d.getJacobianDet());
    });
    TRYC("h1.val", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::H1ConformingTransformation<D>()); vt_emit_d("h1.val", D, 0, 0, t->transform(vt_sym(200), d)); });
    TRYC("h1.grad", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::H1ConformingTransformation<D>()); out<D>("h1.grad", t->transformDeriv(sv<D>(210), d)); });
}
template <std::size_t D>
static void vecs() {
    TRYC("hcurl.val", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::HCurlConformingTransformation<D>()); out<D>("hcurl.val", t->transform(sv<D>(200), d)); });
    TRYC("hcurl.curl", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::HCurlConformingTransformation<D>()); SV<D> c = sv<D>(220); if (D == 2) c[1] = 0; out<D>("hcurl.curl", t->transformCurl(c, d)); });
    TRYC("hdiv.val", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::HDivConformingTransformation<D>()); out<D>("hdiv.val", t->transform(sv<D>(200), d)); });
    TRYC("hdiv.div", D, { auto d = data<D>(); std::unique_ptr<Base::CoordinateTransformation<D>> t(new Base::HDivConformingTransformation<D>()); vt_emit_d("hdiv.div", D, 0, 0, t->transformDiv(vt_sym(230), d)); });
}
extern "C" void probe_transform() {
    h1<1>();
    h1<2>();
    h1<3>();
    h1<4>();
    vecs<2>();
    vecs<3>();
}

// The discretisations of DG-Max on meshes with opaque basis functions: matrices, vectors, fields, fluxes and errors, each together with its definition.
// symbols: eps, mu of element e: 100+10e, 101+10e; stabilisation 50..52; sources 60..; coefficients 2000.. ; k 70; basis functions 100000..
#include "elem.h"
#include <deque>
#define private public
#include "mesh.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "Output/VTKSpecificTimeWriter.h"
#undef private
#include "meshcases.inc"
const MeshCase* ::vts::current = nullptr;
using namespace op;
typedef std::complex<double> C;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
using LinearAlgebra::SmallVectorC;
Logger<HPGEM_LOGLEVEL> DGMaxLogger("DGMax");
static long cfg;
static double S(int n) { return vt_sym(n); }
// ---- materials
struct Tensor : ElementInfos {
    long e;
    Tensor(long n, double eps, double mu) : ElementInfos(eps, mu), e(n) {}
    static C entry(long e, int kind, int i) { return C(1.5 + 0.25 * e + i + 4 * kind, (kind % 2 ? -0.5 : 0.75) * (i + 1) + 0.125 * e); }
    static DGMax::MaterialTensor make(long e, int kind) {
        LinearAlgebra::SmallVectorC<3> v;
        for (int i = 0; i < 3; ++i) v[i] = entry(e, kind, i);
        return DGMax::MaterialTensor(v);
    }
    DGMax::MaterialTensor getMaterialConstantDiv(const PointPhysicalBase&) const override { return make(e, 0); }
    DGMax::MaterialTensor getMaterialConstantCurl(const PointPhysicalBase&) const override { return make(e, 1); }
    DGMax::MaterialTensor getFieldRescaling(const PointPhysicalBase&) const override { return make(e, 2); }
    DGMax::MaterialTensor getCurlFieldRescaling(const PointPhysicalBase&) const override { return make(e, 3); }
};
static int mode;  // 0: scalars, 1: tensors
static long num(const Base::Element* e) { return e->getID() % 2; }
static double eps(const Base::Element* e) { return S(100 + 10 * num(e)); }
static double mu(const Base::Element* e) { return S(101 + 10 * num(e)); }
// kind 0: epsilon, 1: 1/mu (curls), 2: rescaling of the field, 3: rescaling of curls (inverse)
static C coef(const Base::Element* e, int kind, std::size_t i) {
    if (mode == 1) return kind % 2 ? 1. / Tensor::entry(num(e), kind, i) : Tensor::entry(num(e), kind, i);
    if (kind == 0) return eps(e);
    if (kind == 1) return 1. / mu(e);
    return 1.;
}
template <std::size_t D>
using CV = std::array<C, D>;
template <std::size_t D, class V>
CV<D> scaled(const Base::Element* e, int kind, const V& v) {
    CV<D> r;
    // curls in two dimensions have one entry, which is the one along the third axis
    for (std::size_t i = 0; i < D; ++i) r[i] = coef(e, kind, kind % 2 && D == 2 ? 2 : i) * v[i];
    return r;
}
template <std::size_t D, class A, class B>
C dot(const A& a, const B& b) {
    C r = 0;
    for (std::size_t i = 0; i < D; ++i) r += a[i] * b[i];
    return r;
}
// ---- integrals by their definition
template <std::size_t D>
struct At {
    const Base::Element* e;
    Base::PhysicalElement<D> p;
    At(const Base::Element* el) : e(el) {
        p.setTransformation(std::make_shared<Base::HCurlConformingTransformation<D>>(), 0);
        if (el->getNumberOfUnknowns() > 1) p.setTransformation(std::make_shared<Base::H1ConformingTransformation<D>>(), 1);
        p.setElement(el);
    }
    SV<D> u(std::size_t i) {
        SV<D> r;
        p.basisFunction(i, r, 0);
        return r;
    }
    SV<D> curl(std::size_t i) { return p.basisFunctionCurl(i, 0); }
    double q(std::size_t i) { return p.basisFunction(i, 1); }
    SV<D> grad(std::size_t i) { return p.basisFunctionDeriv(i, 1); }
    std::size_t nu() const { return e->getNumberOfBasisFunctions(0); }
    std::size_t np() const { return e->getNumberOfUnknowns() > 1 ? e->getNumberOfBasisFunctions(1) : 0; }
};
template <std::size_t D, class F>
void element(const Base::Element* e, F f) {
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        At<D> a(e);
        const PR<D>& x = rule->getPoint(q);
        a.p.setPointReference(x);
        const double det = e->calcJacobian(x).determinant();
        f(a, rule->weight(q) * (det < 0 ? -det : det));
    }
}
template <std::size_t D>
struct Trace {
    std::deque<At<D>> side;
    SV<D> n;  // unit normal, out of the left element
    Geometry::PointPhysical<D> x;
    const Base::Face* f;
    double diameter() const { return f->getDiameter(); }
    int sign(int s) const { return s ? -1 : 1; }
    CV<D> cross(int s, std::size_t i) { return cross(s, side[s].u(i)); }
    template <class V>
    CV<D> cross(int s, const V& v) {
        CV<D> r;
        const double g = sign(s);
        if constexpr (D == 2) {
            r[0] = g * (n[0] * v[1] - n[1] * v[0]);
            r[1] = 0;
        } else
            for (std::size_t i = 0; i < 3; ++i) r[i] = g * (n[(i + 1) % 3] * v[(i + 2) % 3] - n[(i + 2) % 3] * v[(i + 1) % 3]);
        return r;
    }
};
template <std::size_t D, class F>
void face(const Base::Face* f, F g) {
    auto* rule = f->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        Trace<D> t;
        t.f = f;
        const PR<D - 1>& x = rule->getPoint(q);
        t.side.emplace_back(f->getPtrElementLeft());
        t.side.back().p.setPointReference(f->mapRefFaceToRefElemL(x));
        t.x = f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(x));
        if (f->isInternal()) {
            t.side.emplace_back(f->getPtrElementRight());
            t.side.back().p.setPointReference(f->mapRefFaceToRefElemR(x));
        }
        t.n = f->getNormalVector(x);
        const double len = t.n.l2Norm();
        t.n /= len;
        g(t, rule->weight(q) * len);
    }
}
typedef std::vector<std::vector<C>> M;
static M zero(std::size_t r, std::size_t c) { return M(r, std::vector<C>(c, C(0))); }
static void same(const char* t, long i, long j, long k, C got, C want) {
    eq(t, cfg * 100 + i, j, 2 * k, got.real(), want.real());
    eq(t, cfg * 100 + i, j, 2 * k + 1, got.imag(), want.imag());
}
static void same(const char* t, long i, const MiddleSizeMatrix& got, const M& want) {
    eqi(t, cfg * 100 + i, 0, 99990, got.getNumberOfRows(), want.size());
    if (!want.empty()) eqi(t, cfg * 100 + i, 0, 99991, got.getNumberOfColumns(), want[0].size());
    for (std::size_t r = 0; r < want.size() && r < got.getNumberOfRows(); ++r)
        for (std::size_t c = 0; c < want[r].size() && c < got.getNumberOfColumns(); ++c) same(t, i, 100 * r + c, 0, got(r, c), want[r][c]);
}
static void same(const char* t, long i, const MiddleSizeVector& got, const std::vector<C>& want) {
    eqi(t, cfg * 100 + i, 0, 99990, got.size(), want.size());
    for (std::size_t r = 0; r < want.size() && r < got.size(); ++r) same(t, i, r, 0, got[r], want[r]);
}

// ---- data
static C SC(int n) { return C(S(n), S(n + 1)); }
template <std::size_t D>
SmallVectorC<D> vec(int n) {
    SmallVectorC<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = SC(n + 2 * i);
    return r;
}
using BCT = DGMax::BoundaryConditionType;
typedef DGMax::AbstractDiscretizationBase AB;
static int boundary;
static BCT condition(const Base::Face&) { return boundary == 0 ? BCT::DIRICHLET : boundary == 1 ? BCT::NEUMANN : BCT::SILVER_MULLER; }
template <std::size_t D>
struct Background : DGMax::FieldPattern<D> {
    SmallVectorC<D> field(const Geometry::PointPhysical<D>&) const override { return vec<D>(70); }
    SmallVectorC<D> fieldCurl(const Geometry::PointPhysical<D>&) const override {
        SmallVectorC<D> r = vec<D>(80);
        if (D == 2) r[1] = 0;
        return r;
    }
    SmallVectorC<D> fieldDoubleCurl(const Geometry::PointPhysical<D>&, const DGMax::MaterialTensor&) const override { return vec<D>(90); }
};
static std::map<std::string, std::map<long, std::vector<double>>> written;
static const double at_[3] = {0.125, 0.25, 0.375};
namespace hpgem {
namespace vts {
void field(const std::string& name, const Base::Element* e, const double* v, std::size_t n) { written[name][num(e)] = std::vector<double>(v, v + n); }
template <std::size_t D>
Geometry::PointReference<D> where() {
    Geometry::PointReference<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = at_[i];
    return p;
}
template Geometry::PointReference<2> where<2>();
template Geometry::PointReference<3> where<3>();
}  // namespace vts
}  // namespace hpgem
// functions with known values and opaque derivatives, so that mass matrices can be factorised
class Known : public FE::BaseBasisFunction {
   public:
    explicit Known(long id) : id_(id) {}
    double eval(const PR<1>& p) const final { return val(0, p); }
    double eval(const PR<2>& p) const final { return val(0, p); }
    double eval(const PR<3>& p) const final { return val(0, p); }
    void eval(const PR<2>& p, SV<2>& r) const final { r[0] = val(1, p), r[1] = val(2, p); }
    void eval(const PR<3>& p, SV<3>& r) const final { r[0] = val(1, p), r[1] = val(2, p), r[2] = val(3, p); }
    SV<1> evalDeriv(const PR<1>& p) const final { return fv(id_, DERIV, p); }
    SV<2> evalDeriv(const PR<2>& p) const final { return fv(id_, DERIV, p); }
    SV<3> evalDeriv(const PR<3>& p) const final { return fv(id_, DERIV, p); }
    SV<2> evalCurl(const PR<2>& p) const final { return fv(id_, CURL, p, 1); }
    SV<3> evalCurl(const PR<3>& p) const final { return fv(id_, CURL, p); }

   private:
    template <std::size_t D>
    double val(int k, const PR<D>& p) const {
        double v = (id_ + k) % 3 == 0 ? 2. : 0.25 * (id_ % 2);
        for (std::size_t i = 0; i < D; ++i) v += p[i] * ((id_ * 5 + k * 3 + i * 7) % 4 - 1.5);
        return v;
    }
    long id_;
};
static const FE::BasisFunctionSet* mk(long first, long n, bool known) {
    auto* s = new FE::BasisFunctionSet(1);
    for (long i = 0; i < n; ++i) s->addBasisFunction(known ? (FE::BaseBasisFunction*)new Known(first + i) : new Fun(first + i));
    return s;
}
template <std::size_t D>
struct World {
    Base::ConfigurationData conf;
    std::unique_ptr<Base::MeshManipulator<D>> mesh;
    std::vector<Base::Element*> els;
    std::vector<Base::Face*> faces;
    std::vector<double> k_;
    World(std::size_t unknowns, bool known) : conf(unknowns, 3), mesh(new Base::MeshManipulator<D>(&conf, 3, 3, 2, 2)) {
        mesh->readMesh("mesh.hpgem");
        std::size_t first = mesh->collBasisFSet_.size();
        mesh->addVertexBasisFunctionSet({mk(0, 2, known), mk(2, 3, known), mk(5, 1, known), mk(6, 2, known)});
        for (Base::Element* e : mesh->getElementsList()) {
            els.push_back(e);
            for (std::size_t u = 0; u < unknowns; ++u) e->setDefaultBasisFunctionSet(first + 2 * u + num(e) % 2, u);
            if (mode == 1)
                e->setUserData(new Tensor(num(e), eps(e), mu(e)));
            else
                e->setUserData(new ElementInfos(eps(e), mu(e)));
            e->setNumberOfTimeIntegrationVectors(3);
            for (std::size_t t = 0; t < 3; ++t) {
                MiddleSizeVector v(e->getTotalNumberOfBasisFunctions());
                for (std::size_t i = 0; i < v.size(); ++i) v[i] = c(e, i, t);
                e->setTimeIntegrationVector(t, v);
            }
        }
        // one face between the elements and one on the boundary of each of them
        int seen = 0;
        for (Base::Face* f : mesh->getFacesList()) {
            int bit = f->isInternal() ? 4 : 1 << num(f->getPtrElementLeft());
            if (seen & bit) continue;
            seen |= bit;
            faces.push_back(f);
        }
    }
    C c(const Base::Element* e, std::size_t i, std::size_t t) { return SC(3000 + 200 * t + 40 * num(e) + 2 * i); }
    std::size_t unknowns() { return els[0]->getNumberOfUnknowns(); }
};
static std::size_t total(const Base::Face* f, int s, int unknowns = 2) {
    const Base::Element* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
    return e->getNumberOfBasisFunctions(0) + (unknowns > 1 ? e->getNumberOfBasisFunctions(1) : 0);
}
static long fid(const Base::Face* f) { return f->isInternal() ? 2 : num(f->getPtrElementLeft()); }
// ---- the bilinear forms
template <std::size_t D>
std::array<M, 3> elementForms(const Base::Element* e, bool mixed) {
    std::size_t u = e->getNumberOfBasisFunctions(0), p = e->getNumberOfUnknowns() > 1 ? e->getNumberOfBasisFunctions(1) : 0, n = mixed ? u + p : u;
    std::array<M, 3> r{zero(n, n), zero(n, n), zero(p, u)};
    element<D>(e, [&](At<D>& a, double w) {
        for (std::size_t j = 0; j < u; ++j) {
            auto uj = a.u(j);
            auto cj = a.curl(j);
            for (std::size_t i = 0; i < u; ++i) {
                r[0][j][i] += w * dot<D>(scaled<D>(e, 0, a.u(i)), uj);
                r[1][j][i] += w * dot<D>(scaled<D>(e, 1, a.curl(i)), cj);
            }
            for (std::size_t i = 0; i < p; ++i) {
                C v = w * dot<D>(scaled<D>(e, 0, uj), a.grad(i));
                r[2][i][j] += v;
                if (mixed) {
                    r[1][u + i][j] -= v;
                    r[1][j][u + i] -= std::conj(v);
                }
            }
        }
    });
    return r;
}
struct Flags {
    bool mixed, ip1, ip2, ip3;
    double s1, s2, s3;
};
template <std::size_t D>
M faceForm(const Base::Face* f, BCT bct, Flags fl) {
    std::size_t l = total(f, 0, fl.mixed ? 2 : 1), n = l + (f->isInternal() ? total(f, 1, fl.mixed ? 2 : 1) : 0);
    M r = zero(n, n);
    const double avg = f->isInternal() ? 0.5 : 1.;
    face<D>(f, [&](Trace<D>& t, double w) {
        const double h = t.diameter();
        for (int a = 0; a < (int)t.side.size(); ++a)
            for (int b = 0; b < (int)t.side.size(); ++b) {
                const Base::Element *ea = t.side[a].e, *eb = t.side[b].e;
                std::size_t oa = a ? l : 0, ob = b ? l : 0;
                // a: trial functions, b: test functions
                if (f->isInternal() || bct == BCT::DIRICHLET)
                    for (std::size_t i = 0; i < t.side[a].nu(); ++i)
                        for (std::size_t j = 0; j < t.side[b].nu(); ++j) {
                            CV<D> ni = t.cross(a, i), nj = t.cross(b, j);
                            C v = -avg * (dot<D>(scaled<D>(ea, 1, t.side[a].curl(i)), nj) + dot<D>(ni, scaled<D>(eb, 1, t.side[b].curl(j))));
                            if (fl.ip1) v += fl.s1 / h * dot<D>(ni, nj);
                            if (fl.mixed && fl.ip2 && f->isInternal()) {
                                C x = (double)t.sign(a) * dot<D>(scaled<D>(ea, 0, t.side[a].u(i)), t.n), y = (double)t.sign(b) * dot<D>(scaled<D>(eb, 0, t.side[b].u(j)), t.n);
                                v += fl.s2 * h * x * std::conj(y);
                            }
                            r[ob + j][oa + i] += w * v;
                        }
                if (!fl.mixed) continue;
                for (std::size_t i = 0; i < t.side[a].nu(); ++i)
                    for (std::size_t j = 0; j < t.side[b].np(); ++j) {
                        C v = w * avg * dot<D>(scaled<D>(ea, 0, t.side[a].u(i)), t.n) * (t.sign(b) * t.side[b].q(j));
                        r[ob + t.side[b].nu() + j][oa + i] += v;
                        r[oa + i][ob + t.side[b].nu() + j] += std::conj(v);
                    }
                if (fl.ip3)
                    for (std::size_t i = 0; i < t.side[a].np(); ++i)
                        for (std::size_t j = 0; j < t.side[b].np(); ++j) r[ob + t.side[b].nu() + j][oa + t.side[a].nu() + i] -= w * fl.s3 / h * (t.sign(a) * t.side[a].q(i)) * (t.sign(b) * t.side[b].q(j));
            }
    });
    return r;
}
template <std::size_t D>
M impedance(const Base::Face* f, BCT bct, bool mixed) {
    std::size_t n = total(f, 0, mixed ? 2 : 1) + (f->isInternal() ? total(f, 1, mixed ? 2 : 1) : 0);
    M r = zero(n, n);
    if (f->isInternal() || bct != BCT::SILVER_MULLER) return r;
    const Base::Element* e = f->getPtrElementLeft();
    const double z = std::sqrt(eps(e) / mu(e));
    face<D>(f, [&](Trace<D>& t, double w) {
        for (std::size_t i = 0; i < t.side[0].nu(); ++i)
            for (std::size_t j = 0; j < t.side[0].nu(); ++j) r[j][i] += C(0, -z * w) * dot<D>(t.cross(0, i), t.cross(0, j));
    });
    return r;
}
template <std::size_t D>
std::vector<C> faceSource(const Base::Face* f, BCT bct, bool mixed, bool ip1, double s1) {
    std::size_t n = total(f, 0, mixed ? 2 : 1) + (f->isInternal() ? total(f, 1, mixed ? 2 : 1) : 0);
    std::vector<C> r(n, C(0));
    if (f->isInternal()) return r;
    auto g = vec<D>(60);
    face<D>(f, [&](Trace<D>& t, double w) {
        for (std::size_t i = 0; i < t.side[0].nu(); ++i) {
            C v = dot<D>(g, t.cross(0, i));
            if (bct == BCT::DIRICHLET) {
                v = -dot<D>(g, scaled<D>(t.side[0].e, 1, t.side[0].curl(i)));
                if (ip1) v += s1 / t.diameter() * dot<D>(g, t.cross(0, i));
            }
            r[i] += w * v;
        }
    });
    return r;
}
template <std::size_t D>
std::vector<C> elementSource(const Base::Element* e, bool mixed) {
    std::vector<C> r(mixed ? e->getTotalNumberOfBasisFunctions() : e->getNumberOfBasisFunctions(0), C(0));
    auto g = vec<D>(60);
    element<D>(e, [&](At<D>& a, double w) {
        for (std::size_t i = 0; i < a.nu(); ++i) r[i] += w * dot<D>(g, a.u(i));
    });
    return r;
}
// the fields themselves
template <std::size_t D>
CV<D> fieldAt(World<D>& W, At<D>& a, std::size_t t, bool curl, bool rescale) {
    CV<D> r{};
    for (std::size_t i = 0; i < a.nu(); ++i) {
        auto v = curl ? a.curl(i) : a.u(i);
        C c = W.c(a.e, i, t);
        for (std::size_t k = 0; k < D; ++k) r[k] += c * v[k];
    }
    return rescale ? scaled<D>(a.e, curl ? 3 : 2, r) : r;
}
template <std::size_t D>
double norm2(const CV<D>& v) {
    double r = 0;
    for (std::size_t i = 0; i < D; ++i) r += v[i].real() * v[i].real() + v[i].imag() * v[i].imag();
    return r;
}
template <std::size_t D, class Disc>
void forms(World<D>& W, Disc& d, bool mixed, Flags fl, int what) {
    typename DGMax::AbstractDiscretization<D>::InputFunction src = [](const Base::Element&, const Geometry::PointPhysical<D>&) { return vec<D>(60); };
    typename DGMax::AbstractDiscretization<D>::FaceInputFunction bnd = [](Base::PhysicalFace<D>&) { return vec<D>(60); };
    if (what == 0) {
        d.computeElementIntegrals(*W.mesh, {{0, src}, {1, nullptr}});
        for (Base::Element* e : W.els) {
            auto r = elementForms<D>(e, mixed);
            same("mass", num(e), e->getElementMatrix(AB::MASS_MATRIX_ID), r[0]);
            same("stiffness", num(e), e->getElementMatrix(AB::STIFFNESS_MATRIX_ID), r[1]);
            if (!mixed && W.unknowns() > 1) same("projector", num(e), e->getElementMatrix(2), r[2]);
            same("source", num(e), e->getElementVector(0), elementSource<D>(e, mixed));
            same("source.none", num(e), e->getElementVector(1), std::vector<C>(mixed ? e->getTotalNumberOfBasisFunctions() : e->getNumberOfBasisFunctions(0), C(0)));
        }
    } else {
        d.computeFaceIntegrals(*W.mesh, {{0, bnd}, {1, nullptr}}, condition);
        for (Base::Face* f : W.faces) {
            if (boundary > 0 && f->isInternal()) continue;
            BCT b = f->isInternal() ? BCT::INTERNAL : condition(*f);
            long id = fid(f) + 10 * boundary;
            same("face", id, f->getFaceMatrix(AB::FACE_STIFFNESS_MATRIX_ID).getEntireMatrix(), faceForm<D>(f, b, fl));
            same("impedance", id, f->getFaceMatrix(AB::FACE_IMPEDANCE_MATRIX_ID).getEntireMatrix(), impedance<D>(f, b, mixed));
            same("boundary", id, f->getFaceVector(0), faceSource<D>(f, b, mixed, fl.ip1, fl.s1));
            same("boundary.none", id, f->getFaceVector(1), std::vector<C>(faceSource<D>(f, b, mixed, false, 0).size(), C(0)));
        }
    }
}
template <std::size_t D, class Disc>
void fields(World<D>& W, Disc& d, bool mixed) {
    typename DGMax::AbstractDiscretization<D>::InputFunction src = [](const Base::Element& e, const Geometry::PointPhysical<D>&) { return vec<D>(60); };
    auto x = hpgem::vts::where<D>();
    for (Base::Element* e : W.els) {
        At<D> a(e);
        a.p.setPointReference(x);
        auto E = fieldAt<D>(W, a, 1, false, true), R = fieldAt<D>(W, a, 1, true, true);
        auto g = d.computeField(e, x, e->getTimeIntegrationVector(1));
        auto h = d.computeCurlField(e, x, e->getTimeIntegrationVector(1));
        for (std::size_t k = 0; k < D; ++k) {
            same("field", num(e), k, 0, g[k], E[k]);
            same("curl", num(e), k, 0, h[k], R[k]);
        }
    }
    written.clear();
    Output::VTKSpecificTimeWriter<D> wr("x", W.mesh.get());
    d.writeFields(wr, 1);
    for (Base::Element* e : W.els) {
        At<D> a(e);
        a.p.setPointReference(x);
        auto E = fieldAt<D>(W, a, 1, false, true), R = fieldAt<D>(W, a, 1, true, true);
        std::map<std::string, std::vector<double>> want;
        CV<D> S;
        if constexpr (D == 2) {
            S[0] = E[1] * std::conj(R[0]);
            S[1] = -E[0] * std::conj(R[0]);
        } else
            for (int k = 0; k < 3; ++k) S[k] = E[(k + 1) % 3] * std::conj(R[(k + 2) % 3]) - E[(k + 2) % 3] * std::conj(R[(k + 1) % 3]);
        auto& re = want[mixed ? "E-real" : "Ereal"];
        auto& im = want[mixed ? "E-imag" : "Eimag"];
        for (std::size_t k = 0; k < D; ++k) {
            re.push_back(E[k].real());
            im.push_back(E[k].imag());
            want["S-kappa-real"].push_back(-0.5 * S[k].imag() / mu(e));
        }
        want["Emag"] = {std::sqrt(norm2<D>(E))};
        want["Energy"] = {eps(e) * norm2<D>(E)};
        want["epsilon"] = {eps(e)};
        if (mixed) {
            C p = 0;
            for (std::size_t i = 0; i < a.np(); ++i) p += W.c(e, a.nu() + i, 1) * a.q(i);
            want["p-real"] = {p.real()};
            want["p-imag"] = {p.imag()};
        }
        long k = 0;
        for (auto& w : want) {
            auto& got = written[w.first][num(e)];
            eqi("written", cfg * 100 + num(e), k, 99990, got.size(), w.second.size());
            for (std::size_t i = 0; i < got.size() && i < w.second.size(); ++i) eq("written", cfg * 100 + num(e), k, i, got[i], w.second[i]);
            ++k;
        }
    }
    double want = 0;
    for (Base::Element* e : W.els)
        element<D>(e, [&](At<D>& a, double w) {
            auto E = fieldAt<D>(W, a, 1, false, true);
            auto g = vec<D>(60);
            for (std::size_t k = 0; k < D; ++k) E[k] = g[k] - E[k];
            want += w * norm2<D>(E);
            if (mixed) {
                C p = 0;
                for (std::size_t i = 0; i < a.np(); ++i) p += W.c(e, a.nu() + i, 1) * a.q(i);
                want += w * (p.real() * p.real() + p.imag() * p.imag());
            }
        });
    eq("l2error", cfg * 100, 0, 0, d.computeL2Error(*W.mesh, 1, src), std::sqrt(want));
    for (Base::Face* f : W.faces)
        for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
            double w2 = 0;
            face<D>(f, [&](Trace<D>& t, double w) { w2 += w * norm2<D>(fieldAt<D>(W, t.side[s], 1, false, true)); });
            eq("faceintegral", cfg * 100 + fid(f), s, 0, d.computeFieldL2Integral(*f, s ? Base::Side::RIGHT : Base::Side::LEFT, 1), w2);
        }
}
template <std::size_t D, class Disc>
void fluxes(World<D>& W, Disc& d) {
    Background<D> bg;
    for (Base::Face* f : W.faces)
        for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s)
            for (int b = 0; b < 2; ++b) {
                double r[4] = {0, 0, 0, 0};
                const Base::Element* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
                face<D>(f, [&](Trace<D>& t, double w) {
                    const double avg = f->isInternal() ? 0.5 : 1.;
                    CV<D> E{}, R{};
                    for (auto& a : t.side) {
                        auto x = t.cross(0, fieldAt<D>(W, a, 1, false, false)), y = fieldAt<D>(W, a, 1, true, false);
                        for (std::size_t k = 0; k < D; ++k) E[k] += avg * x[k], R[k] += avg * y[k];
                    }
                    auto im = [](const CV<D>& x, const CV<D>& y) {
                        C v = 0;
                        for (std::size_t k = 0; k < D; ++k) v += x[k] * std::conj(y[k]);
                        return v.imag();
                    };
                    r[0] += w * im(E, R);
                    if (b) {
                        auto g = t.cross(0, bg.field(t.x));
                        CV<D> h;
                        auto hh = bg.fieldCurl(t.x);
                        for (std::size_t k = 0; k < D; ++k) h[k] = hh[k];
                        r[1] += w * im(g, h);
                        r[2] += w * (im(g, R) + im(E, h));
                        for (std::size_t k = 0; k < D; ++k) E[k] += g[k], R[k] += h[k];
                        r[3] += w * im(E, R);
                    }
                });
                auto got = d.computeEnergyFluxes(*f, s ? Base::Side::RIGHT : Base::Side::LEFT, S(53), 1, b ? &bg : nullptr);
                for (int k = 0; k < 4; ++k) eq("flux", cfg * 100 + fid(f), 2 * s + b, k, got[k], (s ? -1. : 1.) * r[k] / (S(53) * mu(e)));
            }
}
// ---- rescaled systems
static M times(const M& a, const M& b) {
    M r = zero(a.size(), b.empty() ? 0 : b[0].size());
    for (std::size_t i = 0; i < r.size(); ++i)
        for (std::size_t j = 0; j < r[i].size(); ++j)
            for (std::size_t k = 0; k < b.size(); ++k) r[i][j] += a[i][k] * b[k][j];
    return r;
}
static M adj(const M& a, bool conj = true) {
    M r = zero(a.empty() ? 0 : a[0].size(), a.size());
    for (std::size_t i = 0; i < a.size(); ++i)
        for (std::size_t j = 0; j < a[i].size(); ++j) r[j][i] = conj ? std::conj(a[i][j]) : a[i][j];
    return r;
}
// x with a x = b, for a known matrix a
static M solve(M a, M b) {
    std::size_t n = a.size();
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k; i < n; ++i)
            if (std::fabs(a[i][k].real()) > std::fabs(a[p][k].real())) p = i;
        std::swap(a[k], a[p]);
        std::swap(b[k], b[p]);
        for (std::size_t i = 0; i < n; ++i) {
            if (i == k) continue;
            double f = a[i][k].real() / a[k][k].real();
            for (std::size_t j = 0; j < n; ++j) a[i][j] -= f * a[k][j];
            for (auto j = 0u; j < b[i].size(); ++j) b[i][j] -= f * b[k][j];
        }
    }
    for (std::size_t i = 0; i < n; ++i)
        for (auto& x : b[i]) x /= a[i][i].real();
    return b;
}
static M take(const MiddleSizeMatrix& a, bool lower = false) {
    M r = zero(a.getNumberOfRows(), a.getNumberOfColumns());
    for (std::size_t i = 0; i < r.size(); ++i)
        for (std::size_t j = 0; j < r[i].size(); ++j)
            if (!lower || j <= i) r[i][j] = a(i, j);
    return r;
}
static void sameM(const char* t, long i, const M& got, const M& want) {
    eqi(t, cfg * 100 + i, 0, 99990, got.size(), want.size());
    for (std::size_t r = 0; r < want.size() && r < got.size(); ++r)
        for (std::size_t c = 0; c < want[r].size() && c < got[r].size(); ++c) same(t, i, 100 * r + c, 0, got[r][c], want[r][c]);
}
template <std::size_t D>
void rescaled(int handling) {
    World<D> W(2, true);
    DGMaxDiscretization<D> d(1, S(50), true);
    d.setMatrixHandling(handling ? DGMaxDiscretizationBase::ORTHOGONALIZE : DGMaxDiscretizationBase::INVERT);
    Flags fl{false, true, false, false, S(50), 0, 0};
    d.computeElementIntegrals(*W.mesh, {});
    boundary = 0;
    d.computeFaceIntegrals(*W.mesh, {}, condition);
    std::map<const Base::Element*, M> L;
    for (Base::Element* e : W.els) {
        auto r = elementForms<D>(e, false);
        if (handling == 0) {
            M one = zero(r[0].size(), r[0].size());
            for (std::size_t i = 0; i < one.size(); ++i) one[i][i] = 1;
            sameM("invert", num(e), times(take(e->getElementMatrix(0)), r[0]), one);
            sameM("invert", 10 + num(e), take(e->getElementMatrix(1)), r[1]);
            continue;
        }
        M l = L[e] = take(e->getElementMatrix(0), true);
        sameM("cholesky", num(e), times(l, adj(l)), r[0]);
        sameM("ortho", num(e), times(times(l, take(e->getElementMatrix(1))), adj(l)), r[1]);
        sameM("orthoproj", num(e), times(take(e->getElementMatrix(2)), adj(l)), r[2]);
    }
    for (Base::Face* f : W.faces) {
        M r = faceForm<D>(f, f->isInternal() ? BCT::INTERNAL : BCT::DIRICHLET, fl), got = take(f->getFaceMatrix(0).getEntireMatrix());
        if (handling == 1) {
            M l = zero(r.size(), r.size());
            std::size_t o = 0;
            for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
                M& x = L[s ? f->getPtrElementRight() : f->getPtrElementLeft()];
                for (std::size_t i = 0; i < x.size(); ++i)
                    for (std::size_t j = 0; j < x.size(); ++j) l[o + i][o + j] = x[i][j];
                o += x.size();
            }
            got = times(times(l, got), adj(l));
        }
        sameM("orthoface", fid(f), got, r);
    }
    if (handling == 0) return;
    // the coefficients of the rescaled system are L^H times the ones of the field
    for (Base::Element* e : W.els) {
        M l = adj(L[e]);
        MiddleSizeVector v = e->getTimeIntegrationVector(1);
        for (std::size_t i = 0; i < l.size(); ++i) {
            C x = 0;
            for (std::size_t j = 0; j < l.size(); ++j) x += l[i][j] * W.c(e, j, 1);
            v[i] = x;
        }
        e->setTimeIntegrationVector(1, v);
    }
    written.clear();
    Output::VTKSpecificTimeWriter<D> wr("x", W.mesh.get());
    auto x = hpgem::vts::where<D>();
    // the writer needs all coefficients to belong to the system
    fluxes<D>(W, d);
}
// the fluxes of Brezzi et al.: with lifting operators
template <std::size_t D>
M lifted(World<D>& W, const Base::Face* f, BCT bct, bool b1, bool b2, bool b3, std::vector<C>* vecOut) {
    std::size_t n0 = total(f, 0), n = n0 + (f->isInternal() ? total(f, 1) : 0);
    M r = zero(n, n);
    const bool natural = !f->isInternal() && bct != BCT::DIRICHLET;
    std::vector<std::size_t> iu, ip;
    std::size_t o = 0;
    for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
        const Base::Element* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(0); ++i) iu.push_back(o++);
        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(1); ++i) ip.push_back(o++);
    }
    M mu_ = zero(iu.size(), iu.size()), mp = zero(ip.size(), ip.size()), R = zero(iu.size(), iu.size()), N = zero(ip.size(), iu.size()), P = zero(iu.size(), ip.size()), G = zero(iu.size(), 1);
    std::size_t ou = 0, op_ = 0;
    for (int s = 0; s < (f->isInternal() ? 2 : 1); ++s) {
        const Base::Element* e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
        element<D>(e, [&](At<D>& a, double w) {
            for (std::size_t i = 0; i < a.nu(); ++i)
                for (std::size_t j = 0; j < a.nu(); ++j) mu_[ou + i][ou + j] += w * dot<D>(a.u(i), a.u(j));
            for (std::size_t i = 0; i < a.np(); ++i)
                for (std::size_t j = 0; j < a.np(); ++j) mp[op_ + i][op_ + j] += w * a.q(i) * a.q(j);
        });
        ou += e->getNumberOfBasisFunctions(0);
        op_ += e->getNumberOfBasisFunctions(1);
    }
    const double avg = f->isInternal() ? 0.5 : 1.;
    auto g = vec<D>(60);
    face<D>(f, [&](Trace<D>& t, double w) {
        std::size_t ia = 0, pa = 0;
        for (int a = 0; a < (int)t.side.size(); ++a) {
            std::size_t ib = 0, pb = 0;
            for (std::size_t i = 0; i < t.side[a].nu(); ++i) G[ia + i][0] += w * dot<D>(g, t.side[a].u(i));
            for (int b = 0; b < (int)t.side.size(); ++b) {
                for (std::size_t i = 0; i < t.side[a].nu(); ++i) {
                    for (std::size_t j = 0; j < t.side[b].nu(); ++j) R[ia + i][ib + j] += w * avg * dot<D>(t.side[a].u(i), t.cross(b, j));
                    for (std::size_t j = 0; j < t.side[b].np(); ++j) {
                        P[ia + i][pb + j] += w * avg * dot<D>(t.side[a].u(i), t.n) * (t.sign(b) * t.side[b].q(j));
                        N[pb + j][ia + i] += w * avg * t.sign(a) * dot<D>(scaled<D>(t.side[a].e, 0, t.side[a].u(i)), t.n) * t.side[b].q(j);
                    }
                }
                ib += t.side[b].nu(), pb += t.side[b].np();
            }
            ia += t.side[a].nu(), pa += t.side[a].np();
        }
    });
    const double faces = D + 1;
    if (b1 && !natural) {
        M x = times(adj(R), solve(mu_, R));
        for (std::size_t i = 0; i < iu.size(); ++i)
            for (std::size_t j = 0; j < iu.size(); ++j) r[iu[i]][iu[j]] += (S(50) + faces) * x[i][j];
    }
    if (b2 && f->isInternal()) {
        M x = times(adj(N, false), solve(mp, N));
        for (std::size_t i = 0; i < iu.size(); ++i)
            for (std::size_t j = 0; j < iu.size(); ++j) r[iu[i]][iu[j]] += S(51) * x[i][j];
    }
    if (b3) {
        M x = times(adj(P), solve(mu_, P));
        for (std::size_t i = 0; i < ip.size(); ++i)
            for (std::size_t j = 0; j < ip.size(); ++j) r[ip[i]][ip[j]] -= S(52) * x[i][j];
    }
    if (vecOut) {
        vecOut->assign(n, C(0));
        if (b1 && !f->isInternal() && bct == BCT::DIRICHLET) {
            M x = times(adj(R), solve(mu_, G));
            for (std::size_t i = 0; i < iu.size(); ++i) (*vecOut)[iu[i]] += (S(50) + faces) * x[i][0];
        }
    }
    return r;
}
template <std::size_t D>
void brezzi(bool b1, bool b2, bool b3) {
    World<D> W(2, true);
    typedef DivDGMaxDiscretizationBase::FluxType FT;
    DivDGMaxDiscretizationBase::Stab st{S(50), S(51), S(52)};
    st.fluxType1 = b1 ? FT::BREZZI : FT::IP;
    st.fluxType2 = b2 ? FT::BREZZI : FT::IP;
    st.fluxType3 = b3 ? FT::BREZZI : FT::IP;
    Flags fl{true, !b1, !b2, !b3, S(50), S(51), S(52)};
    DivDGMaxDiscretization<D> d(1, st);
    typename DGMax::AbstractDiscretization<D>::FaceInputFunction bnd = [](Base::PhysicalFace<D>&) { return vec<D>(60); };
    for (boundary = 0; boundary < 2; ++boundary) {
        d.computeFaceIntegrals(*W.mesh, {{0, bnd}}, condition);
        for (Base::Face* f : W.faces) {
            if (boundary && f->isInternal()) continue;
            BCT b = f->isInternal() ? BCT::INTERNAL : condition(*f);
            std::vector<C> add, src = faceSource<D>(f, b, true, !b1, S(50));
            M r = faceForm<D>(f, b, fl), l = lifted<D>(W, f, b, b1, b2, b3, &add);
            for (std::size_t i = 0; i < r.size(); ++i) {
                src[i] += add[i];
                for (std::size_t j = 0; j < r.size(); ++j) r[i][j] += l[i][j];
            }
            same("face", fid(f) + 10 * boundary, f->getFaceMatrix(0).getEntireMatrix(), r);
            same("boundary", fid(f) + 10 * boundary, f->getFaceVector(0), src);
        }
    }
    boundary = 0;
}
template <std::size_t D>
__attribute__((noinline)) void all() {
    for (mode = 0; mode < 2; ++mode) {
        for (int u = 1; u < 3; ++u) {
            cfg = D * 100 + mode * 50 + u;
            World<D> W(u, false);
            DGMaxDiscretization<D> d(1, S(50), u == 2);
            Flags fl{false, true, false, false, S(50), 0, 0};
            TRYC("dgmax.element", cfg, forms<D>(W, d, false, fl, 0));
            for (boundary = 0; boundary < 3; ++boundary) TRYC("dgmax.face", cfg * 10 + boundary, forms<D>(W, d, false, fl, 1));
            boundary = 0;
            TRYC("dgmax.fields", cfg, fields<D>(W, d, false));
            if (u == 1 || D == 2) TRYC("dgmax.flux", cfg, fluxes<D>(W, d));
        }
        {
            cfg = D * 100 + mode * 50 + 10;
            World<D> W(2, false);
            DivDGMaxDiscretizationBase::Stab st{S(50), S(51), S(52)};
            Flags fl{true, true, true, true, S(50), S(51), S(52)};
            DivDGMaxDiscretization<D> d(1, st);
            TRYC("divdgmax.element", cfg, forms<D>(W, d, true, fl, 0));
            for (boundary = 0; boundary < 3; ++boundary) TRYC("divdgmax.face", cfg * 10 + boundary, forms<D>(W, d, true, fl, 1));
            boundary = 0;
            TRYC("divdgmax.fields", cfg, fields<D>(W, d, true));
            TRYC("divdgmax.flux", cfg, fluxes<D>(W, d));
        }
    }
}
template <std::size_t D>
__attribute__((noinline)) void known() {
    mode = 0;
    for (int h = 0; h < 2; ++h) {
        cfg = D * 100 + 3 + h;
        TRYC("dgmax.rescaled", cfg, rescaled<D>(h));
    }
    for (int k = 1; k < 8; ++k) {
        if (D == 3 && k != 1 && k != 6) continue;
        cfg = D * 100 + 20 + k;
        TRYC("divdgmax.brezzi", cfg, brezzi<D>(k & 1, k & 2, k & 4));
    }
}
extern "C" void probe_dgmax() {
    for (int c = 0; c < numberOfCases; ++c) {
        ::vts::current = &cases[c];
        vtmpi::run("dgmax", 1, c, [c]() {
            if (cases[c].dim == 2) all<2>(), known<2>();
            if (cases[c].dim == 3) all<3>(), known<3>();
        });
    }
}

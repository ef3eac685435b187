// Preprocessing of meshes: the mesh files written for meshes given by their elements.
#include "vt.h"
#include "vtout.h"
#include <map>
#include <set>
#include <cmath>
#include "MeshFactory.h"
#include "MeshSource.h"
#include "TransformationConnector.h"
#include "hpgem.h"
#include "output.h"
using namespace hpgem;
struct Case {
    int dim, processes, points, elements;
    const double* coordinates;
    const int *node, *sizes, *vertices, *part, *zone;
    const char* const* zones;
    int merges;
    const int* const* merge;      // pairs, ended by -1
    const double* translations;   // dim numbers per merge
    const char* file;             // the mesh as a file of version 1
};
#include "meshcases.inc"
namespace vts {
static const char* text = nullptr;
}
extern "C" const char* vt_file(const char*) { return vts::text; }
extern "C" double vt_number(const char* t) {
    const char* p = t;
    bool neg = *p == '-';
    if (neg || *p == '+') ++p;
    double v = 0;
    for (; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0');
    if (*p == '.') {
        double s = 1;
        for (++p; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0'), s *= 10;
        v = v / s;
    }
    return neg ? -v : v;
}
struct Source : Preprocessor::MeshSource2 {
    std::vector<Coord> c;
    std::vector<Element> e;
    std::vector<std::map<std::size_t, std::size_t>> m;
    std::size_t d;
    Source(const Case& x, bool glued, bool merges) : d(x.dim) {
        for (int i = 0; i < x.points; ++i) c.push_back(Coord(glued ? 3 * x.node[i] + 7 : i, std::vector<double>(x.coordinates + i * x.dim, x.coordinates + (i + 1) * x.dim)));
        const int* v = x.vertices;
        for (int i = 0; i < x.elements; ++i) {
            Element n;
            n.coordinateIds.assign(v, v + x.sizes[i]);
            v += x.sizes[i];
            n.zoneName = x.zones[x.zone[i]];
            n.dimension = x.dim;
            n.id = i;
            e.push_back(n);
        }
        if (merges)
            for (int i = 0; i < x.merges; ++i) {
                m.emplace_back();
                for (const int* p = x.merge[i]; *p >= 0; p += 2) m.back()[p[0]] = p[1];
            }
    }
    const std::vector<Coord>& getCoordinates() override { return c; }
    const std::vector<Element>& getElements() override { return e; }
    const std::vector<std::map<std::size_t, std::size_t>>& getMerges() override { return m; }
    std::size_t getDimension() const override { return d; }
};
template <std::size_t D>
__attribute__((noinline)) void write(Preprocessor::Mesh<D>& mesh, const Case& x, int processes) {
    Preprocessor::MeshData<int, D, D> part(&mesh);
    for (int i = 0; i < x.elements; ++i) part.data()[i] = processes > 1 ? x.part[i] : 0;
    vt_emit_i("valid", vts::output, 0, 0, mesh.isValid());
    Preprocessor::outputMesh(mesh, part, (std::size_t)processes);
}
template <std::size_t D>
__attribute__((noinline)) void one(int c, int mode) {
    const Case& x = cases[c];
    vts::output = 10 * c + mode;
    if (mode == 3) {
        vts::text = x.file;
        Preprocessor::HpgemReader r("mesh.hpgem");
        vt_emit_i("dimension", vts::output, 0, 0, r.getDimension());
        auto mesh = Preprocessor::readFile<D>(r);
        write<D>(mesh, x, x.processes);
        return;
    }
    Source s(x, mode == 0, mode == 1 || mode == 4);
    auto mesh = Preprocessor::fromMeshSource<D>(s, mode == 4);
    if (mode == 2) {
        for (int i = 0; i < x.merges; ++i) {
            LinearAlgebra::SmallVector<D> t;
            for (std::size_t k = 0; k < D; ++k) t[k] = x.translations[i * D + k];
            Preprocessor::translationConnect(mesh, t);
        }
        mesh.removeUnusedEntities();
    }
    write<D>(mesh, x, x.processes);
}
template <std::size_t D>
__attribute__((noinline)) void structured(int c) {
    vts::output = 100000 + c;
    vts::text = boxes[c].text;
    Preprocessor::HpgemReader r("mesh.hpgem");
    vt_emit_i("dimension", vts::output, 0, 0, r.getDimension());
    auto mesh = Preprocessor::readFile<D>(r);
    Preprocessor::MeshData<int, D, D> part(&mesh);
    for (std::size_t i = 0; i < mesh.getNumberOfElements(); ++i) part.data()[i] = i % 3;
    vt_emit_i("valid", vts::output, 0, 0, mesh.isValid());
    Preprocessor::outputMesh(mesh, part, (std::size_t)3);
}
static int C, M;
static void call(void*) {
    if (M < 0) {
        if (boxes[C].dim == 1) structured<1>(C);
        if (boxes[C].dim == 2) structured<2>(C);
        if (boxes[C].dim == 3) structured<3>(C);
        return;
    }
    if (cases[C].dim == 1) one<1>(C, M);
    if (cases[C].dim == 2) one<2>(C, M);
    if (cases[C].dim == 3) one<3>(C, M);
}
extern "C" void probe_preproc() {
    for (C = 0; C < numberOfCases; ++C)
        for (M = 0; M < 5; ++M) {
            if ((M == 1 || M == 2 || M == 4) && !cases[C].merges) continue;
            vt_emit_i("try.mesh", C, M, 0, 1);
            vt_try("mesh", call, nullptr);
        }
    M = -1;
    for (C = 0; C < numberOfBoxes; ++C) {
        vt_emit_i("try.mesh", C, M, 0, 1);
        vt_try("mesh", call, nullptr);
    }
}

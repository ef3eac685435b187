// Reading of Gmsh files: the mesh files written for meshes that are given as Gmsh files.
#include "vt.h"
#include "vtout.h"
#include <map>
#include <set>
#include <cmath>
#include "MeshFactory.h"
#include "MeshSource.h"
#include "gmsh.h"
#include "output.h"
using namespace hpgem;
struct Case {
    int dim, processes, elements;
    const int* part;
    const char* file;
};
#include "meshcases.inc"
namespace vts {
static const char* text = nullptr;
}
extern "C" const char* vt_file(const char*) { return vts::text; }
extern "C" double vt_number(const char* t) {
    const char* p = t;
    bool neg = *p == '-';
    if (neg || *p == '+') ++p;
    double v = 0;
    for (; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0');
    if (*p == '.') {
        double s = 1;
        for (++p; *p >= '0' && *p <= '9'; ++p) v = 10 * v + (*p - '0'), s *= 10;
        v = v / s;
    }
    return neg ? -v : v;
}
template <std::size_t D>
__attribute__((noinline)) void one(int c) {
    const Case& x = cases[c];
    vts::output = c;
    vts::text = x.file;
    Preprocessor::GmshReader r("mesh.msh");
    vt_emit_i("dimension", c, 0, 0, r.getDimension());
    auto mesh = Preprocessor::fromMeshSource<D>(r);
    vt_emit_i("number", c, 0, 0, mesh.getNumberOfElements());
    Preprocessor::MeshData<int, D, D> part(&mesh);
    for (int i = 0; i < x.elements; ++i) part.data()[i] = x.part[i];
    vt_emit_i("valid", c, 0, 0, mesh.isValid());
    Preprocessor::outputMesh(mesh, part, (std::size_t)x.processes);
}
static int C;
static void call(void*) {
    if (cases[C].dim == 1) one<1>(C);
    if (cases[C].dim == 2) one<2>(C);
    if (cases[C].dim == 3) one<3>(C);
}
extern "C" void probe_gmsh() {
    for (C = 0; C < numberOfCases; ++C) {
        vt_emit_i("try.mesh", C, 0, 0, 1);
        vt_try("mesh", call, nullptr);
    }
}

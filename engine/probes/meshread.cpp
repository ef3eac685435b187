#include "mesh.h"
#include "meshcases.inc"
const MeshCase* vts::current = nullptr;
template <std::size_t DIM>
__attribute__((noinline)) void one(int c) {
    vtmpi::run("mesh", cases[c].size, 2 * c, [c]() {
        Base::ConfigurationData cfg(2, 3);
        auto mesh = readCase<DIM>(cfg);
        emitMesh<DIM>(c, *mesh);
    });
}
extern "C" void probe_meshread() {
    for (int c = 0; c < numberOfCases; ++c) {
        vts::current = &cases[c];
        vt_emit_i("try.mesh", c, 0, 0, 1);
        if (cases[c].dim == 1) one<1>(c);
        if (cases[c].dim == 2) one<2>(c);
        if (cases[c].dim == 3) one<3>(c);
    }
}

// Stand-in that only records that it is asked to write.
#pragma once
#include <iosfwd>
#include <string>
#include "Base/MeshManipulator.h"
#include "Output/TecplotSingleElementWriter.h"
namespace vts {
void tecplot(double t);
}
namespace hpgem {
namespace Output {
template <std::size_t DIM>
struct TecplotDiscontinuousSolutionWriter {
    template <class... A>
    TecplotDiscontinuousSolutionWriter(A&&...) {}
    void write(const Base::MeshManipulator<DIM>*, const std::string&, bool, TecplotSingleElementWriter<DIM>*, double t = 0.) { vts::tecplot(t); }
};
}  // namespace Output
}  // namespace hpgem

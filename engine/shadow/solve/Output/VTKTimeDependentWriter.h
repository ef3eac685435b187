// Stand-in that only records that it is asked to write.
#pragma once
#include <functional>
#include <string>
#include "Base/MeshManipulator.h"
namespace hpgem {
namespace Output {
template <std::size_t DIM>
struct VTKTimeDependentWriter {
    VTKTimeDependentWriter(std::string, Base::MeshManipulator<DIM>*, std::size_t = 1) {}
    template <class T>
    void write(std::function<T(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)>, const std::string&, double, std::size_t = 0) {}
};
template <std::size_t DIM>
struct VTKSpecificTimeWriter {
    VTKSpecificTimeWriter(std::string, Base::MeshManipulator<DIM>*, std::size_t = 0, std::size_t = 1) {}
    template <class T>
    void write(std::function<T(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)>, const std::string&) {}
};
}  // namespace Output
}  // namespace hpgem

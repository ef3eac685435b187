// Stand-in: the fields are evaluated at the point the probe has chosen, in every element, and reported with their names.
#pragma once
#include <functional>
#include <map>
#include <string>
#include "Base/MeshManipulator.h"
#include "Geometry/PointReference.h"
namespace hpgem {
namespace vts {
void field(const std::string& name, const Base::Element* e, const double* v, std::size_t n);
template <std::size_t D>
Geometry::PointReference<D> where();
}  // namespace vts
namespace Output {
template <std::size_t DIM>
class VTKSpecificTimeWriter {
   public:
    VTKSpecificTimeWriter(const std::string&, const Base::MeshManipulator<DIM>* mesh, std::size_t t = 0, std::size_t = 1) : mesh_(mesh), time_(t) {}
    void write(std::function<double(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> f, const std::string& name) {
        for (Base::Element* e : mesh_->getElementsList()) {
            double v = f(e, vts::where<DIM>(), time_);
            vts::field(name, e, &v, 1);
        }
    }
    void write(std::function<LinearAlgebra::SmallVector<DIM>(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> f, const std::string& name) {
        for (Base::Element* e : mesh_->getElementsList()) {
            LinearAlgebra::SmallVector<DIM> v = f(e, vts::where<DIM>(), time_);
            vts::field(name, e, v.data(), DIM);
        }
    }
    template <typename T>
    void writeMultiple(std::function<T(Base::Element*, const Geometry::PointReference<DIM>&, std::size_t)> f, std::map<std::string, std::function<double(T&)>> scalars,
                       std::map<std::string, std::function<LinearAlgebra::SmallVector<DIM>(T&)>> vectors = {}, std::map<std::string, std::function<LinearAlgebra::SmallMatrix<DIM, DIM>(T&)>> = {}) {
        for (Base::Element* e : mesh_->getElementsList()) {
            T t = f(e, vts::where<DIM>(), time_);
            for (auto& s : scalars) {
                double v = s.second(t);
                vts::field(s.first, e, &v, 1);
            }
            for (auto& s : vectors) {
                LinearAlgebra::SmallVector<DIM> v = s.second(t);
                vts::field(s.first, e, v.data(), DIM);
            }
        }
    }

   private:
    const Base::MeshManipulator<DIM>* mesh_;
    std::size_t time_;
};
}  // namespace Output
}  // namespace hpgem

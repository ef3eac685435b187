// Analysis stand-in: a mesh is whatever list of elements (and faces) the probe provides.
#pragma once
#include <vector>
#include <cstddef>
#include "Base/Element.h"
#include "Base/Face.h"
namespace hpgem {
namespace Base {
template <std::size_t DIM>
class MeshManipulator {
   public:
    std::vector<Element*> elements;
    std::vector<Element*>& getElementsList() { return elements; }
    const std::vector<Element*>& getElementsList() const { return elements; }
    std::size_t getNumberOfElements() const { return elements.size(); }
    std::size_t dimension() const { return DIM; }
};
}  // namespace Base
}  // namespace hpgem

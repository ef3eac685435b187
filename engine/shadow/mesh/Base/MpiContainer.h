// Analysis stand-in: process number and number of processes are set by the probe.
#pragma once
#include <cstddef>
namespace hpgem {
namespace Base {
class MPIContainer {
   public:
    int rank = 0, size = 1;
    static MPIContainer& Instance() {
        static MPIContainer c;
        return c;
    }
    int getProcessorID() { return rank; }
    std::size_t getNumProcessors() { return size; }
    int getNumberOfProcessors() { return size; }
};
}  // namespace Base
}  // namespace hpgem

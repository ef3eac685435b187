// Output writers on stand-in meshes; streams record text and (symbolic) numbers.
#include <sstream>
#include <fstream>
#include <ostream>
#include <iostream>
#include <map>
#include <memory>
#include <vector>
#include <string>
#include <functional>
#include <unordered_map>
#include <cstdint>
#include "elem.h"
#include "Base/MpiContainer.h"
#include "Base/MeshManipulator.h"
namespace vts {
static long nFiles = 0;
}
namespace std {
class vt_ostream {
   public:
    struct Cell {
        bool num;
        char c;
        double v;
    };
    long id;
    std::size_t pos = 0;
    std::vector<Cell> cells;
    vt_ostream() : id(vts::nFiles++) {}
    void put(const Cell& c) {
        if (pos < cells.size())
            cells[pos] = c;
        else
            cells.push_back(c);
        ++pos;
    }
    void ch(char c) { put(Cell{false, c, 0.}); }
    void text(const char* s) {
        for (; *s; ++s) ch(*s);
    }
    void integer(unsigned long v, bool neg) {
        char b[24];
        int n = 0;
        do {
            b[n++] = '0' + v % 10;
            v /= 10;
        } while (v);
        if (neg) ch('-');
        while (n) ch(b[--n]);
    }
    vt_ostream& operator<<(const char* s) { return text(s), *this; }
    vt_ostream& operator<<(const std::string& s) {
        for (std::size_t i = 0; i < s.size(); ++i) ch(s[i]);
        return *this;
    }
    vt_ostream& operator<<(char c) { return ch(c), *this; }
    vt_ostream& operator<<(double v) { return put(Cell{true, 0, v}), *this; }
    vt_ostream& operator<<(unsigned long v) { return integer(v, false), *this; }
    vt_ostream& operator<<(unsigned v) { return integer(v, false), *this; }
    vt_ostream& operator<<(long v) { return integer(v < 0 ? -(unsigned long)v : v, v < 0), *this; }
    vt_ostream& operator<<(int v) { return *this << (long)v; }
    vt_ostream& operator<<(bool v) { return *this << (long)v; }
    vt_ostream& operator<<(std::basic_ostream<char>& (*)(std::basic_ostream<char>&)) { return ch('\n'), *this; }
    void flush() {}
    void close() { dump(); }
    bool good() const { return true; }
    void precision(int) {}
    void width(int) {}
    long tellp() const { return pos; }
    void seekp(long p) { pos = p; }
    void dump() {
        std::string s;
        long n = 0;
        for (std::size_t i = 0; i <= cells.size(); ++i) {
            if (i == cells.size() || cells[i].num) {
                if (!s.empty()) vt_emit_s("file", id, n++, 0, s.c_str());
                s.clear();
                if (i < cells.size()) vt_emit_d("file", id, n++, 1, cells[i].v);
            } else
                s.push_back(cells[i].c);
        }
        cells.clear();
        pos = 0;
    }
};
class vt_ofstream : public vt_ostream {
   public:
    vt_ofstream() {}
    explicit vt_ofstream(const std::string& n) { open(n); }
    void open(const std::string& n) { vt_emit_s("open", id, 0, 0, n.c_str()); }
};
class vt_istringstream {
    std::string s_;

   public:
    explicit vt_istringstream(const std::string& s) : s_(s) {}
    bool eof() const { return true; }
    template <class T>
    vt_istringstream& operator>>(T& v) {
        v = 0;
        for (char c : s_) v = 10 * v + (c - '0');
        return *this;
    }
};
}  // namespace std
#define ostream vt_ostream
#define ofstream vt_ofstream
#define istringstream vt_istringstream
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#undef ostream
#undef ofstream
#undef istringstream
namespace hpgem {
// stand-in for the encoder (decided separately): records what is stored in the buffer
static long nBuf = 0;
std::string Output::Detail::toBase64(void* p, std::size_t n) {
    long id = nBuf++;
    vt_dump("buffer", id, p, n);
    return "@" + std::to_string(id) + ":" + std::to_string(n) + "@";
}
bool Output::Detail::isBigEndian() { return false; }
}  // namespace hpgem
using namespace op;
using Geometry::PointPhysical;
template <std::size_t D>
using Mesh = Base::MeshManipulator<D>;
template <std::size_t D>
static void add(Mesh<D>& m, std::size_t n, long& id) {
    auto& pos = nodesSym<D>(n, 100 + 30 * id);
    m.elements.push_back(new Base::Element(iota(n), &sets(), pos, 1, 1, id, zone()));
    ++id;
}
static long tk(std::size_t t) { return t == 0 ? 0 : t == 1 ? 1 : 2; }
// opaque data: value of component c of quantity q on an element at a point and a time level
template <std::size_t D>
static double data(const Base::Element* e, const PR<D>& p, long q, long c, std::size_t t) {
    return f<D>(((e->getID() * 3 + tk(t)) * 4 + q) * 9 + c, 0, p);
}
template <std::size_t D>
static void describe(const Mesh<D>& m, long cfg) {
    vt_emit_i("mesh.dim", cfg, 0, 0, D);
    for (std::size_t i = 0; i < m.elements.size(); ++i) {
        vt_emit_i("mesh.type", cfg, i, 0, (long)m.elements[i]->getReferenceGeometry()->getGeometryType());
        vt_emit_i("mesh.nodes", cfg, i, 0, m.elements[i]->getReferenceGeometry()->getNumberOfNodes());
    }
}
template <std::size_t D>
static void vtk(const Mesh<D>& m, long cfg, std::size_t order, std::size_t level, int rank, int size) {
    Base::MPIContainer::Instance().rank = rank;
    Base::MPIContainer::Instance().size = size;
    vt_emit_i("vtk.order", cfg, 0, 0, order);
    vt_emit_i("vtk.level", cfg, 0, 0, level);
    vt_emit_i("vtk.rank", cfg, 0, 0, rank);
    vt_emit_i("vtk.size", cfg, 0, 0, size);
    vt_emit_i("vtk.firstfile", cfg, 0, 0, vts::nFiles);
    describe(m, cfg);
    {
        Output::VTKSpecificTimeWriter<D> w("dir/name", &m, level, order);
        w.write(std::function<double(Base::Element*, const PR<D>&, std::size_t)>([](Base::Element* e, const PR<D>& p, std::size_t t) { return data(e, p, 0, 0, t); }), "scalar");
        w.write(std::function<SV<D>(Base::Element*, const PR<D>&, std::size_t)>([](Base::Element* e, const PR<D>& p, std::size_t t) {
                    SV<D> r;
                    for (std::size_t d = 0; d < D; ++d) r[d] = data(e, p, 1, d, t);
                    return r;
                }),
                "vector");
        w.write(std::function<LinearAlgebra::SmallMatrix<D, D>(Base::Element*, const PR<D>&, std::size_t)>([](Base::Element* e, const PR<D>& p, std::size_t t) {
                    LinearAlgebra::SmallMatrix<D, D> r;
                    for (std::size_t a = 0; a < D; ++a)
                        for (std::size_t b = 0; b < D; ++b) r(a, b) = data(e, p, 2, a * 3 + b, t);
                    return r;
                }),
                "tensor");
        struct Both {
            double a;
            SV<D> b;
        };
        std::map<std::string, std::function<double(Both&)>> sc;
        std::map<std::string, std::function<SV<D>(Both&)>> ve;
        sc["zs"] = [](Both& b) { return b.a; };
        sc["as"] = [](Both& b) { return 2 * b.a; };
        ve["mv"] = [](Both& b) { return b.b; };
        w.template writeMultiple<Both>(
            [](Base::Element* e, const PR<D>& p, std::size_t t) {
                Both b;
                b.a = data(e, p, 3, 8, t);
                for (std::size_t d = 0; d < D; ++d) b.b[d] = data(e, p, 3, d, t);
                return b;
            },
            sc, ve);
    }
    Base::MPIContainer::Instance().rank = 0;
    Base::MPIContainer::Instance().size = 1;
}
template <std::size_t D>
struct TW : Output::TecplotSingleElementWriter<D> {
    void writeToTecplotFile(const Base::Element* e, const PR<D>& p, std::vt_ostream& o) final { o << data(e, p, 0, 0, 0) << ' ' << data(e, p, 0, 1, 0); }
};
template <std::size_t D>
struct GW : Output::SingleElementWriter<D> {
    void writeOutput(const Base::Element* e, const PR<D>& p, std::vt_ostream& o) final { o << data(e, p, 0, 0, 0); }
};
template <std::size_t D>
static void text(const Mesh<D>& a, const Mesh<D>& b, long cfg, const char* dims) {
    describe(a, cfg);
    describe(b, cfg + 1);
    {
        std::vt_ostream o;
        vt_emit_i("tecplot.file", cfg, 0, 0, o.id);
        {
            Output::TecplotDiscontinuousSolutionWriter<D> w(o, "title", dims, "u,v");
            TW<D> t;
            std::function<void(const Base::Element*, const PR<D>&, std::vt_ostream&)> fn = [](const Base::Element* e, const PR<D>& p, std::vt_ostream& o) { o << data(e, p, 0, 2, 0) << ' ' << data(e, p, 0, 3, 0); };
            w.write(&a, "zone 0", false, &t, vt_sym(7));
            w.write(&a, "zone 1", true, fn, vt_sym(8));
            w.write(&b, "zone 2", false, fn, vt_sym(9));
            w.write(&b, "zone 3", true, &t, vt_sym(7));
        }
        o.dump();
    }
    {
        std::vt_ostream o;
        vt_emit_i("gnuplot.file", cfg, 0, 0, o.id);
        Output::GNUPlotDiscontinuousSolutionWriter<D> w(o, "title", dims, "u");
        GW<D> t;
        w.write(&b, &t);
        w.write(&a, &t);
        o.dump();
    }
}
template <std::size_t D>
static void series(Mesh<D>& m, long cfg, int rank) {
    Base::MPIContainer::Instance().rank = rank;
    Base::MPIContainer::Instance().size = 1 + 2 * rank;
    describe(m, cfg);
    vt_emit_i("series.rank", cfg, 0, 0, rank);
    vt_emit_i("series.firstfile", cfg, 0, 0, vts::nFiles);
    {
        Output::VTKTimeDependentWriter<D> w("dir/series", &m, 2);
        std::function<double(Base::Element*, const PR<D>&, std::size_t)> fs = [](Base::Element* e, const PR<D>& p, std::size_t t) { return data(e, p, 0, 0, t); };
        std::function<SV<D>(Base::Element*, const PR<D>&, std::size_t)> fv = [](Base::Element* e, const PR<D>& p, std::size_t t) {
            SV<D> r;
            for (std::size_t d = 0; d < D; ++d) r[d] = data(e, p, 1, d, t);
            return r;
        };
        w.write(fs, "scalar", 0., 0);
        w.write(fv, "vector", 0., 0);
        w.write(fs, "scalar", 0.5, 1);
        w.write(fv, "vector", 0.5, 1);
        w.write(fv, "vector", 0.75, 0);
        w.write(fs, "scalar", 2., 1);
    }
    Base::MPIContainer::Instance().rank = 0;
    Base::MPIContainer::Instance().size = 1;
}
extern "C" void probe_output() {
    long id = 0;
    Mesh<1> m1, n1;
    add(m1, 2, id); add(m1, 2, id);
    add(n1, 2, id);
    id = 0;
    Mesh<2> m2, n2;
    add(m2, 3, id); add(m2, 4, id); add(m2, 3, id);
    add(n2, 4, id);
    id = 0;
    Mesh<3> m3, m3h;
    add(m3, 4, id); add(m3, 8, id); add(m3, 6, id); add(m3, 5, id); add(m3, 4, id);
    id = 0;
    add(m3h, 8, id); add(m3h, 4, id); add(m3h, 8, id);
    long cfg = 0;
    for (std::size_t o = 1; o <= 5; ++o)
        for (std::size_t r = 0; r < 2; ++r, ++cfg) TRYC("vtk", cfg, vtk(m1, cfg, o, r, r, 1 + 2 * r));
    for (std::size_t o = 1; o <= 6; ++o)
        for (std::size_t r = 0; r < 2; ++r, ++cfg) TRYC("vtk", cfg, vtk(m2, cfg, o, r, r, 1 + 2 * r));
    for (std::size_t o = 1; o <= 5; ++o)
        for (std::size_t r = 0; r < (o < 3 ? 2u : 1u); ++r, ++cfg) TRYC("vtk", cfg, vtk(o == 1 ? m3 : m3h, cfg, o, r, r, 1 + 2 * r));
    TRYC("text", 100, text(m1, n1, 100, "0"));
    TRYC("text", 102, text(m2, n2, 102, "01"));
    TRYC("text", 104, text(m3, m3h, 104, "012"));
    TRYC("text", 106, text(m2, n2, 106, "10"));
    TRYC("series", 200, series(m1, 200, 0));
    TRYC("series", 201, series(m2, 201, 1));
    TRYC("series", 202, series(m3h, 202, 0));
}

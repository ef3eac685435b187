// Stand-in output file streams: what is written is reported when the file is closed.
#pragma once
#include "vt.h"
#include <string>
#include <vector>
#include <ios>
namespace vts {
inline long output = 0;  // the file that is written next
}
namespace std {
class vt_ofstream {
    struct Cell {
        bool num;
        char c;
        double v;
    };
    long id;
    std::size_t pos = 0;
    bool open_ = true;
    std::vector<Cell> cells;
    void put(const Cell& c) {
        if (pos < cells.size())
            cells[pos] = c;
        else
            cells.push_back(c);
        ++pos;
    }
    void ch(char c) { put(Cell{false, c, 0.}); }
    void integer(unsigned long v, bool neg) {
        char b[24];
        int n = 0;
        do {
            b[n++] = '0' + v % 10;
            v /= 10;
        } while (v);
        if (neg) ch('-');
        while (n) ch(b[--n]);
    }

   public:
    explicit vt_ofstream(const std::string&) : id(vts::output++) {}
    explicit vt_ofstream(const char*) : id(vts::output++) {}
    ~vt_ofstream() { close(); }
    vt_ofstream& operator<<(const char* s) {
        for (; *s; ++s) ch(*s);
        return *this;
    }
    vt_ofstream& operator<<(const std::string& s) {
        for (std::size_t i = 0; i < s.size(); ++i) ch(s[i]);
        return *this;
    }
    vt_ofstream& operator<<(char c) { return ch(c), *this; }
    vt_ofstream& operator<<(double v) { return put(Cell{true, 0, v}), *this; }
    vt_ofstream& operator<<(unsigned long v) { return integer(v, false), *this; }
    vt_ofstream& operator<<(unsigned v) { return integer(v, false), *this; }
    vt_ofstream& operator<<(long v) { return integer(v < 0 ? -(unsigned long)v : v, v < 0), *this; }
    vt_ofstream& operator<<(int v) { return *this << (long)v; }
    vt_ofstream& operator<<(bool v) { return *this << (long)v; }
    vt_ofstream& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
    vt_ofstream& operator<<(std::basic_ostream<char>& (*)(std::basic_ostream<char>&)) { return ch('\n'), *this; }
    void flush() {}
    bool good() const { return true; }
    bool is_open() const { return open_; }
    long tellp() const { return pos; }
    void seekp(long p) { pos = p; }
    void precision(int) {}
    void close() {
        if (!open_) return;
        open_ = false;
        std::string s;
        long n = 0;
        for (std::size_t i = 0; i <= cells.size(); ++i) {
            if (i == cells.size() || cells[i].num) {
                if (!s.empty()) vt_emit_s("file", id, n++, 0, s.c_str());
                s.clear();
                if (i < cells.size()) vt_emit_d("file", id, n++, 1, cells[i].v);
            } else
                s.push_back(cells[i].c);
        }
    }
};
}  // namespace std
#define ofstream vt_ofstream

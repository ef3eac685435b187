// Stand-in input streams (text supplied by the probe); force-included before any other header.
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cctype>
#include <string>
#include <vector>
#include <map>
#include <limits>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <functional>
#include <algorithm>
#include <complex>
#include <iomanip>
#include <random>
#include <bitset>
#include <iterator>
#include <valarray>
#include <chrono>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <numeric>
#include <list>
#include <array>
#include <deque>
#include <regex>
#include <thread>
extern "C" const char* vt_file(const char* name);
extern "C" double vt_number(const char* text);
inline int vt_isspace(int c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
namespace std {
using ::vt_isspace;
class vt_istream;
struct vt_streambuf {
    using traits_type = std::char_traits<char>;
    vt_istream* in = nullptr;
    inline int sgetc() const;
    inline int sbumpc();
};
class vt_istream {
   public:
    using pos_type = long;
    using off_type = long;
    using traits_type = std::char_traits<char>;
    struct sentry {
        explicit sentry(vt_istream&, bool = false) {}
        explicit operator bool() const { return true; }
    };
    vt_streambuf buf_;
    vt_streambuf* rdbuf() { return buf_.in = this, &buf_; }
    void setstate(std::ios_base::iostate s) {
        if (s & std::ios_base::eofbit) eof_ = true;
        if (s & std::ios_base::failbit) fail_ = true;
    }
    vt_istream& operator>>(std::ios_base& (*)(std::ios_base&)) { return *this; }
    vt_istream& operator>>(bool& v) {
        std::string s;
        if (word(s)) v = s == "true" || s == "1";
        return *this;
    }
    template <class T, class C>
    vt_istream& operator>>(std::__detail::_Quoted_string<T, C> q) {
        std::string& s = q._M_string;
        s.clear();
        ws();
        if (peek() != '"') return word(s), *this;
        get();
        for (int c = get(); c != -1 && c != '"'; c = get()) s.push_back(c == '\\' ? get() : c);
        return *this;
    }
    const char* t_ = nullptr;
    long p_ = 0;
    bool fail_ = false, eof_ = false;
    vt_istream() {}
    int peek() {
        if (!t_ || !t_[p_]) return eof_ = true, -1;
        return t_[p_];
    }
    int get() {
        int c = peek();
        if (c == -1)
            fail_ = true;
        else
            ++p_;
        return c;
    }
    vt_istream& get(char& c) {
        int x = get();
        if (x != -1) c = x;
        return *this;
    }
    vt_istream& unget() { return p_ > 0 ? --p_ : 0, eof_ = false, *this; }
    vt_istream& putback(char) { return unget(); }
    void ws() {
        while (peek() == ' ' || peek() == '\n' || peek() == '\t' || peek() == '\r') ++p_;
    }
    vt_istream& ignore(long n = 1, int delim = -1) {
        for (long i = 0; i < n; ++i) {
            int c = peek();
            if (c == -1) break;
            ++p_;
            if (c == delim) break;
        }
        return *this;
    }
    bool word(std::string& s) {
        s.clear();
        ws();
        for (int c = peek(); c != -1 && c != ' ' && c != '\n' && c != '\t' && c != '\r'; c = peek()) {
            s.push_back(c);
            ++p_;
        }
        if (s.empty()) fail_ = true;
        return !s.empty();
    }
    bool number(unsigned long& v, bool& neg) {
        ws();
        v = 0;
        neg = false;
        int c = peek();
        if (c == '-' || c == '+') neg = c == '-', ++p_, c = peek();
        bool any = false;
        for (; c >= '0' && c <= '9'; c = peek()) v = 10 * v + (c - '0'), any = true, ++p_;
        if (!any) fail_ = true;
        return any;
    }
    template <class T>
    vt_istream& integer(T& v) {
        unsigned long x;
        bool neg;
        if (number(x, neg))
            v = neg ? -(T)x : (T)x;
        else
            v = 0;
        return *this;
    }
    vt_istream& operator>>(unsigned long& v) { return integer(v); }
    vt_istream& operator>>(long& v) { return integer(v); }
    vt_istream& operator>>(unsigned& v) { return integer(v); }
    vt_istream& operator>>(int& v) { return integer(v); }
    vt_istream& operator>>(unsigned short& v) { return integer(v); }
    vt_istream& operator>>(double& v) {
        std::string s;
        if (word(s)) v = vt_number(s.c_str());
        return *this;
    }
    vt_istream& operator>>(std::string& s) { return word(s), *this; }
    vt_istream& operator>>(char& c) {
        ws();
        return get(c);
    }
    bool good() const { return t_ && !fail_ && !eof_; }
    bool eof() const { return eof_; }
    bool fail() const { return fail_; }
    bool bad() const { return false; }
    void clear() { fail_ = eof_ = false; }
    explicit operator bool() const { return !fail_; }
    bool operator!() const { return fail_; }
    long tellg() const { return p_; }
    vt_istream& seekg(long p) { return p_ = p, fail_ = eof_ = false, *this; }
    std::streamsize precision(std::streamsize = 6) { return 6; }
};
inline int vt_streambuf::sgetc() const { return in->t_ && in->t_[in->p_] ? in->t_[in->p_] : -1; }
inline int vt_streambuf::sbumpc() {
    int c = sgetc();
    if (c != -1) ++in->p_;
    return c;
}
class vt_ifstream : public vt_istream {
   public:
    vt_ifstream() {}
    explicit vt_ifstream(const char* n, int = 0) { open(n); }
    explicit vt_ifstream(const std::string& n, int = 0) { open(n); }
    void open(const char* n, int = 0) {
        t_ = vt_file(n);
        fail_ = !t_;
    }
    void open(const std::string& n, int = 0) { open(n.c_str()); }
    bool is_open() const { return t_ != nullptr; }
    void close() { t_ = nullptr; }
};
class vt_istringstream : public vt_istream {
    std::string s_;

   public:
    vt_istringstream() {}
    explicit vt_istringstream(const std::string& s) { str(s); }
    void str(const std::string& s) {
        s_ = s;
        t_ = s_.c_str();
        p_ = 0;
        fail_ = eof_ = false;
    }
};
inline vt_istream& getline(vt_istream& in, std::string& s, char d = '\n') {
    s.clear();
    int c = in.get();
    bool any = c != -1;
    for (; c != -1 && c != d; c = in.get()) s.push_back(c);
    if (any) in.fail_ = false;
    return in;
}
}  // namespace std
#define istream vt_istream
#define ifstream vt_ifstream
#define istringstream vt_istringstream
#define strtod(s, e) vt_number(s)
#define isspace vt_isspace
#define streambuf vt_streambuf
#define sscanf(b, f, r) (*(r) = vt_number(b), 1)

// Algebraic value domain: rational functions with numeric coefficients over
// named indeterminates, in a canonical (expanded, sorted) normal form.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace alg {
typedef long double Num;
// monomial: sorted (var,exp) pairs
typedef std::vector<std::pair<int, int>> Mono;
struct MonoLess {  // graded lexicographic: a proper monomial order
    static int deg(const Mono& m) {
        int d = 0;
        for (auto& p : m) d += p.second;
        return d;
    }
    bool operator()(const Mono& a, const Mono& b) const {
        int da = deg(a), db = deg(b);
        if (da != db) return da < db;
        for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) {
            if (a[i].first != b[i].first) return a[i].first > b[i].first;
            if (a[i].second != b[i].second) return a[i].second < b[i].second;
        }
        return a.size() < b.size();
    }
};
typedef std::map<Mono, Num, MonoLess> Poly;

struct TooBig {};
extern std::size_t maxTerms;

inline bool isZero(const Poly& p) { return p.empty(); }
inline bool isConst(const Poly& p, Num* c = nullptr) {
    if (p.empty()) {
        if (c) *c = 0;
        return true;
    }
    if (p.size() == 1 && p.begin()->first.empty()) {
        if (c) *c = p.begin()->second;
        return true;
    }
    return false;
}
inline Poly constant(Num c) {
    Poly p;
    if (c != 0) p[Mono()] = c;
    return p;
}
inline Poly var(int v) {
    Poly p;
    p[Mono{{v, 1}}] = 1;
    return p;
}
inline void addTo(Poly& a, const Poly& b, Num s = 1) {
    for (auto& t : b) {
        auto it = a.find(t.first);
        Num add = s * t.second;
        if (it == a.end()) {
            a.emplace(t.first, add);
        } else {
            Num old = it->second, r = old + add;
            if (std::fabs(r) <= 1e-13L * (std::fabs(old) + std::fabs(add)))
                a.erase(it);
            else
                it->second = r;
        }
    }
    if (a.size() > maxTerms) throw TooBig();
}
inline Mono mulMono(const Mono& a, const Mono& b) {
    Mono r;
    r.reserve(a.size() + b.size());
    std::size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
            r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first)
            r.push_back(b[j++]);
        else {
            r.emplace_back(a[i].first, a[i].second + b[j].second);
            ++i, ++j;
        }
    }
    return r;
}
inline Poly mul(const Poly& a, const Poly& b) {
    Poly r;
    if (a.empty() || b.empty()) return r;
    if (a.size() * b.size() > 40 * maxTerms) throw TooBig();
    // accumulate magnitude to detect cancellation
    std::map<Mono, std::pair<Num, Num>, MonoLess> acc;
    for (auto& x : a)
        for (auto& y : b) {
            auto& e = acc[mulMono(x.first, y.first)];
            Num v = x.second * y.second;
            e.first += v;
            e.second += std::fabs(v);
        }
    for (auto& e : acc)
        if (std::fabs(e.second.first) > 1e-13L * e.second.second)
            r.emplace_hint(r.end(), e.first, e.second.first);
    if (r.size() > maxTerms) throw TooBig();
    return r;
}
inline Num maxAbs(const Poly& p) {
    Num m = 0;
    for (auto& t : p) m = std::max(m, std::fabs(t.second));
    return m;
}
inline bool nearlyEqual(const Poly& a, const Poly& b, Num tol = 1e-9L) {
    Num scale = std::max(maxAbs(a), maxAbs(b));
    Poly d = a;
    addTo(d, b, -1);
    return maxAbs(d) <= tol * scale;
}

// denominators: factor id -> power; factor polynomials are interned, scaled so
// that the last (largest) monomial has coefficient 1
extern std::vector<Poly> factors;
inline int internFactor(Poly p, Num& scale) {
    scale = p.rbegin()->second;
    for (auto& t : p) t.second /= scale;
    for (std::size_t i = 0; i < factors.size(); ++i)
        if (factors[i].size() == p.size() && nearlyEqual(factors[i], p))
            return i;
    factors.push_back(p);
    return factors.size() - 1;
}

struct Frac {
    Poly num;
    std::map<int, int> den;
};
inline Poly powPoly(const Poly& p, int n) {
    Poly r = constant(1), b = p;
    while (n) {
        if (n & 1) r = mul(r, b);
        n >>= 1;
        if (n) b = mul(b, b);
    }
    return r;
}
inline Poly denPoly(const std::map<int, int>& d) {
    Poly r = constant(1);
    for (auto& f : d) r = mul(r, powPoly(factors[f.first], f.second));
    return r;
}
// try exact division num / factor (multivariate, w.r.t. lex leading monomial)
inline bool divides(const Poly& f, const Poly& n, Poly& q) {
    if (f.size() == 1 && f.begin()->first.empty()) return false;
    Poly rem = n;
    q.clear();
    const Mono& lm = f.rbegin()->first;
    Num lc = f.rbegin()->second, scale = maxAbs(n);
    int guard = 0;
    while (!rem.empty()) {
        if (++guard > 2000) return false;
        const Mono& rm = rem.rbegin()->first;
        // rm / lm
        Mono m;
        std::size_t j = 0;
        for (auto& pr : rm) {
            int e = pr.second;
            if (j < lm.size() && lm[j].first == pr.first) e -= lm[j++].second;
            if (e < 0) return false;
            if (e) m.emplace_back(pr.first, e);
        }
        if (j != lm.size()) return false;
        Poly t;
        t[m] = rem.rbegin()->second / lc;
        addTo(q, t);
        Poly tf = mul(t, f);
        Mono lead = rm;
        addTo(rem, tf, -1);
        rem.erase(lead);
        for (auto it = rem.begin(); it != rem.end();)
            if (std::fabs(it->second) <= 1e-12L * scale)
                it = rem.erase(it);
            else
                ++it;
    }
    return true;
}
inline void reduce(Frac& f) {
    if (f.num.empty()) {
        f.den.clear();
        return;
    }
    for (auto it = f.den.begin(); it != f.den.end();) {
        Poly q;
        while (it->second > 0 && divides(factors[it->first], f.num, q)) {
            f.num = q;
            --it->second;
        }
        if (it->second == 0)
            it = f.den.erase(it);
        else
            ++it;
    }
}
inline Frac add(const Frac& a, const Frac& b, Num s) {
    Frac r;
    if (a.den == b.den) {
        r.num = a.num;
        addTo(r.num, b.num, s);
        r.den = a.den;
    } else {
        std::map<int, int> l = a.den, ma, mb;
        for (auto& f : b.den) l[f.first] = std::max(l[f.first], f.second);
        for (auto& f : l) {
            auto ia = a.den.find(f.first), ib = b.den.find(f.first);
            int ea = f.second - (ia == a.den.end() ? 0 : ia->second);
            int eb = f.second - (ib == b.den.end() ? 0 : ib->second);
            if (ea) ma[f.first] = ea;
            if (eb) mb[f.first] = eb;
        }
        r.num = mul(a.num, denPoly(ma));
        addTo(r.num, mul(b.num, denPoly(mb)), s);
        r.den = l;
    }
    if (!r.den.empty()) reduce(r);
    return r;
}
inline Frac mulF(const Frac& a, const Frac& b) {
    Frac r;
    r.num = mul(a.num, b.num);
    r.den = a.den;
    for (auto& f : b.den) r.den[f.first] += f.second;
    if (!r.den.empty()) reduce(r);
    return r;
}
inline bool invert(const Frac& a, Frac& r) {
    if (a.num.empty()) return false;
    Num c;
    r.num = denPoly(a.den);
    r.den.clear();
    if (isConst(a.num, &c)) {
        for (auto& t : r.num) t.second /= c;
        return true;
    }
    Num scale;
    int id = internFactor(a.num, scale);
    for (auto& t : r.num) t.second /= scale;
    r.den[id] = 1;
    reduce(r);
    return true;
}
inline bool equalF(const Frac& a, const Frac& b) {
    if (a.den == b.den) return nearlyEqual(a.num, b.num);
    return nearlyEqual(mul(a.num, denPoly(b.den)), mul(b.num, denPoly(a.den)));
}
}  // namespace alg

// absint: forward abstract interpreter over LLVM IR.
//
// Domain: constants (integers, pointers to abstract objects, functions),
// rational functions over indeterminates for floating point values, and gated
// joins (decision nodes over sign conditions of rational functions).
// Control-flow splits on undecided conditions are analysed on both sides and
// joined at the immediate post-dominator; no path enumeration, no solver, no
// execution of the analysed program.
#include "algebra.h"

#include <cstdio>
#include <exception>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_map>

#include <sys/mman.h>
#include <ucontext.h>

#include "llvm/ADT/DenseMap.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;
namespace alg {
std::size_t maxTerms = 60000;
std::vector<Poly> factors;
}  // namespace alg

struct Undecided {
    std::string why;
};
struct AbortPath {
    std::string why;
};

enum K : uint8_t { KUndef, KInt, KPtr, KFunc, KFC, KFS, KAgg, KIte };

struct Val;
struct IteNode;
struct Val {
    K k = KUndef;
    uint8_t w = 0;   // int width
    int32_t obj = 0; // pointer object (0 = null)
    int64_t i = 0;   // int value (zero-extended) / offset / function / double
    std::shared_ptr<const void> p;
    double d() const {
        double x;
        memcpy(&x, &i, 8);
        return x;
    }
    const alg::Frac& fs() const {
        return *static_cast<const alg::Frac*>(p.get());
    }
    const std::vector<Val>& agg() const {
        return *static_cast<const std::vector<Val>*>(p.get());
    }
    const IteNode& ite() const {
        return *static_cast<const IteNode*>(p.get());
    }
};
struct IteNode {
    int atom;
    Val a, b;
};

static Val mkInt(uint64_t v, unsigned w) {
    Val r;
    r.k = KInt;
    r.w = w;
    if (w < 64) v &= (1ULL << w) - 1;
    r.i = (int64_t)v;
    return r;
}
// an integer of which only some bits are known: KUndef with the known bits in p, their values in i
static uint64_t knownBits(const Val& v, unsigned w) {
    if (v.k == KInt) return w >= 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1;
    return v.k == KUndef && v.p ? *static_cast<const uint64_t*>(v.p.get()) : 0;
}
static Val mkBits(uint64_t value, uint64_t known, unsigned w) {
    uint64_t mask = w >= 64 ? ~uint64_t(0) : (uint64_t(1) << w) - 1;
    known &= mask;
    if (known == mask) return mkInt(value, w);
    Val r;
    if (!known) return r;
    r.w = w;
    r.i = (int64_t)(value & known);
    r.p = std::make_shared<uint64_t>(known);
    return r;
}
static Val mkFC(double x) {
    Val r;
    r.k = KFC;
    memcpy(&r.i, &x, 8);
    return r;
}
static Val mkPtr(int obj, int64_t off) {
    Val r;
    r.k = KPtr;
    r.obj = obj;
    r.i = off;
    return r;
}
static Val mkFunc(const Function* f) {
    Val r;
    r.k = KFunc;
    r.i = (int64_t)(intptr_t)f;
    return r;
}
static Val mkFS(alg::Frac f) {
    alg::Num c;
    if (f.den.empty() && alg::isConst(f.num, &c)) return mkFC((double)c);
    Val r;
    r.k = KFS;
    r.p = std::make_shared<alg::Frac>(std::move(f));
    return r;
}
static Val mkAgg(std::vector<Val> v) {
    Val r;
    r.k = KAgg;
    r.p = std::make_shared<std::vector<Val>>(std::move(v));
    return r;
}
static int64_t sx(const Val& v) {
    if (v.w >= 64) return v.i;
    return (int64_t)((uint64_t)v.i << (64 - v.w)) >> (64 - v.w);
}
static bool sameVal(const Val& a, const Val& b) {
    if (a.k != b.k) return false;
    switch (a.k) {
        case KUndef:
            return a.i == b.i && knownBits(a, 64) == knownBits(b, 64);
        case KInt:
            return a.i == b.i;
        case KPtr:
            return a.obj == b.obj && a.i == b.i;
        case KFunc:
            return a.i == b.i;
        case KFC:
            return a.i == b.i || a.d() == b.d();
        case KFS:
            return a.p == b.p || alg::equalF(a.fs(), b.fs());
        case KAgg: {
            if (a.p == b.p) return true;
            auto &x = a.agg(), &y = b.agg();
            if (x.size() != y.size()) return false;
            for (size_t i = 0; i < x.size(); ++i)
                if (!sameVal(x[i], y[i])) return false;
            return true;
        }
        case KIte:
            return a.p == b.p ||
                   (a.ite().atom == b.ite().atom &&
                    sameVal(a.ite().a, b.ite().a) &&
                    sameVal(a.ite().b, b.ite().b));
    }
    return false;
}

// ---------------------------------------------------------------- conditions
struct Atom {
    alg::Frac f;
    int rel;  // 0: f > 0, 1: f == 0
    int neg = -1, eq = -1;
};
static std::vector<Atom> atoms;
static std::map<int, bool> assume;

static alg::Frac negF(const alg::Frac& f) {
    alg::Frac r = f;
    for (auto& t : r.num) t.second = -t.second;
    return r;
}
static int findAtom(const alg::Frac& f, int rel) {
    for (size_t i = 0; i < atoms.size(); ++i)
        if (atoms[i].rel == rel && alg::equalF(atoms[i].f, f)) return i;
    return -1;
}
static int getAtom(const alg::Frac& f, int rel) {
    int i = findAtom(f, rel);
    if (i >= 0) return i;
    if (rel == 1) {
        i = findAtom(negF(f), 1);
        if (i >= 0) return i;
    }
    atoms.push_back({f, rel, -1, -1});
    int id = atoms.size() - 1;
    alg::Frac n = negF(f);
    if (rel == 0) {
        int j = findAtom(n, 0);
        atoms[id].neg = j;
        if (j >= 0) atoms[j].neg = id;
        int e = findAtom(f, 1);
        if (e < 0) e = findAtom(n, 1);
        atoms[id].eq = e;
    } else {
        for (int j : {findAtom(f, 0), findAtom(n, 0)})
            if (j >= 0) atoms[j].eq = id;
    }
    return id;
}
// -1 unknown, 0 false, 1 true under current assumptions
static int atomValue(int id) {
    auto it = assume.find(id);
    if (it != assume.end()) return it->second;
    const Atom& a = atoms[id];
    for (auto& kv : assume) {
        if (!kv.second) continue;
        if (a.rel == 0 && (kv.first == a.neg || kv.first == a.eq)) return 0;
        if (a.rel == 1 && atoms[kv.first].rel == 0 && atoms[kv.first].eq == id)
            return 0;
    }
    // trichotomy
    if (a.rel == 0 && a.neg >= 0 && a.eq >= 0) {
        auto n = assume.find(a.neg), e = assume.find(a.eq);
        if (n != assume.end() && e != assume.end() && !n->second && !e->second)
            return 1;
    }
    return -1;
}
static Val mkIte(int atom, const Val& a, const Val& b) {
    if (sameVal(a, b)) return a;
    if ((a.k == KUndef && a.p) || (b.k == KUndef && b.p)) return Val();
    if (a.k == KUndef) return b;
    if (b.k == KUndef) return a;
    Val r;
    r.k = KIte;
    r.p = std::make_shared<IteNode>(IteNode{atom, a, b});
    return r;
}
static int iteDepth(const Val& v) {
    if (v.k != KIte) return 0;
    return 1 + std::max(iteDepth(v.ite().a), iteDepth(v.ite().b));
}
static Val simp(const Val& v) {
    if (v.k != KIte) return v;
    int av = atomValue(v.ite().atom);
    if (av == 1) return simp(v.ite().a);
    if (av == 0) return simp(v.ite().b);
    return v;
}
struct Assume {
    int atom;
    bool had = false, old = false;
    Assume(int a, bool v) : atom(a) {
        auto it = assume.find(a);
        if (it != assume.end()) had = true, old = it->second;
        assume[a] = v;
    }
    ~Assume() {
        if (had)
            assume[atom] = old;
        else
            assume.erase(atom);
    }
};
template <class F>
static Val lift1(const Val& a0, F f) {
    Val a = simp(a0);
    if (a.k != KIte) return f(a);
    if (iteDepth(a) > 12) throw Undecided{"decision value too deep"};
    int at = a.ite().atom;
    Val x, y;
    {
        Assume s(at, true);
        x = lift1(a.ite().a, f);
    }
    {
        Assume s(at, false);
        y = lift1(a.ite().b, f);
    }
    return mkIte(at, x, y);
}
template <class F>
static Val lift2(const Val& a0, const Val& b0, F f) {
    Val a = simp(a0), b = simp(b0);
    if (a.k != KIte && b.k != KIte) return f(a, b);
    int at;
    if (a.k == KIte && b.k == KIte)
        at = std::min(a.ite().atom, b.ite().atom);
    else
        at = a.k == KIte ? a.ite().atom : b.ite().atom;
    if (iteDepth(a) > 12 || iteDepth(b) > 12)
        throw Undecided{"decision value too deep"};
    Val x, y;
    {
        Assume s(at, true);
        x = lift2(a, b, f);
    }
    {
        Assume s(at, false);
        y = lift2(a, b, f);
    }
    return mkIte(at, x, y);
}

// ------------------------------------------------------------------- floats
struct Opaque {
    std::string fn;
    std::vector<alg::Frac> args;
    int var;
};
static std::vector<Opaque> opaques;
static int nextVar = 100000;
static std::map<int, int> sqrtVars;  // var -> opaque index

static alg::Frac toF(const Val& v) {
    alg::Frac f;
    if (v.k == KFC) {
        double x = v.d();
        if (!std::isfinite(x)) throw Undecided{"non-finite constant in algebra"};
        f.num = alg::constant(x);
    } else if (v.k == KFS)
        f = v.fs();
    else if (v.k == KInt && v.i == 0) {
    } else
        throw Undecided{"non-floating operand in arithmetic"};
    return f;
}
// rewrite sqrt(a)^2 -> a
static alg::Frac normSqrt(alg::Frac f) {
    if (sqrtVars.empty()) return f;
    for (int guard = 0; guard < 20; ++guard) {
        int found = -1;
        for (auto& t : f.num) {
            for (auto& ve : t.first)
                if (ve.second >= 2 && sqrtVars.count(ve.first)) {
                    found = ve.first;
                    break;
                }
            if (found >= 0) break;
        }
        if (found < 0) break;
        const alg::Frac& arg = opaques[sqrtVars[found]].args[0];
        alg::Frac r;
        std::map<int, alg::Poly> byHalf;
        for (auto& t : f.num) {
            alg::Mono m;
            int h = 0;
            for (auto& ve : t.first) {
                if (ve.first == found) {
                    h = ve.second / 2;
                    if (ve.second % 2) m.emplace_back(ve.first, 1);
                } else
                    m.push_back(ve);
            }
            byHalf[h][m] += t.second;
        }
        for (auto& e : byHalf) {
            alg::Frac term;
            term.num = e.second;
            for (int k = 0; k < e.first; ++k) term = alg::mulF(term, arg);
            r = alg::add(r, term, 1);
        }
        for (auto& d : f.den) r.den[d.first] += d.second;
        if (!r.den.empty()) alg::reduce(r);
        f = r;
    }
    // denominators: factor that is exactly c*sqrtvar raised to >=2
    for (auto it = f.den.begin(); it != f.den.end();) {
        const alg::Poly& fp = alg::factors[it->first];
        if (it->second >= 2 && fp.size() == 1 &&
            fp.begin()->first.size() == 1 &&
            fp.begin()->first[0].second == 1 &&
            sqrtVars.count(fp.begin()->first[0].first)) {
            int half = it->second / 2;
            const alg::Frac& arg =
                opaques[sqrtVars[fp.begin()->first[0].first]].args[0];
            if (it->second % 2)
                it->second = 1;
            else
                it = f.den.erase(it);
            alg::Frac inv;
            if (!alg::invert(arg, inv)) break;
            for (int k = 0; k < half; ++k) f = alg::mulF(f, inv);
            it = f.den.begin();
            continue;
        }
        ++it;
    }
    return f;
}
static Val fAdd(const Val& a, const Val& b, int s) {
    if (a.k == KUndef || b.k == KUndef) return Val();
    if (a.k == KFC && b.k == KFC)
        return mkFC(s > 0 ? a.d() + b.d() : a.d() - b.d());
    return mkFS(alg::add(toF(a), toF(b), s));
}
static Val fMul(const Val& a, const Val& b) {
    if (a.k == KUndef || b.k == KUndef) return Val();
    if (a.k == KFC && b.k == KFC) return mkFC(a.d() * b.d());
    return mkFS(normSqrt(alg::mulF(toF(a), toF(b))));
}
static Val fDiv(const Val& a, const Val& b) {
    if (a.k == KUndef || b.k == KUndef) return Val();
    if (a.k == KFC && b.k == KFC) return mkFC(a.d() / b.d());
    if (b.k == KFC) {
        if (b.d() == 0) throw Undecided{"symbolic division by zero"};
        return mkFS(alg::mulF(toF(a), toF(mkFC(1.0 / b.d()))));
    }
    alg::Frac inv;
    if (!alg::invert(toF(b), inv)) throw Undecided{"division by zero function"};
    return mkFS(normSqrt(alg::mulF(toF(a), inv)));
}
static Val fNeg(const Val& a) {
    if (a.k == KUndef) return a;
    if (a.k == KFC) return mkFC(-a.d());
    if (a.k == KInt && a.i == 0) return mkFC(-0.0);
    return mkFS(negF(a.fs()));
}
static Val mkBool(int atom, bool positive) {
    return mkIte(atom, mkInt(positive, 1), mkInt(!positive, 1));
}
static Val condGT(const alg::Frac& f, bool positive) {
    alg::Num c;
    if (f.den.empty() && alg::isConst(f.num, &c))
        return mkInt((c > 0) == positive, 1);
    return simp(mkBool(getAtom(f, 0), positive));
}
static Val condEQ(const alg::Frac& f, bool positive) {
    alg::Num c;
    if (f.den.empty() && alg::isConst(f.num, &c))
        return mkInt((c == 0) == positive, 1);
    return simp(mkBool(getAtom(f, 1), positive));
}
static Val opaque(const std::string& fn, std::vector<alg::Frac> args) {
    for (auto& o : opaques) {
        if (o.fn != fn || o.args.size() != args.size()) continue;
        bool eq = true;
        for (size_t i = 0; i < args.size() && eq; ++i)
            eq = alg::equalF(o.args[i], args[i]);
        if (eq) {
            alg::Frac f;
            f.num = alg::var(o.var);
            return mkFS(f);
        }
    }
    int v = nextVar++;
    opaques.push_back({fn, args, v});
    if (fn == "sqrt") sqrtVars[v] = opaques.size() - 1;
    alg::Frac f;
    f.num = alg::var(v);
    return mkFS(f);
}
static bool isSquare(const alg::Frac& f, alg::Frac& root);
static Val fnUnary(const std::string& fn, const Val& a) {
    return lift1(a, [&](const Val& x) -> Val {
        if (x.k == KUndef) return x;
        if (x.k == KFC) {
            double v = x.d();
            if (fn == "sqrt") return mkFC(std::sqrt(v));
            if (fn == "fabs") return mkFC(std::fabs(v));
            if (fn == "sin") return mkFC(std::sin(v));
            if (fn == "cos") return mkFC(std::cos(v));
            if (fn == "tan") return mkFC(std::tan(v));
            if (fn == "exp") return mkFC(std::exp(v));
            if (fn == "log") return mkFC(std::log(v));
            if (fn == "log10") return mkFC(std::log10(v));
            if (fn == "log2") return mkFC(std::log2(v));
            if (fn == "floor") return mkFC(std::floor(v));
            if (fn == "ceil") return mkFC(std::ceil(v));
            if (fn == "round") return mkFC(std::round(v));
            if (fn == "trunc") return mkFC(std::trunc(v));
            if (fn == "tgamma") return mkFC(std::tgamma(v));
            if (fn == "acos") return mkFC(std::acos(v));
            if (fn == "asin") return mkFC(std::asin(v));
            if (fn == "atan") return mkFC(std::atan(v));
            if (fn == "sinh") return mkFC(std::sinh(v));
            if (fn == "cosh") return mkFC(std::cosh(v));
            if (fn == "tanh") return mkFC(std::tanh(v));
            throw Undecided{"unmodelled function " + fn};
        }
        if (fn == "fabs") {
            Val c = condGT(x.fs(), true);
            if (c.k == KInt) return c.i ? x : fNeg(x);
            return mkIte(c.ite().atom, x, fNeg(x));
        }
        return opaque(fn, {toF(x)});
    });
}
static Val fnPow(const Val& a, const Val& b) {
    return lift2(a, b, [&](const Val& x, const Val& y) -> Val {
        if (x.k == KFC && y.k == KFC) return mkFC(std::pow(x.d(), y.d()));
        if (y.k == KFC && y.d() == std::floor(y.d()) &&
            std::fabs(y.d()) < 64) {
            int n = (int)y.d();
            Val r = mkFC(1), base = n < 0 ? fDiv(mkFC(1), x) : x;
            for (int i = 0; i < std::abs(n); ++i) r = fMul(r, base);
            return r;
        }
        if (y.k == KFC && y.d() == 0.5) return fnUnary("sqrt", x);
        return opaque("pow", {toF(x), toF(y)});
    });
}

// ------------------------------------------------------------------- memory
struct Cell {
    int64_t size;
    Val v;
};
struct Obj {
    int64_t size = 0;
    bool zero = false;
    bool dead = false;
    std::map<int64_t, Cell> cells;
    std::string name;
};
static std::vector<std::shared_ptr<Obj>> mem(1);
static std::unordered_map<const GlobalVariable*, int> globalObj;
static std::unordered_map<int, const GlobalVariable*> objGlobal;
static const DataLayout* DL;
static Module* M;

static int newObj(int64_t size, bool zero, const std::string& name = "") {
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->zero = zero;
    o->name = name;
    mem.push_back(o);
    return mem.size() - 1;
}
static Obj& wr(int id) {
    if (!mem[id]) throw Undecided{"write to unknown object"};
    if (mem[id].use_count() > 1) mem[id] = std::make_shared<Obj>(*mem[id]);
    return *mem[id];
}
// split any cell straddling position pos
static void splitAt(Obj& o, int64_t pos) {
    auto it = o.cells.upper_bound(pos);
    if (it == o.cells.begin()) return;
    --it;
    int64_t s = it->first, e = s + it->second.size;
    if (s == pos || e <= pos) return;
    Cell c = it->second;
    int64_t left = pos - s, right = e - pos;
    if (c.v.k == KInt && (c.size <= 8 || c.v.i == 0)) {
        it->second = Cell{left, mkInt(c.v.i, left >= 8 ? 64 : left * 8)};
        uint64_t hi = c.v.i == 0 ? 0 : ((uint64_t)c.v.i >> (8 * left));
        o.cells[pos] = Cell{right, mkInt(hi, right >= 8 ? 64 : right * 8)};
    } else if (c.v.k == KFC && c.size == 8) {
        uint64_t bits = c.v.i;
        it->second = Cell{left, mkInt(bits, left * 8)};
        o.cells[pos] = Cell{right, mkInt(bits >> (8 * left), right * 8)};
    } else {
        // unknown bytes on both halves
        it->second = Cell{left, Val()};
        o.cells[pos] = Cell{right, Val()};
    }
}
static void clearRange(Obj& o, int64_t off, int64_t n) {
    splitAt(o, off);
    splitAt(o, off + n);
    o.cells.erase(o.cells.lower_bound(off), o.cells.lower_bound(off + n));
}
static void checkAccess(int id, int64_t off, int64_t n, const char* what) {
    if (id <= 0 || id >= (int)mem.size() || !mem[id])
        throw AbortPath{std::string("null or invalid pointer ") + what};
    if (off < 0 || off + n > mem[id]->size) {
        std::ostringstream s;
        s << "out-of-bounds " << what << " at " << off << "+" << n
          << " of object size " << mem[id]->size << " " << mem[id]->name;
        throw AbortPath{s.str()};
    }
}
static Val zeroOf(Type* t);
static Val loadScalar(int id, int64_t off, Type* t) {
    int64_t n = DL->getTypeStoreSize(t);
    checkAccess(id, off, n, "load");
    const Obj& o = *mem[id];
    auto it = o.cells.upper_bound(off);
    const Cell* c = nullptr;
    int64_t s = 0;
    if (it != o.cells.begin()) {
        auto j = std::prev(it);
        if (j->first + j->second.size > off) {
            c = &j->second;
            s = j->first;
        }
    }
    if (!c) {
        // uninitialised or zero
        auto nx = o.cells.lower_bound(off);
        if (nx == o.cells.end() || nx->first >= off + n)
            return o.zero ? zeroOf(t) : Val();
    }
    if (c && s == off && c->size == n) {
        return lift1(c->v, [&](const Val& v) -> Val {
            if (v.k == KUndef) return v;
            if (t->isDoubleTy() && v.k == KInt) {
                Val r = mkFC(0);
                r.i = v.i;
                return r;
            }
            if (t->isFloatTy() && v.k == KInt) {
                float f;
                uint32_t b = (uint32_t)v.i;
                memcpy(&f, &b, 4);
                return mkFC(f);
            }
            if (t->isIntegerTy() && v.k == KFC) {
                if (n == 4) {
                    float f = (float)v.d();
                    uint32_t b;
                    memcpy(&b, &f, 4);
                    return mkInt(b, 32);
                }
                return mkInt(v.i, 64);
            }
            if (t->isIntegerTy() && v.k == KInt)
                return mkInt(v.i, t->getIntegerBitWidth());
            if (t->isPointerTy() && v.k == KInt)
                return mkPtr(0, v.i);
            return v;
        });
    }
    // assemble from bytes if all constant ints
    uint64_t acc = 0;
    if (n > 8) throw Undecided{"wide partial load"};
    for (int64_t b = 0; b < n; ++b) {
        auto jt = o.cells.upper_bound(off + b);
        uint64_t byte = 0;
        bool ok = false;
        if (jt != o.cells.begin()) {
            --jt;
            int64_t js = jt->first, rel = off + b - js;
            if (rel < jt->second.size) {
                const Val& v = jt->second.v;
                if (v.k == KInt) {
                    byte = (rel >= 8 || v.i == 0)
                               ? 0
                               : ((uint64_t)v.i >> (8 * rel)) & 255;
                    ok = true;
                } else if (v.k == KFC) {
                    byte = ((uint64_t)v.i >> (8 * rel)) & 255;
                    ok = true;
                } else if (v.k == KUndef) {
                    return Val();
                } else
                    throw Undecided{"partial load of symbolic value"};
            }
        }
        if (!ok) {
            if (!o.zero) return Val();
        }
        acc |= byte << (8 * b);
    }
    if (t->isDoubleTy()) {
        Val r = mkFC(0);
        r.i = acc;
        return r;
    }
    if (t->isFloatTy()) {
        float f;
        uint32_t b = (uint32_t)acc;
        memcpy(&f, &b, 4);
        return mkFC(f);
    }
    if (t->isPointerTy()) return mkPtr(0, acc);
    return mkInt(acc, t->getIntegerBitWidth());
}
static Val loadType(int id, int64_t off, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        std::vector<Val> v;
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            v.push_back(
                loadType(id, off + sl->getElementOffset(i), st->getElementType(i)));
        return mkAgg(v);
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        std::vector<Val> v;
        int64_t es = DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i)
            v.push_back(loadType(id, off + i * es, at->getElementType()));
        return mkAgg(v);
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        std::vector<Val> v;
        int64_t es = DL->getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); ++i)
            v.push_back(loadType(id, off + i * es, vt->getElementType()));
        return mkAgg(v);
    }
    return loadScalar(id, off, t);
}
static void storeScalar(int id, int64_t off, int64_t n, const Val& v) {
    checkAccess(id, off, n, "store");
    Obj& o = wr(id);
    clearRange(o, off, n);
    o.cells[off] = Cell{n, v};
}
static void storeType(int id, int64_t off, Type* t, const Val& v) {
    if (t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t)) {
        unsigned cnt;
        if (v.k == KUndef) {
            checkAccess(id, off, DL->getTypeStoreSize(t), "store");
            clearRange(wr(id), off, DL->getTypeStoreSize(t));
            wr(id).cells[off] = Cell{(int64_t)DL->getTypeStoreSize(t), Val()};
            return;
        }
        if (v.k != KAgg) throw Undecided{"store of non-aggregate"};
        cnt = v.agg().size();
        for (unsigned i = 0; i < cnt; ++i) {
            Type* et;
            int64_t eo;
            if (auto* st = dyn_cast<StructType>(t)) {
                et = st->getElementType(i);
                eo = DL->getStructLayout(st)->getElementOffset(i);
            } else if (auto* at = dyn_cast<ArrayType>(t)) {
                et = at->getElementType();
                eo = i * DL->getTypeAllocSize(et);
            } else {
                et = cast<FixedVectorType>(t)->getElementType();
                eo = i * DL->getTypeStoreSize(et);
            }
            storeType(id, off + eo, et, v.agg()[i]);
        }
        return;
    }
    int64_t n = DL->getTypeStoreSize(t);
    Val x = v;
    if (t->isFloatTy() && v.k == KFC) x = mkFC((float)v.d());
    storeScalar(id, off, n, x);
}
static void copyMem(int d, int64_t doff, int s, int64_t soff, int64_t n) {
    if (n == 0) return;
    checkAccess(s, soff, n, "copy-from");
    checkAccess(d, doff, n, "copy-to");
    {
        // make sure source cells do not straddle
        bool need = false;
        for (int64_t pos : {soff, soff + n}) {
            auto it = mem[s]->cells.upper_bound(pos);
            if (it == mem[s]->cells.begin()) continue;
            --it;
            if (it->first < pos && it->first + it->second.size > pos)
                need = true;
        }
        if (need) {
            Obj& so = wr(s);
            splitAt(so, soff);
            splitAt(so, soff + n);
        }
    }
    std::vector<std::pair<int64_t, Cell>> tmp;
    const Obj& so = *mem[s];
    int64_t pos = soff;
    for (auto it = so.cells.lower_bound(soff);
         it != so.cells.end() && it->first < soff + n; ++it) {
        if (it->first > pos && so.zero)
            tmp.push_back({pos - soff, Cell{it->first - pos, mkInt(0, 64)}});
        tmp.push_back({it->first - soff, it->second});
        pos = it->first + it->second.size;
    }
    if (pos < soff + n && so.zero)
        tmp.push_back({pos - soff, Cell{soff + n - pos, mkInt(0, 64)}});
    Obj& o = wr(d);
    clearRange(o, doff, n);
    if (o.zero) o.cells[doff] = Cell{n, Val()}, clearRange(o, doff, n);
    bool full = true;
    int64_t p2 = 0;
    for (auto& c : tmp) {
        if (c.first != p2) full = false;
        p2 = c.first + c.second.size;
    }
    if (p2 != n) full = false;
    if (!full && o.zero) {
        // gaps are undefined bytes
        p2 = 0;
        for (auto& c : tmp) {
            if (c.first > p2) o.cells[doff + p2] = Cell{c.first - p2, Val()};
            p2 = c.first + c.second.size;
        }
        if (p2 < n) o.cells[doff + p2] = Cell{n - p2, Val()};
    }
    for (auto& c : tmp) o.cells[doff + c.first] = c.second;
}

// ---------------------------------------------------------------- constants
static Val evalConst(const Constant* c);
static int globalFor(const GlobalVariable* g);
static Val zeroOf(Type* t) {
    if (t->isIntegerTy()) return mkInt(0, std::min(64u, t->getIntegerBitWidth()));
    if (t->isFloatingPointTy()) return mkFC(0);
    if (t->isPointerTy()) return mkPtr(0, 0);
    std::vector<Val> v;
    if (auto* st = dyn_cast<StructType>(t))
        for (auto* e : st->elements()) v.push_back(zeroOf(e));
    else if (auto* at = dyn_cast<ArrayType>(t))
        for (uint64_t i = 0; i < at->getNumElements(); ++i)
            v.push_back(zeroOf(at->getElementType()));
    else if (auto* vt = dyn_cast<FixedVectorType>(t))
        for (unsigned i = 0; i < vt->getNumElements(); ++i)
            v.push_back(zeroOf(vt->getElementType()));
    else
        throw Undecided{"zero of unknown type"};
    return mkAgg(v);
}
static void initMem(int id, int64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) return;
    if (isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        int64_t es = cds->getElementByteSize();
        for (unsigned i = 0; i < cds->getNumElements(); ++i) {
            Val v = cds->getElementType()->isIntegerTy()
                        ? mkInt(cds->getElementAsInteger(i), es * 8)
                        : mkFC(cds->getElementType()->isFloatTy()
                                   ? cds->getElementAsFloat(i)
                                   : cds->getElementAsDouble(i));
            mem[id]->cells[off + i * es] = Cell{es, v};
        }
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
            int64_t eo;
            if (auto* st = dyn_cast<StructType>(t))
                eo = DL->getStructLayout(st)->getElementOffset(i);
            else if (auto* at = dyn_cast<ArrayType>(t))
                eo = i * DL->getTypeAllocSize(at->getElementType());
            else
                eo = i * DL->getTypeStoreSize(
                             cast<FixedVectorType>(t)->getElementType());
            initMem(id, off + eo, cast<Constant>(ca->getOperand(i)));
        }
        return;
    }
    mem[id]->cells[off] = Cell{(int64_t)DL->getTypeStoreSize(t), evalConst(c)};
}
static int globalFor(const GlobalVariable* g) {
    auto it = globalObj.find(g);
    if (it != globalObj.end()) return it->second;
    int64_t size = DL->getTypeAllocSize(g->getValueType());
    if (!g->hasInitializer() && size == 0) size = 1;
    int id = newObj(size, g->hasInitializer(), g->getName().str());
    globalObj[g] = id;
    objGlobal[id] = g;
    if (g->hasInitializer()) initMem(id, 0, g->getInitializer());
    return id;
}
static Val gepOffset(const GEPOperator* gep, const Val& base,
                     const std::function<Val(const Value*)>& ev) {
    Val cur = base;
    for (auto gi = gep_type_begin(gep), e = gep_type_end(gep); gi != e; ++gi) {
        const Value* op = gi.getOperand();
        if (StructType* st = gi.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(op)->getZExtValue();
            int64_t o = DL->getStructLayout(st)->getElementOffset(f);
            cur = lift1(cur, [&](const Val& p) -> Val {
                if (p.k == KUndef) return p;
                Val r = p;
                r.i += o;
                return r;
            });
        } else {
            int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
            Val idx = ev(op);
            cur = lift2(cur, idx, [&](const Val& p, const Val& i) -> Val {
                if (p.k == KUndef || i.k == KUndef) return Val();
                Val r = p;
                // offsets of virtual bases are stored in tables of pointers
                if (i.k == KPtr && i.obj == 0) {
                    r.i += es * i.i;
                    return r;
                }
                if (i.k != KInt)
                    throw Undecided{"non-integer index"};
                r.i += es * sx(i);
                return r;
            });
        }
    }
    return cur;
}
static Val evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            if (ci->getValue().getActiveBits() > 64)
                throw Undecided{"wide integer"};
            return mkInt(ci->getValue().getLimitedValue(), 64);
        }
        return mkInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APFloat f = cf->getValueAPF();
        bool lost;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
        return mkFC(f.convertToDouble());
    }
    if (isa<ConstantPointerNull>(c)) return mkPtr(0, 0);
    if (isa<UndefValue>(c)) {
        Type* t = c->getType();
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
            Val z = zeroOf(t);
            std::function<Val(const Val&)> u = [&](const Val& v) -> Val {
                if (v.k != KAgg) return Val();
                std::vector<Val> r;
                for (auto& e : v.agg()) r.push_back(u(e));
                return mkAgg(r);
            };
            return u(z);
        }
        return Val();
    }
    if (auto* f = dyn_cast<Function>(c)) return mkFunc(f);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return mkPtr(globalFor(g), 0);
    if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
    if (isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        std::vector<Val> v;
        for (auto& op : ca->operands()) v.push_back(evalConst(cast<Constant>(op)));
        return mkAgg(v);
    }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cds->getNumElements(); ++i)
            v.push_back(evalConst(cds->getElementAsConstant(i)));
        return mkAgg(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce))
            return gepOffset(gep, evalConst(cast<Constant>(gep->getPointerOperand())),
                             [](const Value* v) {
                                 return evalConst(cast<Constant>(v));
                             });
        switch (ce->getOpcode()) {
            case Instruction::BitCast:
            case Instruction::PtrToInt:
            case Instruction::AddrSpaceCast:
                return evalConst(ce->getOperand(0));
            case Instruction::IntToPtr: {
                Val v = evalConst(ce->getOperand(0));
                if (v.k == KInt) return mkPtr(0, v.i);
                return v;
            }
            case Instruction::Trunc: {
                Val v = evalConst(ce->getOperand(0));
                if (v.k == KInt)
                    return mkInt(v.i, ce->getType()->getIntegerBitWidth());
                return v;
            }
            case Instruction::Sub:
            case Instruction::Add: {
                Val a = evalConst(ce->getOperand(0)),
                    b = evalConst(ce->getOperand(1));
                if (a.k == KPtr && b.k == KPtr && a.obj == b.obj &&
                    ce->getOpcode() == Instruction::Sub)
                    return mkInt(a.i - b.i, 64);
                if (a.k == KInt && b.k == KInt)
                    return mkInt(ce->getOpcode() == Instruction::Sub ? a.i - b.i
                                                                     : a.i + b.i,
                                 a.w);
                break;
            }
            default:
                break;
        }
    }
    throw Undecided{"unsupported constant"};
}

// -------------------------------------------------------------- interpreter
struct FnInfo {
    DenseMap<const Value*, unsigned> slot;
    unsigned n = 0;
    DenseMap<const BasicBlock*, const BasicBlock*> ipdom;
    bool pd = false;
};
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> infos;
static FnInfo& infoFor(const Function* F) {
    auto& p = infos[F];
    if (p) return *p;
    p.reset(new FnInfo);
    for (auto& a : F->args()) p->slot[&a] = p->n++;
    for (auto& I : instructions(F)) p->slot[&I] = p->n++;
    return *p;
}
static void computePD(const Function* F, FnInfo& fi) {
    if (fi.pd) return;
    fi.pd = true;
    std::vector<const BasicBlock*> bbs;
    DenseMap<const BasicBlock*, unsigned> id;
    for (auto& b : *F) {
        id[&b] = bbs.size();
        bbs.push_back(&b);
    }
    unsigned n = bbs.size();
    // live: can reach a return
    std::vector<char> live(n, 0);
    bool ch = true;
    auto succs = [&](unsigned i) {
        std::vector<unsigned> r;
        const Instruction* t = bbs[i]->getTerminator();
        if (auto* inv = dyn_cast<InvokeInst>(t)) {
            r.push_back(id[inv->getNormalDest()]);
            return r;
        }
        for (unsigned k = 0; k < t->getNumSuccessors(); ++k)
            r.push_back(id[t->getSuccessor(k)]);
        return r;
    };
    while (ch) {
        ch = false;
        for (unsigned i = 0; i < n; ++i) {
            if (live[i]) continue;
            bool l = isa<ReturnInst>(bbs[i]->getTerminator());
            for (unsigned s : succs(i)) l |= live[s];
            if (l) live[i] = 1, ch = true;
        }
    }
    // pdom sets
    std::vector<std::vector<bool>> pd(n, std::vector<bool>(n, true));
    for (unsigned i = 0; i < n; ++i)
        if (isa<ReturnInst>(bbs[i]->getTerminator())) {
            pd[i].assign(n, false);
            pd[i][i] = true;
        }
    ch = true;
    while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; --i) {
            if (!live[i] || isa<ReturnInst>(bbs[i]->getTerminator())) continue;
            std::vector<bool> r(n, true);
            for (unsigned s : succs(i))
                if (live[s])
                    for (unsigned k = 0; k < n; ++k) r[k] = r[k] && pd[s][k];
            r[i] = true;
            if (r != pd[i]) pd[i] = r, ch = true;
        }
    }
    auto count = [&](unsigned i) {
        unsigned c = 0;
        for (unsigned k = 0; k < n; ++k) c += pd[i][k];
        return c;
    };
    for (unsigned i = 0; i < n; ++i) {
        if (!live[i]) continue;
        const BasicBlock* best = nullptr;
        unsigned bc = 0;
        for (unsigned k = 0; k < n; ++k)
            if (k != i && pd[i][k] && live[k]) {
                unsigned c = count(k);
                if (c > bc) bc = c, best = bbs[k];
            }
        fi.ipdom[bbs[i]] = best;
    }
}

struct Frame {
    const Function* F;
    FnInfo* fi;
    std::vector<Val> regs;
    std::vector<int> allocas;
};
struct Out {
    bool ret;
    Val v;
};
static std::string pendingStack;
// a C++ exception in flight (type-info name and exception object)
struct CppThrow : AbortPath {
    std::string ti;
    Val obj;
    CppThrow(const std::string& w, const std::string& t, const Val& o) : AbortPath{w}, ti(t), obj(o) {}
};
static int handlerDepth = 0;
static std::vector<CppThrow> curThrow;
static std::string exBase(const std::string& ti) {
    static const std::map<std::string, std::string> known = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"},   {"_ZTISt12length_error", "_ZTISt11logic_error"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11logic_error", "_ZTISt9exception"},       {"_ZTISt13runtime_error", "_ZTISt9exception"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"},  {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"},          {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
    auto it = known.find(ti);
    if (it != known.end()) return it->second;
    if (auto* g = M->getNamedGlobal(ti))
        if (g->hasInitializer())
            if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
                if (cs->getNumOperands() == 3)
                    if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) return b->getName().str();
    return "";
}
static bool exMatches(std::string ti, const std::string& want) {
    while (!ti.empty()) {
        if (ti == want) return true;
        ti = exBase(ti);
    }
    return false;
}
static std::map<std::string, int> exSel;
static int selectorOf(const std::string& n) {
    auto it = exSel.find(n);
    if (it != exSel.end()) return it->second;
    int k = exSel.size() + 1;
    return exSel[n] = k;
}
static std::string throwFnType(const std::string& n) {
    static const char* k[] = {"out_of_range", "length_error", "invalid_argument", "domain_error", "logic_error", "runtime_error",
                              "range_error", "overflow_error", "bad_alloc", "bad_cast", "bad_function_call"};
    for (auto* c : k) {
        std::string w(c);
        if (n.find("__throw_" + w) != std::string::npos) return "_ZTISt" + std::to_string(w.size()) + w;
    }
    return "_ZTISt9exception";
}
static uint64_t steps = 0, maxSteps = 400000000ULL;
static int depth = 0, splitDepth = 0;
static uint64_t nSplits = 0, nCalls = 0;
static std::set<const Function*> analysed;
static std::map<std::string, std::function<Val(const CallBase*, std::vector<Val>&)>>
    builtins;

static Val callFunction(const Function* F, std::vector<Val> args,
                        const CallBase* cb);

static Val ev(Frame& fr, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
    auto it = fr.fi->slot.find(v);
    if (it == fr.fi->slot.end()) throw Undecided{"unsupported operand"};
    return simp(fr.regs[it->second]);
}
static Val intBin(unsigned op, const Val& a, const Val& b, unsigned w);
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b);
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b);

template <class F>
static Val vec2(const Val& a, const Val& b, F f) {
    if (a.k == KAgg && b.k == KAgg) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg().size(); ++i)
            r.push_back(lift2(a.agg()[i], b.agg()[i], f));
        return mkAgg(r);
    }
    return lift2(a, b, f);
}
template <class F>
static Val vec1(const Val& a, F f) {
    if (a.k == KAgg) {
        std::vector<Val> r;
        for (auto& x : a.agg()) r.push_back(lift1(x, f));
        return mkAgg(r);
    }
    return lift1(a, f);
}
static Val loadIte(const Val& p, Type* t) {
    return lift1(p, [&](const Val& q) -> Val {
        if (q.k == KUndef) throw AbortPath{"load through undefined pointer"};
        if (q.k != KPtr) throw Undecided{"load through non-pointer"};
        return loadType(q.obj, q.i, t);
    });
}
static void storeIte(const Val& p0, Type* t, const Val& v) {
    Val p = simp(p0);
    if (p.k == KIte) {
        int at = p.ite().atom;
        Val pa = p.ite().a, pb = p.ite().b;
        Val oldA, oldB;
        {
            Assume s(at, true);
            oldA = loadIte(pa, t);
            storeIte(pa, t, mkIte(at, v, oldA));
        }
        {
            Assume s(at, false);
            oldB = loadIte(pb, t);
            storeIte(pb, t, mkIte(at, oldB, v));
        }
        return;
    }
    if (p.k == KUndef) throw AbortPath{"store through undefined pointer"};
    if (p.k != KPtr) throw Undecided{"store through non-pointer"};
    storeType(p.obj, p.i, t, v);
}

static Val mergeVal(int atom, const Val& a, const Val& b) {
    if (sameVal(a, b)) return a;
    if ((a.k == KUndef && a.p) || (b.k == KUndef && b.p)) return Val();
    if (a.k == KUndef) return b;
    if (b.k == KUndef) return a;
    if (a.k == KAgg && b.k == KAgg && a.agg().size() == b.agg().size()) {
        std::vector<Val> r;
        for (size_t i = 0; i < a.agg().size(); ++i)
            r.push_back(mergeVal(atom, a.agg()[i], b.agg()[i]));
        return mkAgg(r);
    }
    return mkIte(atom, a, b);
}
static std::shared_ptr<Obj> mergeObj(int atom, const std::shared_ptr<Obj>& a,
                                     const std::shared_ptr<Obj>& b) {
    if (a == b) return a;
    if (!a) return b;
    if (!b) return a;
    auto r = std::make_shared<Obj>(*a);
    Obj bb = *b;
    // align cell boundaries
    std::set<int64_t> cuts;
    for (auto& c : r->cells) cuts.insert(c.first), cuts.insert(c.first + c.second.size);
    for (auto& c : bb.cells) cuts.insert(c.first), cuts.insert(c.first + c.second.size);
    for (int64_t c : cuts) splitAt(*r, c), splitAt(bb, c);
    for (auto& c : bb.cells) {
        auto it = r->cells.find(c.first);
        if (it == r->cells.end()) {
            if (r->zero)
                r->cells[c.first] = Cell{
                    c.second.size,
                    c.second.v.k == KInt || c.second.v.k == KIte
                        ? mergeVal(atom, mkInt(0, c.second.size >= 8 ? 64 : c.second.size * 8), c.second.v)
                        : mergeVal(atom,
                                   c.second.v.k == KPtr || c.second.v.k == KFunc
                                       ? mkPtr(0, 0)
                                       : mkFC(0),
                                   c.second.v)};
            else
                r->cells[c.first] = c.second;
        } else {
            it->second.v = mergeVal(atom, it->second.v, c.second.v);
        }
    }
    if (r->zero) {
        for (auto& c : r->cells)
            if (!bb.cells.count(c.first)) {
                Val z = c.second.v.k == KPtr || c.second.v.k == KFunc ? mkPtr(0, 0)
                        : c.second.v.k == KInt
                            ? mkInt(0, c.second.v.w)
                            : mkFC(0);
                c.second.v = mergeVal(atom, c.second.v, z);
            }
    }
    r->size = std::max(a->size, b->size);
    r->dead = a->dead && b->dead;
    return r;
}

static bool evalPhis(Frame& fr, const BasicBlock* bb, const BasicBlock* prev) {
    std::vector<std::pair<unsigned, Val>> upd;
    for (auto& phi : bb->phis())
        upd.emplace_back(fr.fi->slot[&phi],
                         ev(fr, phi.getIncomingValueForBlock(prev)));
    for (auto& u : upd) fr.regs[u.first] = u.second;
    return true;
}
static void execInst(Frame& fr, const Instruction& I);
static Out run(Frame& fr, const BasicBlock* bb, const BasicBlock* stop);
// developer aid: the lines of the repository that were analysed (ABSINT_COVERAGE)
static const char* coverage = getenv("ABSINT_COVERAGE");
static std::set<const BasicBlock*> covered;
static void writeCoverage(const Module& M) {
    std::map<std::string, bool> lines;
    for (auto& F : M)
        for (auto& B : F) {
            bool c = covered.count(&B);
            for (auto& I : B)
                for (const DILocation* l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
                    if (l->getLine()) lines[l->getFilename().str() + ":" + std::to_string(l->getLine())] |= c;
        }
    std::ofstream o(coverage, std::ios::app);
    for (auto& l : lines) o << l.second << " " << l.first << "\n";
}

static Out runTerm(Frame& fr, const BasicBlock* bb, const BasicBlock* stop);

static Out enter(Frame& fr, const BasicBlock* to, const BasicBlock* from,
                 const BasicBlock* stop, bool& stopped) {
    evalPhis(fr, to, from);
    if (to == stop) {
        stopped = true;
        return {false, Val()};
    }
    stopped = false;
    return {false, Val()};
}

static Out split(Frame& fr, const BasicBlock* bb, const BasicBlock* stop,
                 int atom) {
    computePD(fr.F, *fr.fi);
    const BasicBlock* P = fr.fi->ipdom.lookup(bb);
    if (splitDepth > 24) throw Undecided{"too many nested undecided conditions"};
    ++splitDepth;
    ++nSplits;
    struct D {
        ~D() { --splitDepth; }
    } dguard;
    auto mem0 = mem;
    auto regs0 = fr.regs;
    Out o1{false, Val()}, o2{false, Val()};
    bool ab1 = false, ab2 = false;
    std::string why;
    {
        Assume s(atom, true);
        try {
            o1 = runTerm(fr, bb, P);
        } catch (CppThrow& a) {
            if (handlerDepth > 0) throw Undecided{"conditional exception: " + a.why};
            ab1 = true;
            why = a.why;
            pendingStack.clear();
        } catch (AbortPath& a) {
            ab1 = true;
            why = a.why;
            if (getenv("ABSINT_VERBOSE")) std::cerr << "side aborted: " << why << " " << pendingStack << "\n";
            pendingStack.clear();
        }
    }
    auto mem1 = mem;
    auto regs1 = fr.regs;
    // restore, keeping ids of new objects unique
    size_t top = mem.size();
    mem = mem0;
    mem.resize(top);
    // globals materialised on side 1 stay
    for (size_t i = mem0.size(); i < top; ++i)
        if (objGlobal.count(i)) mem[i] = mem1[i];
    fr.regs = regs0;
    {
        Assume s(atom, false);
        try {
            o2 = runTerm(fr, bb, P);
        } catch (CppThrow& a) {
            if (handlerDepth > 0) throw Undecided{"conditional exception: " + a.why};
            ab2 = true;
            why = a.why;
            pendingStack.clear();
        } catch (AbortPath& a) {
            ab2 = true;
            why = a.why;
            if (getenv("ABSINT_VERBOSE")) std::cerr << "side aborted: " << why << " " << pendingStack << "\n";
            pendingStack.clear();
        }
    }
    if (ab1 && ab2) throw AbortPath{why};
    Out res{false, Val()};
    if (ab1) {
        res = o2;
    } else if (ab2) {
        top = std::max(mem.size(), mem1.size());
        auto mem2 = mem;
        mem = mem1;
        mem.resize(top);
        for (size_t i = 0; i < mem2.size(); ++i)
            if (!mem[i] && objGlobal.count(i)) mem[i] = mem2[i];
        fr.regs = regs1;
        res = o1;
    } else {
        if (o1.ret != o2.ret) throw Undecided{"irregular join"};
        mem1.resize(mem.size());
        for (size_t i = 0; i < mem.size(); ++i)
            mem[i] = mergeObj(atom, mem1[i], mem[i]);
        for (size_t i = 0; i < fr.regs.size(); ++i)
            fr.regs[i] = mergeVal(atom, regs1[i], fr.regs[i]);
        res.ret = o1.ret;
        if (o1.ret) res.v = mergeVal(atom, o1.v, o2.v);
    }
    if (res.ret || P == stop || !P) return res;
    return run(fr, P, stop);
}

// executes an invoke; returns the successor that is taken
static const BasicBlock* execInvoke(Frame& fr, const InvokeInst& inv) {
    const LandingPadInst* lp = inv.getLandingPadInst();
    bool term = false;
    for (auto& I : *lp->getParent())
        if (auto* cb = dyn_cast<CallBase>(&I))
            if (cb->getCalledFunction() && cb->getCalledFunction()->getName() == "__clang_call_terminate") term = true;
    bool handler = !term && lp->getNumClauses() > 0;
    struct H {
        int d;
        H(int x) : d(x) { handlerDepth += d; }
        ~H() { handlerDepth -= d; }
    } h(handler ? 1 : 0);
    try {
        execInst(fr, inv);
        return inv.getNormalDest();
    } catch (CppThrow& t) {
        if (term) throw AbortPath{"terminate: " + t.why};
        int sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses() && !sel; ++i) {
            if (!lp->isCatch(i)) continue;
            auto* c = lp->getClause(i)->stripPointerCasts();
            if (isa<ConstantPointerNull>(c)) sel = selectorOf("");
            else if (exMatches(t.ti, c->getName().str())) sel = selectorOf(c->getName().str());
        }
        if (!sel && !lp->isCleanup()) throw;
        curThrow.push_back(t);
        fr.regs[fr.fi->slot[lp]] = mkAgg({t.obj, mkInt(sel, 32)});
        pendingStack.clear();
        return inv.getUnwindDest();
    }
}

static Out runTerm(Frame& fr, const BasicBlock* bb, const BasicBlock* stop) {
    const Instruction* t = bb->getTerminator();
    const BasicBlock* next = nullptr;
    if (++steps > maxSteps) throw Undecided{"step budget exhausted"};
    if (auto* r = dyn_cast<ReturnInst>(t))
        return {true, r->getReturnValue() ? ev(fr, r->getReturnValue()) : Val()};
    if (auto* b = dyn_cast<BranchInst>(t)) {
        if (b->isUnconditional())
            next = b->getSuccessor(0);
        else {
            Val c = ev(fr, b->getCondition());
            if (c.k == KIte) return split(fr, bb, stop, c.ite().atom);
            if (c.k == KUndef) throw Undecided{"branch on undefined value"};
            if (c.k != KInt) throw Undecided{"branch on non-boolean"};
            next = b->getSuccessor(c.i ? 0 : 1);
        }
    } else if (auto* s = dyn_cast<SwitchInst>(t)) {
        Val c = ev(fr, s->getCondition());
        if (c.k == KIte) return split(fr, bb, stop, c.ite().atom);
        if (c.k != KInt) throw Undecided{"switch on non-integer"};
        next = s->getDefaultDest();
        for (auto& cs : s->cases())
            if (cs.getCaseValue()->getZExtValue() == (uint64_t)c.i)
                next = cs.getCaseSuccessor();
    } else if (auto* inv = dyn_cast<InvokeInst>(t)) {
        next = execInvoke(fr, *inv);
    } else if (isa<ResumeInst>(t)) {
        if (curThrow.empty()) throw Undecided{"resume without exception"};
        CppThrow t2 = curThrow.back();
        curThrow.pop_back();
        throw t2;
    } else if (isa<UnreachableInst>(t))
        throw AbortPath{"unreachable"};
    else
        throw Undecided{"unsupported terminator"};
    bool stopped;
    enter(fr, next, bb, stop, stopped);
    if (stopped) return {false, Val()};
    return run(fr, next, stop);
}
static Out run(Frame& fr, const BasicBlock* bb, const BasicBlock* stop) {
    // iterative for straight control flow
    while (true) {
        if (coverage) covered.insert(bb);
        for (auto& I : *bb) {
            if (isa<PHINode>(I)) continue;
            if (I.isTerminator()) break;
            if (isa<LandingPadInst>(I)) continue;
            ++steps;
            execInst(fr, I);
        }
        if (steps > maxSteps) throw Undecided{"step budget exhausted"};
        const Instruction* t = bb->getTerminator();
        const BasicBlock* next = nullptr;
        if (auto* b = dyn_cast<BranchInst>(t)) {
            if (b->isUnconditional())
                next = b->getSuccessor(0);
            else {
                Val c = ev(fr, b->getCondition());
                if (c.k == KInt) next = b->getSuccessor(c.i ? 0 : 1);
            }
        } else if (auto* inv = dyn_cast<InvokeInst>(t)) {
            next = execInvoke(fr, *inv);
        }
        if (!next) return runTerm(fr, bb, stop);
        bool stopped;
        enter(fr, next, bb, stop, stopped);
        if (stopped) return {false, Val()};
        bb = next;
    }
}

static Val intBin(unsigned op, const Val& a, const Val& b, unsigned w) {
    if (a.k == KUndef || b.k == KUndef) {
        // some bits are known, or decided by the other operand alone
        if ((a.k == KUndef || a.k == KInt) && (b.k == KUndef || b.k == KInt)) {
            uint64_t ka = knownBits(a, w), kb = knownBits(b, w), va = uint64_t(a.i) & ka, vb = uint64_t(b.i) & kb, full = knownBits(mkInt(0, w), w);
            switch (op) {
                case Instruction::Mul:
                    if ((ka == full && !va) || (kb == full && !vb)) return mkInt(0, w);
                    break;
                case Instruction::And:
                    return mkBits(va & vb, (ka & kb) | (ka & ~va) | (kb & ~vb), w);
                case Instruction::Or:
                    return mkBits(va | vb, (ka & kb) | va | vb, w);
                case Instruction::Xor:
                    return mkBits(va ^ vb, ka & kb, w);
                case Instruction::Shl:
                    if (b.k == KInt && vb < w) return mkBits(va << vb, (ka << vb) | ((uint64_t(1) << vb) - 1), w);
                    break;
                case Instruction::LShr:
                    if (b.k == KInt && vb < w) return mkBits(va >> vb, (ka >> vb) | ~(full >> vb), w);
                    break;
            }
        }
        return Val();
    }
    if ((a.k == KPtr || a.k == KFunc || b.k == KPtr) && w == 64) {
        auto isNullInt = [](const Val& v) { return v.k == KPtr && v.obj == 0; };
        Val x = isNullInt(a) ? mkInt(a.i, 64) : a, y = isNullInt(b) ? mkInt(b.i, 64) : b;
        if (x.k == KInt && y.k == KInt) return intBin(op, x, y, w);
        if (op == Instruction::Sub && x.k == KPtr && y.k == KPtr) {
            if (x.obj != y.obj) throw Undecided{"difference of unrelated pointers"};
            return mkInt(x.i - y.i, 64);
        }
        if (op == Instruction::Add && x.k == KPtr && y.k == KInt)
            return mkPtr(x.obj, x.i + y.i);
        if (op == Instruction::Add && x.k == KInt && y.k == KPtr)
            return mkPtr(y.obj, y.i + x.i);
        if (op == Instruction::Sub && x.k == KPtr && y.k == KInt)
            return mkPtr(x.obj, x.i - y.i);
        if (op == Instruction::And && y.k == KInt && (x.k == KPtr || x.k == KFunc)) {
            if (x.k == KFunc) return mkInt(0, 64);
            uint64_t m = y.i;
            if (m < 64) return mkInt(x.i & m, 64);
            if (~m < 64) return mkPtr(x.obj, x.i & m);
        }
        if (op == Instruction::Or && x.k == KPtr && y.k == KInt && y.i == 0)
            return x;
        // speculated difference of a null pointer and an object: no meaningful value
        if (op == Instruction::Sub && x.k == KInt && x.i == 0 && y.k == KPtr) return Val();
        throw Undecided{std::string("pointer arithmetic: ") + Instruction::getOpcodeName(op)};
    }
    if (a.k == KFS || b.k == KFS || a.k == KFC || b.k == KFC) {
        const Val &f = (a.k == KFS || a.k == KFC) ? a : b,
                  &c = (a.k == KFS || a.k == KFC) ? b : a;
        if (c.k == KInt && (uint64_t)c.i == 0x8000000000000000ULL && op == Instruction::Xor)
            return fNeg(f);
        if (c.k == KInt && (uint64_t)c.i == 0x7fffffffffffffffULL && op == Instruction::And)
            return fnUnary("fabs", f);
        throw Undecided{"bit operation on symbolic float"};
    }
    if (a.k != KInt || b.k != KInt) throw Undecided{"integer operation on non-integers"};
    uint64_t x = a.i, y = b.i;
    switch (op) {
        case Instruction::Add:
            return mkInt(x + y, w);
        case Instruction::Sub:
            return mkInt(x - y, w);
        case Instruction::Mul:
            return mkInt(x * y, w);
        case Instruction::UDiv:
            if (!y) throw AbortPath{"division by zero"};
            return mkInt(x / y, w);
        case Instruction::SDiv:
            if (!y) throw AbortPath{"division by zero"};
            return mkInt(sx(a) / sx(b), w);
        case Instruction::URem:
            if (!y) throw AbortPath{"division by zero"};
            return mkInt(x % y, w);
        case Instruction::SRem:
            if (!y) throw AbortPath{"division by zero"};
            return mkInt(sx(a) % sx(b), w);
        case Instruction::Shl:
            return mkInt(y >= 64 ? 0 : x << y, w);
        case Instruction::LShr:
            return mkInt(y >= 64 ? 0 : x >> y, w);
        case Instruction::AShr:
            return mkInt(y >= 64 ? 0 : sx(a) >> y, w);
        case Instruction::And:
            return mkInt(x & y, w);
        case Instruction::Or:
            return mkInt(x | y, w);
        case Instruction::Xor:
            return mkInt(x ^ y, w);
    }
    throw Undecided{"integer opcode"};
}
static Val icmp(CmpInst::Predicate p, const Val& a0, const Val& b0) {
    Val a = a0, b = b0;
    if (a.k == KUndef || b.k == KUndef) {
        unsigned w = a.k == KInt ? a.w : b.w;
        uint64_t known = w ? knownBits(a, w) & knownBits(b, w) : 0;
        if (known && (uint64_t(a.i) & known) != (uint64_t(b.i) & known)) {
            if (p == CmpInst::ICMP_EQ) return mkInt(0, 1);
            if (p == CmpInst::ICMP_NE) return mkInt(1, 1);
        }
        return Val();
    }
    auto norm = [](Val& v) {
        if (v.k == KPtr && v.obj == 0) v = mkInt(v.i, 64);
    };
    if (a.k == KPtr || b.k == KPtr || a.k == KFunc || b.k == KFunc) {
        norm(a);
        norm(b);
    }
    if (a.k == KInt && b.k == KInt) {
        uint64_t x = a.i, y = b.i;
        int64_t sa = sx(a), sb = sx(b);
        bool r;
        switch (p) {
            case CmpInst::ICMP_EQ: r = x == y; break;
            case CmpInst::ICMP_NE: r = x != y; break;
            case CmpInst::ICMP_UGT: r = x > y; break;
            case CmpInst::ICMP_UGE: r = x >= y; break;
            case CmpInst::ICMP_ULT: r = x < y; break;
            case CmpInst::ICMP_ULE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = sa > sb; break;
            case CmpInst::ICMP_SGE: r = sa >= sb; break;
            case CmpInst::ICMP_SLT: r = sa < sb; break;
            default: r = sa <= sb; break;
        }
        return mkInt(r, 1);
    }
    // pointers / functions
    if (a.k == KFS || b.k == KFS || a.k == KFC || b.k == KFC)
        throw Undecided{"integer comparison of floats"};
    auto key = [](const Val& v) {
        if (v.k == KInt) return std::make_pair((int64_t)0, v.i);
        if (v.k == KFunc) return std::make_pair((int64_t)1 << 40, v.i);
        return std::make_pair((int64_t)v.obj, v.i);
    };
    auto x = key(a), y = key(b);
    bool r;
    switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT:
        case CmpInst::ICMP_SGT: r = x > y; break;
        case CmpInst::ICMP_UGE:
        case CmpInst::ICMP_SGE: r = x >= y; break;
        case CmpInst::ICMP_ULT:
        case CmpInst::ICMP_SLT: r = x < y; break;
        default: r = x <= y; break;
    }
    return mkInt(r, 1);
}
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == KUndef || b.k == KUndef) return Val();
    if (p == CmpInst::FCMP_TRUE) return mkInt(1, 1);
    if (p == CmpInst::FCMP_FALSE) return mkInt(0, 1);
    if (a.k == KFC && b.k == KFC) {
        double x = a.d(), y = b.d();
        bool un = std::isnan(x) || std::isnan(y), r;
        switch (p) {
            case CmpInst::FCMP_OEQ: r = x == y; break;
            case CmpInst::FCMP_OGT: r = x > y; break;
            case CmpInst::FCMP_OGE: r = x >= y; break;
            case CmpInst::FCMP_OLT: r = x < y; break;
            case CmpInst::FCMP_OLE: r = x <= y; break;
            case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break;
            case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break;
            case CmpInst::FCMP_UGE: r = un || x >= y; break;
            case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break;
            default: r = un || x != y; break;
        }
        return mkInt(r, 1);
    }
    if (p == CmpInst::FCMP_ORD) return mkInt(1, 1);
    if (p == CmpInst::FCMP_UNO) return mkInt(0, 1);
    // comparison of a symbolic value with an infinity
    for (int s = 0; s < 2; ++s) {
        const Val& q = s ? a : b;
        if (q.k == KFC && !std::isfinite(q.d())) {
            bool big = q.d() > 0;
            if (s) big = !big;  // inf on the left
            // here: other < +inf always true
            switch (p) {
                case CmpInst::FCMP_OEQ:
                case CmpInst::FCMP_UEQ: return mkInt(0, 1);
                case CmpInst::FCMP_ONE:
                case CmpInst::FCMP_UNE: return mkInt(1, 1);
                case CmpInst::FCMP_OLT:
                case CmpInst::FCMP_ULT:
                case CmpInst::FCMP_OLE:
                case CmpInst::FCMP_ULE: return mkInt(big, 1);
                default: return mkInt(!big, 1);
            }
        }
    }
    alg::Frac d = alg::add(toF(a), toF(b), -1);
    switch (p) {
        case CmpInst::FCMP_OEQ:
        case CmpInst::FCMP_UEQ: return condEQ(d, true);
        case CmpInst::FCMP_ONE:
        case CmpInst::FCMP_UNE: return condEQ(d, false);
        case CmpInst::FCMP_OGT:
        case CmpInst::FCMP_UGT: return condGT(d, true);
        case CmpInst::FCMP_OLT:
        case CmpInst::FCMP_ULT: return condGT(negF(d), true);
        case CmpInst::FCMP_OGE:
        case CmpInst::FCMP_UGE: return condGT(negF(d), false);
        case CmpInst::FCMP_OLE:
        case CmpInst::FCMP_ULE: return condGT(d, false);
        default: break;
    }
    throw Undecided{"fcmp"};
}
static Val castOp(unsigned op, const Val& a, Type* from, Type* to) {
    Type* st = to->getScalarType();
    return vec1(a, [&](const Val& x) -> Val {
        if (x.k == KUndef) {
            uint64_t k = knownBits(x, 64);
            if (op == Instruction::Trunc && k) return mkBits(x.i, k, st->getIntegerBitWidth());
            if (op == Instruction::ZExt && k) return mkBits(x.i, k | ~((uint64_t(1) << x.w) - 1), st->getIntegerBitWidth());
            return Val();
        }
        switch (op) {
            case Instruction::Trunc:
                if (x.k == KPtr && x.obj == 0) return mkInt(x.i, st->getIntegerBitWidth());
                if (x.k != KInt) {
                    // truncation of symbolic pointer bits: low bits of offset
                    if (x.k == KPtr && st->getIntegerBitWidth() <= 4)
                        return mkInt(x.i, st->getIntegerBitWidth());
                    throw Undecided{"trunc"};
                }
                return mkInt(x.i, st->getIntegerBitWidth());
            case Instruction::ZExt:
                if (x.k != KInt) throw Undecided{"zext"};
                return mkInt(x.i, std::min(64u, st->getIntegerBitWidth()));
            case Instruction::SExt:
                if (x.k != KInt) throw Undecided{"sext"};
                return mkInt(sx(x), std::min(64u, st->getIntegerBitWidth()));
            case Instruction::SIToFP:
                if (x.k != KInt) throw Undecided{"sitofp"};
                return mkFC((double)sx(x));
            case Instruction::UIToFP:
                if (x.k != KInt) throw Undecided{"uitofp"};
                return mkFC((double)(uint64_t)x.i);
            case Instruction::FPToSI:
            case Instruction::FPToUI:
                if (x.k != KFC) throw Undecided{"float to int of symbolic value"};
                return mkInt((uint64_t)(int64_t)x.d(), st->getIntegerBitWidth());
            case Instruction::FPExt:
                return x;
            case Instruction::FPTrunc:
                return x.k == KFC ? mkFC((float)x.d()) : x;
            case Instruction::PtrToInt:
                if (x.k == KPtr && x.obj == 0) return mkInt(x.i, 64);
                return x;
            case Instruction::IntToPtr:
                if (x.k == KInt) return mkPtr(0, x.i);
                return x;
            case Instruction::BitCast: {
                if (st->isDoubleTy() && x.k == KInt) {
                    Val r = mkFC(0);
                    r.i = x.i;
                    return r;
                }
                if (st->isIntegerTy() && x.k == KFC) return mkInt(x.i, 64);
                return x;
            }
        }
        throw Undecided{"cast"};
    });
}
static void insertInto(Val& agg, ArrayRef<unsigned> idx, const Val& v, Type* t) {
    std::vector<Val> e;
    if (agg.k == KAgg)
        e = agg.agg();
    else if (agg.k == KUndef) {
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                                     : t->getArrayNumElements();
        e.resize(n);
    } else
        throw Undecided{"insertvalue"};
    if (idx.size() == 1)
        e[idx[0]] = v;
    else {
        Type* et = t->isStructTy() ? t->getStructElementType(idx[0])
                                   : t->getArrayElementType();
        insertInto(e[idx[0]], idx.drop_front(), v, et);
    }
    agg = mkAgg(e);
}
static void execInst(Frame& fr, const Instruction& I) {
    auto set = [&](Val v) { fr.regs[fr.fi->slot[&I]] = std::move(v); };
    unsigned op = I.getOpcode();
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
        Val a = ev(fr, bo->getOperand(0)), b = ev(fr, bo->getOperand(1));
        Type* st = I.getType()->getScalarType();
        switch (op) {
            case Instruction::FAdd:
                return set(vec2(a, b, [](const Val& x, const Val& y) { return fAdd(x, y, 1); }));
            case Instruction::FSub:
                return set(vec2(a, b, [](const Val& x, const Val& y) { return fAdd(x, y, -1); }));
            case Instruction::FMul:
                return set(vec2(a, b, fMul));
            case Instruction::FDiv:
                return set(vec2(a, b, fDiv));
            case Instruction::FRem:
                return set(vec2(a, b, [](const Val& x, const Val& y) -> Val {
                    if (x.k == KFC && y.k == KFC) return mkFC(std::fmod(x.d(), y.d()));
                    throw Undecided{"frem"};
                }));
            default: {
                unsigned w = st->getIntegerBitWidth();
                if (w > 64) {
                    if (w == 128 && a.k == KInt && b.k == KInt &&
                        (op == Instruction::Mul || op == Instruction::Add)) {
                        unsigned __int128 r = op == Instruction::Mul
                            ? (unsigned __int128)(uint64_t)a.i * (uint64_t)b.i
                            : (unsigned __int128)(uint64_t)a.i + (uint64_t)b.i;
                        if (r >> 64) throw Undecided{"i128 overflow"};
                        return set(mkInt((uint64_t)r, 64));
                    }
                    if (w == 128 && a.k == KInt && b.k == KInt && op == Instruction::LShr)
                        return set(mkInt(b.i >= 64 ? 0 : (uint64_t)a.i >> b.i, 64));
                    throw Undecided{"wide integer arithmetic"};
                }
                return set(vec2(a, b, [&](const Val& x, const Val& y) { return intBin(op, x, y, w); }));
            }
        }
    }
    switch (op) {
        case Instruction::FNeg:
            return set(vec1(ev(fr, I.getOperand(0)), fNeg));
        case Instruction::ICmp: {
            auto p = cast<ICmpInst>(I).getPredicate();
            return set(vec2(ev(fr, I.getOperand(0)), ev(fr, I.getOperand(1)),
                            [&](const Val& x, const Val& y) { return icmp(p, x, y); }));
        }
        case Instruction::FCmp: {
            auto p = cast<FCmpInst>(I).getPredicate();
            return set(vec2(ev(fr, I.getOperand(0)), ev(fr, I.getOperand(1)),
                            [&](const Val& x, const Val& y) { return fcmp(p, x, y); }));
        }
        case Instruction::Select: {
            Val c = ev(fr, I.getOperand(0)), a = ev(fr, I.getOperand(1)),
                b = ev(fr, I.getOperand(2));
            std::function<Val(const Val&)> sel = [&](const Val& c0) -> Val {
                Val c1 = simp(c0);
                if (c1.k == KInt) return c1.i ? simp(a) : simp(b);
                if (c1.k == KUndef) return Val();
                if (c1.k == KIte) {
                    int at = c1.ite().atom;
                    Val x, y;
                    {
                        Assume s(at, true);
                        x = sel(c1.ite().a);
                    }
                    {
                        Assume s(at, false);
                        y = sel(c1.ite().b);
                    }
                    return mergeVal(at, x, y);
                }
                throw Undecided{"select"};
            };
            if (c.k == KAgg) {
                std::vector<Val> r;
                for (size_t i = 0; i < c.agg().size(); ++i) {
                    if (c.agg()[i].k != KInt) throw Undecided{"vector select"};
                    r.push_back(c.agg()[i].i ? a.agg()[i] : b.agg()[i]);
                }
                return set(mkAgg(r));
            }
            return set(sel(c));
        }
        case Instruction::Alloca: {
            auto& ai = cast<AllocaInst>(I);
            Val n = ev(fr, ai.getArraySize());
            int64_t sz = DL->getTypeAllocSize(ai.getAllocatedType()) * (n.k == KInt ? n.i : 1);
            int id = newObj(sz, false, "alloca");
            fr.allocas.push_back(id);
            return set(mkPtr(id, 0));
        }
        case Instruction::Load:
            return set(loadIte(ev(fr, I.getOperand(0)), I.getType()));
        case Instruction::Store:
            storeIte(ev(fr, I.getOperand(1)), I.getOperand(0)->getType(),
                     ev(fr, I.getOperand(0)));
            return;
        case Instruction::GetElementPtr:
            return set(gepOffset(cast<GEPOperator>(&I),
                                 ev(fr, I.getOperand(0)),
                                 [&](const Value* v) { return ev(fr, v); }));
        case Instruction::ExtractValue: {
            Val a = ev(fr, I.getOperand(0));
            for (unsigned i : cast<ExtractValueInst>(I).getIndices()) {
                if (a.k == KUndef) break;
                if (a.k != KAgg) throw Undecided{"extractvalue"};
                Val n = a.agg()[i];
                a = n;
            }
            return set(a);
        }
        case Instruction::InsertValue: {
            Val a = ev(fr, I.getOperand(0));
            insertInto(a, cast<InsertValueInst>(I).getIndices(),
                       ev(fr, I.getOperand(1)), I.getType());
            return set(a);
        }
        case Instruction::ExtractElement: {
            Val a = ev(fr, I.getOperand(0)), i = ev(fr, I.getOperand(1));
            if (a.k == KUndef) return set(Val());
            if (a.k != KAgg || i.k != KInt) throw Undecided{"extractelement"};
            return set(a.agg()[i.i]);
        }
        case Instruction::InsertElement: {
            Val a = ev(fr, I.getOperand(0)), v = ev(fr, I.getOperand(1)),
                i = ev(fr, I.getOperand(2));
            unsigned n = cast<FixedVectorType>(I.getType())->getNumElements();
            std::vector<Val> e = a.k == KAgg ? a.agg() : std::vector<Val>(n);
            if (i.k != KInt) throw Undecided{"insertelement"};
            e[i.i] = v;
            return set(mkAgg(e));
        }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            Val a = ev(fr, I.getOperand(0)), b = ev(fr, I.getOperand(1));
            unsigned n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
            std::vector<Val> r;
            for (int m : sv.getShuffleMask()) {
                if (m < 0)
                    r.push_back(Val());
                else if (m < (int)n)
                    r.push_back(a.k == KAgg ? a.agg()[m] : Val());
                else
                    r.push_back(b.k == KAgg ? b.agg()[m - n] : Val());
            }
            return set(mkAgg(r));
        }
        case Instruction::Freeze:
            return set(ev(fr, I.getOperand(0)));
        case Instruction::Fence:
            return;
        case Instruction::AtomicRMW: {
            auto& rmw = cast<AtomicRMWInst>(I);
            Val p = ev(fr, rmw.getPointerOperand()), v = ev(fr, rmw.getValOperand());
            Val old = loadIte(p, I.getType());
            Val nv = old;
            if (rmw.getOperation() == AtomicRMWInst::Xchg)
                nv = v;
            else if (old.k != KUndef)
                nv = lift2(old, v, [&](const Val& x, const Val& y) {
                    return intBin(rmw.getOperation() == AtomicRMWInst::Sub
                                      ? Instruction::Sub
                                      : Instruction::Add,
                                  x, y, I.getType()->getIntegerBitWidth());
                });
            storeIte(p, I.getType(), nv);
            return set(old);
        }
        case Instruction::AtomicCmpXchg: {
            auto& cx = cast<AtomicCmpXchgInst>(I);
            Val p = ev(fr, cx.getPointerOperand());
            Val old = loadIte(p, cx.getNewValOperand()->getType());
            Val eq = icmp(CmpInst::ICMP_EQ, old, ev(fr, cx.getCompareOperand()));
            if (eq.k != KInt) throw Undecided{"cmpxchg"};
            if (eq.i) storeIte(p, cx.getNewValOperand()->getType(), ev(fr, cx.getNewValOperand()));
            return set(mkAgg({old, eq}));
        }
        case Instruction::Call:
        case Instruction::Invoke: {
            auto& cb = cast<CallBase>(I);
            if (isa<DbgInfoIntrinsic>(I)) return;
            std::vector<Val> args;
            for (auto& a : cb.args()) {
                if (a->getType()->isMetadataTy()) {
                    args.push_back(Val());
                    continue;
                }
                args.push_back(ev(fr, a));
            }
            // byval arguments are copies
            for (unsigned i = 0; i < cb.arg_size(); ++i)
                if (cb.isByValArgument(i) && args[i].k == KPtr) {
                    int64_t sz = DL->getTypeAllocSize(cb.getParamByValType(i));
                    int id = newObj(sz, false, "byval");
                    copyMem(id, 0, args[i].obj, args[i].i, sz);
                    args[i] = mkPtr(id, 0);
                }
            const Function* F = cb.getCalledFunction();
            if (!F) {
                Val c = ev(fr, cb.getCalledOperand());
                if (c.k == KIte) {
                    // undecided callee: same callee on both leaves?
                    throw Undecided{"undecided callee"};
                }
                if (c.k != KFunc) throw AbortPath{"call through invalid pointer"};
                F = (const Function*)(intptr_t)c.i;
            }
            Val r = callFunction(F, std::move(args), &cb);
            if (!I.getType()->isVoidTy()) set(r);
            return;
        }
        default:
            if (auto* ci = dyn_cast<CastInst>(&I)) {
                Val a = ev(fr, I.getOperand(0));
                Type *from = I.getOperand(0)->getType(), *to = I.getType();
                if (op == Instruction::BitCast && from->isVectorTy() != to->isVectorTy()) {
                    // via memory
                    int id = newObj(DL->getTypeStoreSize(from), false);
                    storeType(id, 0, from, a);
                    return set(loadType(id, 0, to));
                }
                (void)ci;
                return set(castOp(op, a, from, to));
            }
    }
    throw Undecided{std::string("unsupported instruction ") + I.getOpcodeName()};
}

static std::string locOf(const Function* F) {
    if (auto* sp = F->getSubprogram())
        return (sp->getFilename() + ":" + Twine(sp->getLine())).str();
    return "";
}
static std::vector<const Function*> callStack;
static void noteFailure();

static Val callFunction(const Function* F, std::vector<Val> args,
                        const CallBase* cb) {
    ++nCalls;
    if (F->isDeclaration() || builtins.count(F->getName().str())) {
        std::string n = F->getName().str();
        auto it = builtins.find(n);
        if (it == builtins.end() && F->isIntrinsic()) {
            // strip type suffixes
            std::string base = n;
            while (true) {
                auto p = base.rfind('.');
                if (p == std::string::npos || p < 5) break;
                base = base.substr(0, p);
                it = builtins.find(base);
                if (it != builtins.end()) break;
            }
        }
        if (it == builtins.end()) {
            // prefix models
            if (n.rfind("_ZSt", 0) == 0 && n.find("__throw") != std::string::npos)
                throw CppThrow("throws " + n, throwFnType(n), mkPtr(newObj(64, true, "exception"), 0));
            throw Undecided{"call to unmodelled " + demangle(n)};
        }
        return it->second(cb, args);
    }
    if (depth > 400) throw Undecided{"call depth"};
    ++depth;
    callStack.push_back(F);
    struct G {
        int u0 = std::uncaught_exceptions();
        ~G() {
            if (std::uncaught_exceptions() > u0) noteFailure();
            --depth;
            callStack.pop_back();
        }
    } g;
    analysed.insert(F);
    Frame fr;
    fr.F = F;
    fr.fi = &infoFor(F);
    fr.regs.resize(fr.fi->n);
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i)
        fr.regs[i] = args[i];
    Out o = run(fr, &F->getEntryBlock(), nullptr);
    for (int a : fr.allocas)
        if (a < (int)mem.size()) mem[a].reset();
    return o.v;
}

// ------------------------------------------------------------------ builtins
static std::ofstream outFile;
static std::string cstr(const Val& p) {
    if (p.k != KPtr || !p.obj) return "";
    std::string s;
    for (int64_t o = p.i;; ++o) {
        Val b = loadScalar(p.obj, o, Type::getInt8Ty(M->getContext()));
        if (b.k != KInt) throw Undecided{"string"};
        if (!b.i) break;
        s += (char)b.i;
    }
    return s;
}
static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') r += '\\';
        if (c == '\n') {
            r += "\\n";
            continue;
        }
        r += c;
    }
    return r + "\"";
}
static std::string jpoly(const alg::Poly& p) {
    std::ostringstream s;
    s.precision(21);
    s << "[";
    bool f = true;
    for (auto& t : p) {
        if (!f) s << ",";
        f = false;
        s << "[[";
        bool g = true;
        for (auto& ve : t.first) {
            if (!g) s << ",";
            g = false;
            s << ve.first << "," << ve.second;
        }
        s << "]," << t.second << "]";
    }
    s << "]";
    return s.str();
}
static std::string jfrac(const alg::Frac& f) {
    std::string r = "{\"n\":" + jpoly(f.num);
    if (!f.den.empty()) {
        r += ",\"d\":[";
        bool g = true;
        for (auto& d : f.den) {
            if (!g) r += ",";
            g = false;
            r += "[" + jpoly(alg::factors[d.first]) + "," + std::to_string(d.second) + "]";
        }
        r += "]";
    }
    return r + "}";
}
static std::string jval(const Val& v0) {
    Val v = simp(v0);
    std::ostringstream s;
    s.precision(17);
    switch (v.k) {
        case KUndef:
            return "{\"undef\":1}";
        case KInt:
            s << sx(v);
            return s.str();
        case KFC:
            if (!std::isfinite(v.d()))
                return "{\"nonfinite\":1}";
            s << v.d();
            return "{\"c\":" + s.str() + "}";
        case KFS:
            return jfrac(v.fs());
        case KIte: {
            int at = v.ite().atom;
            std::string x, y;
            {
                Assume a(at, true);
                x = jval(v.ite().a);
            }
            {
                Assume a(at, false);
                y = jval(v.ite().b);
            }
            return "{\"if\":" + std::to_string(at) + ",\"then\":" + x + ",\"else\":" + y + "}";
        }
        case KPtr:
            s << "{\"ptr\":[" << v.obj << "," << v.i << "]}";
            return s.str();
        case KFunc:
            return "{\"fn\":" + jstr(((const Function*)(intptr_t)v.i)->getName().str()) + "}";
        default:
            return "{\"other\":1}";
    }
}
static std::string jassume() {
    if (assume.empty()) return "";
    std::string r = ",\"under\":[";
    bool f = true;
    for (auto& a : assume) {
        if (!f) r += ",";
        f = false;
        r += "[" + std::to_string(a.first) + "," + (a.second ? "1" : "0") + "]";
    }
    return r + "]";
}
static std::string stackStr() {
    // innermost repository frame first
    std::string s;
    int n = 0;
    for (auto it = callStack.rbegin(); it != callStack.rend() && n < 6; ++it) {
        std::string l = locOf(*it);
        if (l.empty()) continue;
        if (l.find("/c++/") != std::string::npos) continue;
        if (!s.empty()) s += " < ";
        s += demangle((*it)->getName().str()).substr(0, 160) + " (" + l + ")";
        ++n;
    }
    return s;
}
static void noteFailure() {
    if (pendingStack.empty()) pendingStack = stackStr();
}

static void emitLine(const std::string& tag, std::vector<Val>& a, const std::string& v) {
    outFile << "{\"t\":" << jstr(tag) << ",\"x\":[";
    for (int i = 1; i <= 3; ++i) outFile << (i > 1 ? "," : "") << jval(a[i]);
    outFile << "],\"v\":" << v << jassume() << "}\n";
}

// simulated processes: each interprets on its own stack
struct Proc {
    ucontext_t ctx;
    void* stack = nullptr;
    size_t size = 0;
    std::string label;
    int rank = 0, rc = 1;
    bool blocked = false;
    const Function* f = nullptr;
    Val arg;
    decltype(assume) assume_;
    int depth_ = 0, handler_ = 0, split0 = 0;
    std::vector<const Function*> stack_;
    std::map<int, std::shared_ptr<Obj>> globals;
    ~Proc() {
        if (stack && stack != MAP_FAILED) munmap(stack, size);
    }
};
static std::map<int, std::unique_ptr<Proc>> procs;
static Proc* running = nullptr;
static ucontext_t schedulerCtx;
static void processMain() {
    Proc* p = running;
    auto fail = [&](const std::string& kind, const std::string& why) {
        p->rc = 0;
        outFile << "{\"t\":" << jstr(p->label) << ",\"x\":[" << p->rank << ",0,0],\"fail\":" << jstr(kind) << ",\"why\":" << jstr(why) << ",\"at\":" << jstr(pendingStack) << jassume() << "}\n";
    };
    try {
        callFunction(p->f, {p->arg}, nullptr);
    } catch (Undecided& u) {
        fail("undecided", u.why);
    } catch (AbortPath& u) {
        fail("abort", u.why);
    } catch (alg::TooBig&) {
        fail("undecided", "normal form too large");
    }
}
static void setupBuiltins() {
    auto& B = builtins;
    typedef std::vector<Val>& A;
    auto nop = [](const CallBase*, A) -> Val { return Val(); };
    for (auto n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume",
                   "llvm.experimental.noalias.scope.decl", "llvm.prefetch",
                   "llvm.stackrestore", "llvm.invariant.start", "llvm.donothing",
                   "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
                   "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
                   "__cxa_guard_abort", "__cxa_end_catch",
                   "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"})
        B[n] = nop;
    B["__cxa_atexit"] = [](const CallBase*, A) -> Val { return mkInt(0, 32); };
    B["llvm.stacksave"] = [](const CallBase*, A) -> Val { return mkPtr(0, 0); };
    auto alloc = [](const CallBase*, A a) -> Val {
        if (a[0].k != KInt) throw Undecided{"allocation of undecided size"};
        if ((uint64_t)a[0].i > (1ULL << 32)) throw AbortPath{"huge allocation"};
        return mkPtr(newObj(a[0].i, false, "heap"), 0);
    };
    B["malloc"] = B["_Znwm"] = B["_Znam"] = B["_ZnwmSt11align_val_t"] = alloc;
    B["_ZnwmRKSt9nothrow_t"] = B["_ZnamRKSt9nothrow_t"] = alloc;
    B["calloc"] = [](const CallBase*, A a) -> Val {
        if (a[0].k != KInt || a[1].k != KInt) throw Undecided{"calloc"};
        return mkPtr(newObj(a[0].i * a[1].i, true, "heap"), 0);
    };
    B["__cxa_guard_acquire"] = [](const CallBase*, A a) -> Val {
        Val v = loadScalar(a[0].obj, a[0].i, Type::getInt8Ty(M->getContext()));
        return mkInt(v.k == KInt && v.i ? 0 : 1, 32);
    };
    B["__cxa_guard_release"] = [](const CallBase*, A a) -> Val {
        storeScalar(a[0].obj, a[0].i, 1, mkInt(1, 8));
        return Val();
    };
    auto mcpy = [](const CallBase*, A a) -> Val {
        if (a[2].k != KInt) throw Undecided{"copy of undecided size"};
        if (a[2].i == 0) return a[0];
        if (a[0].k != KPtr || a[1].k != KPtr) throw Undecided{"copy through undecided pointer"};
        copyMem(a[0].obj, a[0].i, a[1].obj, a[1].i, a[2].i);
        return a[0];
    };
    B["llvm.memcpy"] = B["llvm.memmove"] = B["memcpy"] = B["memmove"] = B["llvm.memcpy.inline"] = mcpy;
    auto mset = [](const CallBase*, A a) -> Val {
        if (a[2].k != KInt || a[1].k != KInt || a[0].k != KPtr) throw Undecided{"memset"};
        if (a[2].i == 0) return a[0];
        checkAccess(a[0].obj, a[0].i, a[2].i, "memset");
        Obj& o = wr(a[0].obj);
        clearRange(o, a[0].i, a[2].i);
        if ((a[1].i & 255) == 0)
            o.cells[a[0].i] = Cell{a[2].i, mkInt(0, 64)};
        else
            for (int64_t k = 0; k < a[2].i; ++k)
                o.cells[a[0].i + k] = Cell{1, mkInt(a[1].i & 255, 8)};
        return a[0];
    };
    B["llvm.memset"] = B["memset"] = mset;
    B["__cxa_allocate_exception"] = [](const CallBase*, A a) -> Val {
        return mkPtr(newObj(a[0].k == KInt ? a[0].i : 64, true, "exception"), 0);
    };
    B["__cxa_free_exception"] = [](const CallBase*, A) -> Val { return Val(); };
    B["__cxa_throw"] = [](const CallBase* cb, A a) -> Val {
        auto* g = cb->getArgOperand(1)->stripPointerCasts();
        throw CppThrow("throws " + demangle(g->getName().str()), g->getName().str(), a[0]);
    };
    B["__cxa_begin_catch"] = [](const CallBase*, A a) -> Val { return a[0]; };
    B["__cxa_end_catch"] = [](const CallBase*, A) -> Val {
        if (!curThrow.empty()) curThrow.pop_back();
        return Val();
    };
    B["__cxa_rethrow"] = [](const CallBase*, A) -> Val {
        if (curThrow.empty()) throw AbortPath{"rethrow"};
        throw curThrow.back();
    };
    B["llvm.eh.typeid.for"] = [](const CallBase* cb, A) -> Val {
        auto* c = cb->getArgOperand(0)->stripPointerCasts();
        return mkInt(selectorOf(isa<ConstantPointerNull>(c) ? "" : c->getName().str()), 32);
    };
    auto abortF = [](const CallBase* cb, A) -> Val {
        throw AbortPath{cb && cb->getCalledFunction() ? cb->getCalledFunction()->getName().str() : "abort"};
    };
    for (auto n : {"abort", "exit", "_ZSt9terminatev",
                   "__cxa_pure_virtual", "__assert_fail", "llvm.trap", "vt_abort",
                   "_ZSt17__throw_bad_allocv", "__clang_call_terminate", "_Exit"})
        B[n] = abortF;
    B["__cxa_allocate_exception"] = [](const CallBase*, A a) -> Val {
        return mkPtr(newObj(a[0].k == KInt ? std::max<int64_t>(a[0].i, 64) : 256, true), 0);
    };
    for (std::string f : {"sqrt", "fabs", "sin", "cos", "tan", "exp", "log", "floor",
                          "ceil", "round", "trunc", "tgamma", "acos", "asin", "atan",
                          "log10", "log2", "sinh", "cosh", "tanh"}) {
        auto h = [f](const CallBase*, A a) -> Val { return vec1(a[0], [&](const Val& x) { return fnUnary(f, x); }); };
        B[f] = h;
        B["llvm." + f] = h;
    }
    auto pw = [](const CallBase*, A a) -> Val { return fnPow(a[0], a[1]); };
    B["pow"] = B["llvm.pow"] = pw;
    B["llvm.powi"] = [](const CallBase*, A a) -> Val {
        return fnPow(a[0], lift1(a[1], [](const Val& x) -> Val {
                         if (x.k != KInt) throw Undecided{"powi"};
                         return mkFC((double)sx(x));
                     }));
    };
    B["ldexp"] = B["llvm.ldexp"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (y.k != KInt) throw Undecided{"ldexp"};
            return fMul(x, mkFC(std::ldexp(1.0, (int)sx(y))));
        });
    };
    auto fma_ = [](const CallBase*, A a) -> Val {
        if (a[0].k == KAgg) {
            std::vector<Val> r;
            for (size_t i = 0; i < a[0].agg().size(); ++i)
                r.push_back(lift2(lift2(a[0].agg()[i], a[1].agg()[i], fMul), a[2].agg()[i],
                                  [](const Val& x, const Val& y) { return fAdd(x, y, 1); }));
            return mkAgg(r);
        }
        return lift2(lift2(a[0], a[1], fMul), a[2],
                     [](const Val& x, const Val& y) { return fAdd(x, y, 1); });
    };
    B["llvm.fmuladd"] = B["llvm.fma"] = B["fma"] = fma_;
    auto mm = [](bool mx) {
        return [mx](const CallBase*, A a) -> Val {
            return lift2(a[0], a[1], [&](const Val& x, const Val& y) -> Val {
                if (x.k == KFC && y.k == KFC)
                    return mkFC(mx ? std::fmax(x.d(), y.d()) : std::fmin(x.d(), y.d()));
                Val c = condGT(alg::add(toF(x), toF(y), -1), true);
                if (c.k == KInt) return (c.i != 0) == mx ? x : y;
                return mkIte(c.ite().atom, mx ? x : y, mx ? y : x);
            });
        };
    };
    B["fmax"] = B["llvm.maxnum"] = B["llvm.maximum"] = mm(true);
    B["fmin"] = B["llvm.minnum"] = B["llvm.minimum"] = mm(false);
    B["llvm.copysign"] = B["copysign"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (x.k == KFC && y.k == KFC) return mkFC(std::copysign(x.d(), y.d()));
            Val m = fnUnary("fabs", x);
            if (y.k == KFC) return std::signbit(y.d()) ? lift1(m, fNeg) : m;
            throw Undecided{"copysign"};
        });
    };
    B["atan2"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (x.k == KFC && y.k == KFC) return mkFC(std::atan2(x.d(), y.d()));
            return opaque("atan2", {toF(x), toF(y)});
        });
    };
    B["hypot"] = [](const CallBase*, A a) -> Val {
        Val s = lift2(a[0], a[1], [](const Val& x, const Val& y) { return fAdd(fMul(x, x), fMul(y, y), 1); });
        return fnUnary("sqrt", s);
    };
    B["cabs"] = B["hypot"];
    B["__muldc3"] = [](const CallBase*, A a) -> Val {
        auto mul = [](const Val& x, const Val& y) { return lift2(x, y, fMul); };
        auto pm = [](const Val& x, const Val& y, int s) { return lift2(x, y, [s](const Val& p, const Val& q) { return fAdd(p, q, s); }); };
        return mkAgg({pm(mul(a[0], a[2]), mul(a[1], a[3]), -1), pm(mul(a[0], a[3]), mul(a[1], a[2]), 1)});
    };
    B["__divdc3"] = [](const CallBase*, A a) -> Val {
        auto mul = [](const Val& x, const Val& y) { return lift2(x, y, fMul); };
        auto pm = [](const Val& x, const Val& y, int s) { return lift2(x, y, [s](const Val& p, const Val& q) { return fAdd(p, q, s); }); };
        Val n = pm(mul(a[2], a[2]), mul(a[3], a[3]), 1);
        Val re = pm(mul(a[0], a[2]), mul(a[1], a[3]), 1), im = pm(mul(a[1], a[2]), mul(a[0], a[3]), -1);
        return mkAgg({lift2(re, n, fDiv), lift2(im, n, fDiv)});
    };
    B["fmod"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (x.k == KFC && y.k == KFC) return mkFC(std::fmod(x.d(), y.d()));
            throw Undecided{"fmod"};
        });
    };
    B["llvm.is.fpclass"] = [](const CallBase*, A a) -> Val {
        if (a[0].k == KFC && std::isfinite(a[0].d())) {
            // only nan/inf tests are produced for this code base
            uint64_t m = a[1].i;
            double x = a[0].d();
            bool r = (x == 0 && (m & 0x60)) || (x > 0 && (m & 0x180)) || (x < 0 && (m & 0x18));
            return mkInt(r, 1);
        }
        if (a[0].k == KFS && (a[1].i & ~0x207LL) == 0) return mkInt(0, 1);
        throw Undecided{"fpclass"};
    };
    auto ov = [](unsigned op, bool sg) {
        return [op, sg](const CallBase* cb, A a) -> Val {
            return lift2(a[0], a[1], [&](const Val& x, const Val& y) -> Val {
                if (x.k != KInt || y.k != KInt) throw Undecided{"overflow arithmetic"};
                unsigned w = x.w;
                __int128 r, xa = sg ? (__int128)sx(x) : (__int128)(uint64_t)x.i,
                            ya = sg ? (__int128)sx(y) : (__int128)(uint64_t)y.i;
                r = op == Instruction::Add ? xa + ya : op == Instruction::Sub ? xa - ya : xa * ya;
                Val v = mkInt((uint64_t)r, w);
                __int128 back = sg ? (__int128)sx(v) : (__int128)(uint64_t)v.i;
                return mkAgg({v, mkInt(back != r, 1)});
            });
        };
    };
    B["llvm.uadd.with.overflow"] = ov(Instruction::Add, false);
    B["llvm.usub.with.overflow"] = ov(Instruction::Sub, false);
    B["llvm.umul.with.overflow"] = ov(Instruction::Mul, false);
    B["llvm.sadd.with.overflow"] = ov(Instruction::Add, true);
    B["llvm.ssub.with.overflow"] = ov(Instruction::Sub, true);
    B["llvm.smul.with.overflow"] = ov(Instruction::Mul, true);
    auto pick = [](CmpInst::Predicate p) {
        return [p](const CallBase*, A a) -> Val {
            return vec2(a[0], a[1], [&](const Val& x, const Val& y) -> Val {
                Val c = icmp(p, x, y);
                if (c.k == KUndef) return c;
                return c.i ? x : y;
            });
        };
    };
    B["llvm.umax"] = pick(CmpInst::ICMP_UGT);
    B["llvm.umin"] = pick(CmpInst::ICMP_ULT);
    B["llvm.smax"] = pick(CmpInst::ICMP_SGT);
    B["llvm.smin"] = pick(CmpInst::ICMP_SLT);
    B["llvm.usub.sat"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (x.k != KInt || y.k != KInt) throw Undecided{"usub.sat"};
            return mkInt((uint64_t)x.i > (uint64_t)y.i ? x.i - y.i : 0, x.w);
        });
    };
    B["llvm.uadd.sat"] = [](const CallBase*, A a) -> Val {
        return lift2(a[0], a[1], [](const Val& x, const Val& y) -> Val {
            if (x.k != KInt || y.k != KInt || x.w > 63) {
                if (x.k == KInt && y.k == KInt) {
                    uint64_t r = (uint64_t)x.i + (uint64_t)y.i;
                    return mkInt(r < (uint64_t)x.i ? ~0ULL : r, 64);
                }
                throw Undecided{"uadd.sat"};
            }
            uint64_t r = (uint64_t)x.i + y.i, m = (1ULL << x.w) - 1;
            return mkInt(r > m ? m : r, x.w);
        });
    };
    B["llvm.abs"] = [](const CallBase*, A a) -> Val {
        return lift1(a[0], [](const Val& x) -> Val {
            if (x.k != KInt) throw Undecided{"abs"};
            return mkInt(std::llabs(sx(x)), x.w);
        });
    };
    B["lround"] = B["llvm.lround"] = B["llrint"] = B["llvm.llround"] = [](const CallBase*, A a) -> Val {
        return lift1(a[0], [](const Val& x) -> Val {
            if (x.k != KFC) throw Undecided{"lround"};
            return mkInt((uint64_t)std::llround(x.d()), 64);
        });
    };
    B["llvm.expect"] = [](const CallBase*, A a) -> Val { return a[0]; };
    B["llvm.is.constant"] = [](const CallBase*, A) -> Val { return mkInt(0, 1); };
    B["llvm.objectsize"] = [](const CallBase*, A) -> Val { return mkInt(~0ULL, 64); };
    B["llvm.ctlz"] = [](const CallBase*, A a) -> Val {
        return lift1(a[0], [](const Val& x) -> Val {
            if (x.k != KInt) throw Undecided{"ctlz"};
            return mkInt(x.i ? __builtin_clzll(x.i) - (64 - x.w) : x.w, x.w);
        });
    };
    B["llvm.cttz"] = [](const CallBase*, A a) -> Val {
        return lift1(a[0], [](const Val& x) -> Val {
            if (x.k != KInt) throw Undecided{"cttz"};
            return mkInt(x.i ? __builtin_ctzll(x.i) : x.w, x.w);
        });
    };
    B["llvm.ctpop"] = [](const CallBase*, A a) -> Val {
        return lift1(a[0], [](const Val& x) -> Val {
            if (x.k != KInt) throw Undecided{"ctpop"};
            return mkInt(__builtin_popcountll(x.i), x.w);
        });
    };
    auto fsh = [](bool left) {
        return [left](const CallBase*, A a) -> Val {
            if (a[0].k != KInt || a[1].k != KInt || a[2].k != KInt) throw Undecided{"fsh"};
            unsigned w = a[0].w, s = (uint64_t)a[2].i % w;
            uint64_t x = a[0].i, y = a[1].i;
            if (left) return mkInt(s ? (x << s) | (y >> (w - s)) : x, w);
            return mkInt(s ? (x << (w - s)) | (y >> s) : y, w);
        };
    };
    B["llvm.fshl"] = fsh(true);
    B["llvm.fshr"] = fsh(false);
    B["llvm.vector.reduce.fadd"] = [](const CallBase*, A a) -> Val {
        Val r = a[0];
        for (auto& x : a[1].agg()) r = lift2(r, x, [](const Val& p, const Val& q) { return fAdd(p, q, 1); });
        return r;
    };
    B["strlen"] = [](const CallBase*, A a) -> Val { return mkInt(cstr(a[0]).size(), 64); };
    auto memc = [](const CallBase*, A a) -> Val {
        if (a[2].k != KInt) throw Undecided{"memcmp"};
        for (int64_t i = 0; i < a[2].i; ++i) {
            Val x = loadScalar(a[0].obj, a[0].i + i, Type::getInt8Ty(M->getContext()));
            Val y = loadScalar(a[1].obj, a[1].i + i, Type::getInt8Ty(M->getContext()));
            if (x.k != KInt || y.k != KInt) throw Undecided{"memcmp"};
            if (x.i != y.i) return mkInt(x.i < y.i ? -1 : 1, 32);
        }
        return mkInt(0, 32);
    };
    B["memcmp"] = B["bcmp"] = memc;
    B["strcmp"] = [](const CallBase*, A a) -> Val {
        return mkInt(cstr(a[0]).compare(cstr(a[1])), 32);
    };
    B["__dynamic_cast"] = [](const CallBase*, A a) -> Val {
        // (src, src_type, dst_type, hint): walk the class type information
        if (a[0].k == KPtr && a[0].obj == 0) return mkPtr(0, 0);
        Type* pt = PointerType::getUnqual(M->getContext());
        Val vp = loadScalar(a[0].obj, a[0].i, pt);
        if (vp.k != KPtr || !objGlobal.count(vp.obj)) throw Undecided{"dynamic_cast"};
        Val ott = loadScalar(vp.obj, vp.i - 16, Type::getInt64Ty(M->getContext()));
        Val ti = loadScalar(vp.obj, vp.i - 8, pt);
        if (ott.k != KInt || ti.k != KPtr) throw Undecided{"dynamic_cast"};
        int64_t base = a[0].i + ott.i;
        std::function<int64_t(const Val&, int64_t)> find = [&](const Val& t, int64_t off) -> int64_t {
            if (t.obj == a[2].obj) return off;
            auto* g = objGlobal[t.obj];
            if (!g || !g->hasInitializer()) return -1;
            auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
            if (!cs) return -1;
            if (cs->getNumOperands() == 3) return find(evalConst(cs->getOperand(2)), off);
            if (cs->getNumOperands() > 4)
                for (unsigned k = 4; k + 1 < cs->getNumOperands(); k += 2) {
                    int64_t fl = cast<ConstantInt>(cs->getOperand(k + 1))->getSExtValue();
                    if (fl & 1) throw Undecided{"dynamic_cast virtual base"};
                    int64_t r = find(evalConst(cs->getOperand(k)), off + (fl >> 8));
                    if (r >= 0) return r;
                }
            return -1;
        };
        int64_t o = find(ti, base);
        if (o < 0) return mkPtr(0, 0);
        return mkPtr(a[0].obj, o);
    };

    // ------------------------------------------------ analysis intrinsics
    B["vt_sym"] = [](const CallBase*, A a) -> Val {
        if (a[0].k != KInt) throw Undecided{"vt_sym"};
        alg::Frac f;
        f.num = alg::var((int)sx(a[0]));
        return mkFS(f);
    };
    B["vt_emit_d"] = [](const CallBase*, A a) -> Val {
        emitLine(cstr(a[0]), a, jval(a[4]));
        return Val();
    };
    B["vt_emit_i"] = B["vt_emit_d"];
    // vt_dump(tag, i, pointer, length): the values stored in a piece of memory; x = (i, offset, size)
    B["vt_dump"] = [](const CallBase*, A a) -> Val {
        if (a[2].k != KPtr || a[3].k != KInt) throw Undecided{"vt_dump of an unknown range"};
        const int id = a[2].obj;
        const int64_t off = a[2].i, n = a[3].i;
        if (n == 0) return Val();
        checkAccess(id, off, n, "read");
        Obj o = *mem[id];
        splitAt(o, off);
        splitAt(o, off + n);
        int64_t next = off;
        auto gap = [&](int64_t to) {
            if (to <= next) return;
            std::vector<Val> x{a[0], a[1], mkInt(next - off, 64), mkInt(to - next, 64)};
            emitLine(cstr(a[0]), x, o.zero ? "0" : "{\"undef\":1}");
            next = to;
        };
        for (auto it = o.cells.lower_bound(off); it != o.cells.end() && it->first < off + n; ++it) {
            gap(it->first);
            std::vector<Val> x{a[0], a[1], mkInt(it->first - off, 64), mkInt(it->second.size, 64)};
            emitLine(cstr(a[0]), x, jval(it->second.v));
            next = it->first + it->second.size;
        }
        gap(off + n);
        return Val();
    };
    B["vt_emit_s"] = [](const CallBase*, A a) -> Val {
        emitLine(cstr(a[0]), a, jstr(cstr(a[4])));
        return Val();
    };
    B["vt_emit_class"] = [](const CallBase*, A a) -> Val {
        // dynamic class of the object and where its virtual members are
        Type* pt = PointerType::getUnqual(M->getContext());
        Val vp = loadScalar(a[4].obj, a[4].i, pt);
        std::string cls = "?", where;
        if (vp.k == KPtr && objGlobal.count(vp.obj)) {
            auto* g = objGlobal[vp.obj];
            cls = demangle(g->getName().str());
            if (cls.rfind("vtable for ", 0) == 0) cls = cls.substr(11);
            std::set<std::string> files;
            for (auto& c : mem[vp.obj]->cells)
                if (c.second.v.k == KFunc) {
                    auto* f = (const Function*)(intptr_t)c.second.v.i;
                    std::string dn = demangle(f->getName().str());
                    if (dn.rfind(cls + "::", 0) == 0) {
                        std::string l = locOf(f);
                        if (!l.empty()) files.insert(l.substr(0, l.rfind(':')));
                    }
                }
            for (auto& f : files) where += (where.empty() ? "" : ",") + f;
        }
        emitLine(cstr(a[0]), a, "{\"class\":" + jstr(cls) + ",\"file\":" + jstr(where) + "}");
        return Val();
    };
    B["vt_try"] = [](const CallBase*, A a) -> Val {
        // int vt_try(const char* label, void (*f)(void*), void* ctx)
        std::string label = cstr(a[0]);
        auto mem0 = mem;
        auto as0 = assume;
        int d0 = depth, s0 = splitDepth;
        size_t cs0 = callStack.size();
        auto restore = [&](const std::string& kind, const std::string& why) {
            size_t top = mem.size();
            auto cur = mem;
            mem = mem0;
            mem.resize(top);
            for (size_t i = mem0.size(); i < top; ++i)
                if (objGlobal.count(i)) mem[i] = cur[i];
            assume = as0;
            depth = d0;
            splitDepth = s0;
            callStack.resize(cs0);
            outFile << "{\"t\":" << jstr(label) << ",\"x\":[0,0,0],\"fail\":" << jstr(kind)
                    << ",\"why\":" << jstr(why) << ",\"at\":" << jstr(pendingStack) << jassume() << "}\n";
        };
        if (a[1].k != KFunc) throw Undecided{"vt_try"};
        pendingStack.clear();
        try {
            callFunction((const Function*)(intptr_t)a[1].i, {a[2]}, nullptr);
            return mkInt(1, 32);
        } catch (Undecided& u) {
            restore("undecided", u.why);
        } catch (AbortPath& u) {
            restore("abort", u.why);
        } catch (alg::TooBig&) {
            restore("undecided", "normal form too large");
        }
        return mkInt(0, 32);
    };
    // void vt_block(): hands control back to the scheduler (see vt_process); returns when the process is resumed
    B["vt_block"] = [](const CallBase*, A) -> Val {
        if (!running) throw Undecided{"vt_block outside of a process"};
        if (splitDepth != running->split0) throw Undecided{"communication under an undecided condition"};
        running->blocked = true;
        swapcontext(&running->ctx, &schedulerCtx);
        return Val();
    };
    B["vt_misuse"] = [](const CallBase*, A a) -> Val {
        noteFailure();
        throw AbortPath{cstr(a[0])};
    };
    // void vt_processes(): forgets all processes
    B["vt_processes"] = [](const CallBase*, A) -> Val {
        procs.clear();
        return Val();
    };
    // int vt_process(label, rank, f, ctx): starts or resumes process 'rank', which runs f with its own copy of all global
    // variables (except the model's own); 1: finished, 0: failed, 2: it called vt_block
    B["vt_process"] = [](const CallBase*, A a) -> Val {
        static std::map<int, std::shared_ptr<Obj>> base;
        if (running) throw Undecided{"nested processes"};
        if (base.empty())
            for (auto& kv : objGlobal) {
                auto n = kv.second->getName();
                if (kv.second->isConstant() || n.contains("5vtmpi") || n.contains("3vts")) continue;
                base[kv.first] = mem[kv.first];
            }
        int rank = (int)(int64_t)a[1].i;
        auto& slot = procs[rank];
        bool fresh = !slot;
        if (fresh) {
            slot = std::make_unique<Proc>();
            slot->label = cstr(a[0]);
            slot->rank = rank;
            slot->f = (const Function*)(intptr_t)a[2].i;
            slot->arg = a[3];
            slot->assume_ = assume;
            slot->depth_ = depth;
            slot->handler_ = handlerDepth;
            slot->split0 = splitDepth;
            for (auto& kv : base) slot->globals[kv.first] = kv.second;
        }
        Proc* p = slot.get();
        auto as0 = assume;
        int d0 = depth, s0 = splitDepth, h0 = handlerDepth;
        auto cs0 = callStack;
        std::map<int, std::shared_ptr<Obj>> outer;
        for (auto& kv : base) {
            outer[kv.first] = mem[kv.first];
            mem[kv.first] = p->globals[kv.first];
        }
        assume = p->assume_;
        depth = p->depth_;
        handlerDepth = p->handler_;
        splitDepth = p->split0;
        if (!fresh) callStack = p->stack_;
        pendingStack.clear();
        p->blocked = false;
        running = p;
        if (fresh) {
            const size_t SZ = 512ul << 20;
            p->stack = mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p->stack == MAP_FAILED) throw Undecided{"no memory for a process"};
            p->size = SZ;
            getcontext(&p->ctx);
            p->ctx.uc_stack.ss_sp = p->stack;
            p->ctx.uc_stack.ss_size = SZ;
            p->ctx.uc_link = &schedulerCtx;
            makecontext(&p->ctx, (void (*)())processMain, 0);
        }
        swapcontext(&schedulerCtx, &p->ctx);
        running = nullptr;
        p->assume_ = assume;
        p->depth_ = depth;
        p->handler_ = handlerDepth;
        p->stack_ = callStack;
        for (auto& kv : base) {
            p->globals[kv.first] = mem[kv.first];
            mem[kv.first] = outer[kv.first];
        }
        assume = as0;
        depth = d0;
        splitDepth = s0;
        handlerDepth = h0;
        callStack = cs0;
        int rc = p->blocked ? 2 : p->rc;
        if (!p->blocked) procs.erase(rank);
        return mkInt(rc, 32);
    };
    // decides whether a condition is a known constant (1/0) or open (-1)
    B["vt_decided"] = [](const CallBase*, A a) -> Val {
        Val v = simp(a[0]);
        if (v.k == KInt) return mkInt(v.i & 1, 32);
        return mkInt(-1, 32);
    };
    B["vt_log"] = [](const CallBase*, A a) -> Val {
        std::cerr << "[log] " << cstr(a[0]) << " " << jval(a[1]) << "\n";
        return Val();
    };
}

// capture the call stack at the point of failure
struct StackCapture {};

int main(int argc, char** argv) {
    if (argc < 4) {
        std::cerr << "usage: absint OUT ENTRY file.bc...\n";
        return 2;
    }
    LLVMContext ctx;
    ctx.setDiscardValueNames(true);
    SMDiagnostic err;
    std::unique_ptr<Module> mod;
    std::vector<std::string> entries;
    {
        std::stringstream ss(argv[2]);
        std::string e;
        while (std::getline(ss, e, ',')) entries.push_back(e);
    }
    for (int i = 3; i < argc; ++i) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) {
            err.print(argv[0], errs());
            return 2;
        }
        if (!mod) {
            mod = std::move(m);
            continue;
        }
        if (Linker::linkModules(*mod, std::move(m))) {
            std::cerr << "link failed: " << argv[i] << "\n";
            return 2;
        }
    }
    M = mod.get();
    DL = &M->getDataLayout();
    setupBuiltins();
    outFile.open(argv[1]);
    if (const char* e = getenv("ABSINT_MAXSTEPS")) maxSteps = strtoull(e, 0, 10);
    // all globals exist before the analysis starts (so that joins and
    // roll-backs see their initial contents)
    for (auto& g : M->globals())
        if (!g.getName().starts_with("llvm.")) globalFor(&g);
    // static initialisation
    unsigned ctorFail = 0, ctorOk = 0;
    std::vector<std::pair<int, const Function*>> ctors;
    if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (auto& op : ca->operands()) {
                auto* cs = cast<ConstantStruct>(op);
                if (auto* f = dyn_cast<Function>(cs->getOperand(1)))
                    ctors.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f);
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : ctors) {
        auto mem0 = mem;
        try {
            callFunction(c.second, {}, nullptr);
            ++ctorOk;
        } catch (Undecided& u) {
            ++ctorFail;
            if (getenv("ABSINT_VERBOSE")) std::cerr << "ctor " << c.second->getName().str() << ": " << u.why << "\n";
        } catch (AbortPath& u) {
            ++ctorFail;
            if (getenv("ABSINT_VERBOSE")) std::cerr << "ctor " << c.second->getName().str() << ": " << u.why << "\n";
        }
        depth = 0;
        callStack.clear();
    }
    int rc = 0;
    for (auto& en : entries) {
        Function* F = M->getFunction(en);
        if (!F || F->isDeclaration()) {
            std::cerr << "no entry " << en << "\n";
            return 2;
        }
        try {
            callFunction(F, {}, nullptr);
        } catch (Undecided& u) {
            std::cerr << "undecided: " << u.why << " at " << pendingStack << "\n";
            outFile << "{\"t\":\"_entry\",\"x\":[0,0,0],\"fail\":\"undecided\",\"why\":" << jstr(u.why) << "}\n";
            rc = 3;
        } catch (AbortPath& u) {
            std::cerr << "abort: " << u.why << " at " << pendingStack << "\n";
            outFile << "{\"t\":\"_entry\",\"x\":[0,0,0],\"fail\":\"abort\",\"why\":" << jstr(u.why) << "}\n";
            rc = 3;
        } catch (alg::TooBig&) {
            outFile << "{\"t\":\"_entry\",\"x\":[0,0,0],\"fail\":\"undecided\",\"why\":\"too big\"}\n";
            rc = 3;
        }
        depth = 0;
        splitDepth = 0;
        assume.clear();
        callStack.clear();
    }
    for (size_t i = 0; i < atoms.size(); ++i)
        outFile << "{\"t\":\"_atom\",\"x\":[" << i << "," << atoms[i].rel << ",0],\"v\":" << jfrac(atoms[i].f) << "}\n";
    for (auto& o : opaques) {
        outFile << "{\"t\":\"_opaque\",\"x\":[" << o.var << ",0,0],\"fn\":" << jstr(o.fn) << ",\"v\":[";
        for (size_t i = 0; i < o.args.size(); ++i) outFile << (i ? "," : "") << jfrac(o.args[i]);
        outFile << "]}\n";
    }
    if (coverage) writeCoverage(*M);
    // what was analysed: repository functions
    std::map<std::string, int> files;
    unsigned repo = 0;
    for (auto* f : analysed) {
        std::string l = locOf(f);
        auto* sp = f->getSubprogram();
        if (!sp) continue;
        std::string fn = sp->getFilename().str();
        if (fn.find("/repo/") != std::string::npos || fn.find("kernel/") != std::string::npos ||
            fn.find("applications/") != std::string::npos) {
            ++repo;
            files[fn.substr(0, fn.size())]++;
        }
    }
    outFile << "{\"t\":\"_stats\",\"x\":[0,0,0],\"steps\":" << steps << ",\"functions\":" << analysed.size()
            << ",\"repo_functions\":" << repo << ",\"joins\":" << nSplits << ",\"calls\":" << nCalls
            << ",\"ctors_ok\":" << ctorOk << ",\"ctors_failed\":" << ctorFail << ",\"files\":{";
    bool first = true;
    for (auto& f : files) {
        outFile << (first ? "" : ",") << jstr(f.first) << ":" << f.second;
        first = false;
    }
    outFile << "}}\n";
    return rc;
}

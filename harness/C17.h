#pragma once
#include "mc.h"
#include "conv.h"
#include <cmath>
using namespace my_cnn;
using mc::Ctx;

// What an expression shows to the outside, independent of its type
struct Obs { int x, y, z; size_t size; std::vector<double> call, call3, iter; std::vector<int> idx; bool overrun = false; };
template <typename E> Obs obs(E&& e) {
    Obs o; o.x = e.dim().x; o.y = e.dim().y; o.z = e.dim().z; o.size = e.size();
    for (int k = 0; k < o.z; k++) for (int j = 0; j < o.y; j++) for (int i = 0; i < o.x; i++) { o.call.push_back((double)e(dim3(i, j, k))); o.call3.push_back((double)e(i, j, k)); }
    size_t n = (size_t)std::max(o.x, 0) * std::max(o.y, 0) * std::max(o.z, 0);
    for (auto it = e.begin(); it != e.end(); ++it) { if (o.iter.size() >= n) { o.overrun = true; break; } o.iter.push_back((double)*it); o.idx.push_back(it.idx().x); o.idx.push_back(it.idx().y); o.idx.push_back(it.idx().z); }
    return o;
}
void check(Ctx& c, const Obs& o, int x, int y, int z, const std::vector<double>& e, const std::string& what);
template <typename T> void checkM(Ctx& c, const SimpleMatrix<T>& m, int x, int y, int z, const std::vector<double>& e, const std::string& what) {
    check(c, obs(m), x, y, z, e, what);
}

// Operand kinds
enum Kind { LV, CLV, RV, VIEW, CVIEW, TVIEW, EXPR, NEXPR, NKINDS };
extern const char* kindName[NKINDS];
template <typename T> struct Operand {
    SimpleMatrix<T> m;         // the values
    SimpleMatrix<T> host;      // a larger matrix with the values at (1,0,1)
    int x, y, z;
    std::vector<std::shared_ptr<void>> keep;       // named views and expressions that outlive the expressions built on them
    template <typename V> V& hold(V v) { auto p = std::make_shared<V>(std::move(v)); keep.push_back(p); return *p; }
    Operand(int x, int y, int z, const std::vector<T>& v) : m(dim3(x, y, z)), host(dim3(x + 2, y + 1, z + 2), T(77)), x(x), y(y), z(z) {
        for (size_t i = 0; i < v.size(); i++) m[i] = v[i];
        for (int k = 0; k < z; k++) for (int j = 0; j < y; j++) for (int i = 0; i < x; i++) host(i + 1, j, k + 1) = m(i, j, k);
    }
};
// f builds an expression; temporaries handed to it are gone when with() returns, named operands live on in o
template <int K, typename T, typename F> auto with(Operand<T>& o, F f) {
    if constexpr (K == LV) return f(o.m);
    else if constexpr (K == CLV) return f(static_cast<const SimpleMatrix<T>&>(o.m));
    else if constexpr (K == RV) return f(SimpleMatrix<T>(static_cast<const SimpleMatrix<T>&>(o.m)));
    else if constexpr (K == VIEW) return f(o.hold(o.host.subMatView(dim3(1, 0, 1), dim3(o.x, o.y, o.z))));
    else if constexpr (K == CVIEW) { const SimpleMatrix<T>& h = o.host; const auto& v = o.hold(h.subMatView(dim3(1, 0, 1), dim3(o.x, o.y, o.z))); return f(v); }
    else if constexpr (K == TVIEW) return f(o.host.subMatView(dim3(1, 0, 1), dim3(o.x, o.y, o.z)));
    else if constexpr (K == EXPR) return f(o.m + T(0));
    else return f(o.hold(T(1) * o.m));
}
// the element type an operand kind presents
template <int K, typename T> struct ElemT { using type = T; };

static const int NOPS = 10;
extern const char* opName[NOPS];
template <int OP, typename A, typename B> auto op2(A&& a, B&& b) {
    if constexpr (OP == 0) return std::forward<A>(a) + std::forward<B>(b); else if constexpr (OP == 1) return std::forward<A>(a) - std::forward<B>(b);
    else if constexpr (OP == 2) return std::forward<A>(a) * std::forward<B>(b); else if constexpr (OP == 3) return std::forward<A>(a) / std::forward<B>(b);
    else if constexpr (OP == 4) return std::forward<A>(a) < std::forward<B>(b); else if constexpr (OP == 5) return std::forward<A>(a) <= std::forward<B>(b);
    else if constexpr (OP == 6) return std::forward<A>(a) > std::forward<B>(b); else if constexpr (OP == 7) return std::forward<A>(a) >= std::forward<B>(b);
    else if constexpr (OP == 8) return std::forward<A>(a) == std::forward<B>(b); else return std::forward<A>(a) != std::forward<B>(b);
}

static const int NSHAPES = 12, NLARGE = 5;           // the large shapes follow the small ones
extern const int SH[NSHAPES + NLARGE][3];
// value patterns; never zero for the right operand of an integer division
template <typename T> std::vector<T> values(size_t n, int pat, bool right) {
    std::vector<T> v(n);
    for (size_t i = 0; i < n; i++) {
        double q;
        switch (pat) {
        case 0: q = right ? (double)(i % 5 + 1) : (double)(i * 3 % 11) + 2; break;                       // small positive
        case 1: q = right ? ((i % 2) ? -2.0 : 3.0) : (double)((int)(i * 7 % 9) - 4); break;               // signs, zero on the left
        case 2: q = right ? (i % 3 == 0 ? 1.0 : i % 3 == 1 ? 2.0 : 4.0) : (i % 3 == 0 ? 1.0 : i % 3 == 1 ? 3.0 : 4.0); break;   // ties
        default: q = right ? 0.125 * (double)(i % 7 + 1) : 1e6 / (double)(i + 1); break;                  // fractions, large (floating point only)
        }
        v[i] = (T)q;
        if (right && v[i] == T(0)) v[i] = T(1);
    }
    return v;
}
template <typename T> std::vector<double> dv(const std::vector<T>& v) { return std::vector<double>(v.begin(), v.end()); }

// parts
void part_binary_dd(Ctx&); void part_binary_mixed(Ctx&); void part_scalar(Ctx&); void part_nested(Ctx&, int part); void part_rest(Ctx&);
void nested0(Ctx&); void nested1(Ctx&); void nested2(Ctx&); void nested3(Ctx&);
void bin_dd0(Ctx&); void bin_dd1(Ctx&); void bin_mixed0(Ctx&); void bin_mixed1(Ctx&); void bin_mixed2(Ctx&);
void types0(Ctx&); void types1(Ctx&); void types2(Ctx&); void types3(Ctx&); void types4(Ctx&); void types5(Ctx&);
void scalar_ops(Ctx&); void scalar_ops2(Ctx&); void unary_ops(Ctx&); void inplace(Ctx&); void inplace2(Ctx&); void aliasing(Ctx&); void mismatched(Ctx&); void equality(Ctx&); void large(Ctx&); void extremes(Ctx&);

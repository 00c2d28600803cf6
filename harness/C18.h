#pragma once
#include "C17.h"
using ref::Ten;
#define KC(N) std::integral_constant<int, N>{}
// reference results, in exact integer-valued doubles
inline Ten refProduct(const Ten& a, const Ten& b) {
    Ten o(a.x, b.y, a.z);
    for (int k = 0; k < a.z; k++) for (int j = 0; j < b.y; j++) for (int i = 0; i < a.x; i++) { double s = 0; for (int t = 0; t < a.y; t++) s += a.at(i, t, k) * b.at(t, j, k); o.at(i, j, k) = s; }
    return o;
}
inline Ten refCorrelate(const Ten& a, const Ten& b, int sx, int sy) {
    Ten o((a.x - b.x) / sx + 1, (a.y - b.y) / sy + 1, 1);
    for (int j = 0; j < o.y; j++) for (int i = 0; i < o.x; i++) { double s = 0; for (int u = 0; u < b.x; u++) for (int v = 0; v < b.y; v++) s += a.at(i * sx + u, j * sy + v, 0) * b.at(u, v, 0); o.at(i, j, 0) = s; }
    return o;
}
inline Ten refTranspose(const Ten& a) { Ten o(a.y, a.x, a.z); for (int k = 0; k < a.z; k++) for (int j = 0; j < a.y; j++) for (int i = 0; i < a.x; i++) o.at(j, i, k) = a.at(i, j, k); return o; }
// clockwise quarter turns, rows x downwards and columns y to the right
inline Ten refTurn(const Ten& a) { Ten o(a.y, a.x, a.z); for (int k = 0; k < a.z; k++) for (int j = 0; j < a.y; j++) for (int i = 0; i < a.x; i++) o.at(j, a.x - 1 - i, k) = a.at(i, j, k); return o; }
template <typename T> std::vector<T> vals(const Ten& t) { return std::vector<T>(t.v.begin(), t.v.end()); }
template <typename T> Operand<T> operand(const Ten& t) { return Operand<T>(t.x, t.y, t.z, vals<T>(t)); }
// value patterns that are exact in every element type: 0 distinct small, 1 ties, 2 signed (not for unsigned types), 3.. unit matrices
inline Ten pattern(int x, int y, int z, int p, int salt = 0) {
    Ten t(x, y, z);
    for (size_t i = 0; i < t.v.size(); i++) t.v[i] = p == 0 ? (double)((i * 5 + salt) % 7) : p == 1 ? (double)((i + salt) % 2 + 1) : p == 2 ? (double)((int)((i * 7 + salt) % 11) - 5) : p == 3 ? -1.0 - (double)((i + salt) % 3) : (i == (size_t)(p - 4) ? 1.0 : 0.0);
    return t;
}
template <typename E, typename R = double> void same(Ctx& c, E& ex, const Ten& e, const std::string& what) {
    check(c, obs(ex), e.x, e.y, e.z, e.v, what);
    const E& cex = ex; check(c, obs(cex), e.x, e.y, e.z, e.v, what + " (const)");
    SimpleMatrix<R> m = ex; checkM(c, m, e.x, e.y, e.z, e.v, what + " as a matrix");
}
template <typename X, typename F> bool throwsX(F f) { try { f(); } catch (X&) { return true; } return false; }
void products(Ctx&); void products_types(Ctx&); void correlations(Ctx&); void correlations_types(Ctx&); void dots(Ctx&); void products_large(Ctx&); void correlations_large(Ctx&);

#pragma once
#include "C17.h"
// Every pair of element types: matrix with matrix and matrix with scalar in both orders, all operators
template <typename T> std::vector<T> typical(bool right) {
    std::vector<double> q = std::is_same_v<T, unsigned char> ? std::vector<double>{200, 3, 255, 1, 128, 7} : std::is_integral_v<T> && std::is_unsigned_v<T> ? std::vector<double>{7, 3, 1000, 1, 2147483648.0, 12}
                          : std::is_integral_v<T> ? std::vector<double>{7, -3, 1000, -1, 2, 12} : std::vector<double>{0.5, -2.75, 1000.125, 1, -0.375, 7};
    std::vector<T> v; for (double d : q) v.push_back((T)d); if (right) std::rotate(v.begin(), v.begin() + 1, v.end()); if (!right) v[4] = T(0); return v;
}
template <typename E> void light(Ctx& c, const E& ex, const std::vector<double>& e, const char* what) {
    c.require(ex.dim() == dim3(2, 3, 1), "%s: shape", what); auto it = ex.begin();
    for (int i = 0; i < 6; i++, ++it) { double a = (double)ex(i % 2, i / 2, 0), b = (double)*it, t = 1e-12 * std::fabs(e[i]); c.require(std::fabs(a - e[i]) <= t && std::fabs(b - e[i]) <= t, "%s: element %d is %.17g (iteration %.17g), expected %.17g", what, i, a, b, e[i]); }
    c.step();
}
template <typename T, typename S, int OP> void pair1(Ctx& c) {
    using R = std::common_type_t<T, S>; auto a = typical<T>(false); auto b = typical<S>(true); SimpleMatrix<T> A(dim3(2, 3, 1)); SimpleMatrix<S> B(dim3(2, 3, 1)); std::vector<double> e(6);
    for (int i = 0; i < 6; i++) { A[i] = a[i]; B[i] = b[i]; e[i] = (double)(R)op2<OP>(a[i], b[i]); }
    light(c, op2<OP>(A, B), e, "two matrices"); SimpleMatrix<R> M = op2<OP>(A, B); light(c, M, e, "two matrices, stored");
    for (int j = 0; j < 6; j++) {
        S s = b[j]; for (int i = 0; i < 6; i++) e[i] = (double)(R)op2<OP>(a[i], s); light(c, op2<OP>(A, s), e, "matrix with scalar"); M = op2<OP>(A, s); light(c, M, e, "matrix with scalar, stored");
        T u = a[j]; for (int i = 0; i < 6; i++) e[i] = (double)(R)op2<OP>(u, b[i]); light(c, op2<OP>(u, B), e, "scalar with matrix"); M = op2<OP>(u, B); light(c, M, e, "scalar with matrix, stored");
    }
    if constexpr (OP < 4) { // in place: evaluated like the operators of the elements
        auto go = [&](auto& X, const auto& Y) { if constexpr (OP == 0) X += Y; else if constexpr (OP == 1) X -= Y; else if constexpr (OP == 2) X *= Y; else X /= Y; };
        bool toInt = std::is_integral_v<T> && !std::is_integral_v<S>; // no conversions of values that do not fit
        auto fits = [&](double q) { return !toInt || (q > (double)std::numeric_limits<T>::lowest() - 1 && q < (double)std::numeric_limits<T>::max() / 2 && (!std::is_unsigned_v<T> || q > -1)); };
        { bool ok = true; std::vector<double> f(6); for (int i = 0; i < 6; i++) { ok = ok && fits((double)op2<OP>(a[i], b[i])); } if (ok) { for (int i = 0; i < 6; i++) { T q = a[i]; go(q, b[i]); f[i] = (double)q; } SimpleMatrix<T> C = A; go(C, B); light(c, C, f, "in place with a matrix"); } }
        for (int j = 0; j < 6; j++) { S s = b[j]; bool ok = true; std::vector<double> f(6); for (int i = 0; i < 6; i++) ok = ok && fits((double)op2<OP>(a[i], s)); if (!ok) continue; for (int i = 0; i < 6; i++) { T q = a[i]; go(q, s); f[i] = (double)q; } SimpleMatrix<T> C = A; go(C, s); light(c, C, f, "in place with a scalar"); }
    }
    c.note("types %d/%d %s", (int)sizeof(T), (int)sizeof(S), opName[OP]);
}
template <typename T, typename S> void pairs(Ctx& c, int op) {
    switch (op) { case 0: pair1<T, S, 0>(c); break; case 1: pair1<T, S, 1>(c); break; case 2: pair1<T, S, 2>(c); break; case 3: pair1<T, S, 3>(c); break; case 4: pair1<T, S, 4>(c); break;
        case 5: pair1<T, S, 5>(c); break; case 6: pair1<T, S, 6>(c); break; case 7: pair1<T, S, 7>(c); break; case 8: pair1<T, S, 8>(c); break; default: pair1<T, S, 9>(c); }
}
template <typename T> void typeRow(Ctx& c) {
    int s = c.choose(6, "right type"), op = c.choose(NOPS, "operator"); c.shard_point();
    switch (s) { case 0: pairs<T, unsigned char>(c, op); break; case 1: pairs<T, int>(c, op); break; case 2: pairs<T, unsigned>(c, op); break; case 3: pairs<T, long>(c, op); break; case 4: pairs<T, float>(c, op); break; default: pairs<T, double>(c, op); }
    c.state(mc::Hash().i(1000).i(sizeof(T)).i(std::is_floating_point_v<T>).i(std::is_unsigned_v<T>).i(s).i(op));
}

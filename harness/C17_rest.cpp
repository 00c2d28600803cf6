#include "C17.h"
template <typename T, typename S, int K, int OP> void sc1(Ctx& c, const int* s, const std::vector<T>& a, S sc) {
    using R = std::common_type_t<T, S>; size_t n = a.size(); Operand<T> A(s[0], s[1], s[2], a);
    std::vector<double> e(n), f(n);
    for (size_t i = 0; i < n; i++) { e[i] = (double)(R)op2<OP>(a[i], sc); }
    std::string what = std::string(kindName[K]) + " " + opName[OP] + " scalar";
    { auto ex = with<K>(A, [&](auto&& x) { return op2<OP>(std::forward<decltype(x)>(x), sc); }); check(c, obs(ex), s[0], s[1], s[2], e, what); SimpleMatrix<R> m = ex; checkM(c, m, s[0], s[1], s[2], e, what); }
    bool zero = false; for (T v : a) if (v == T(0)) zero = true;
    if (!(OP == 3 && zero && std::is_integral_v<R>)) {
        for (size_t i = 0; i < n; i++) f[i] = (double)(R)op2<OP>(sc, a[i]);
        what = std::string("scalar ") + opName[OP] + " " + kindName[K];
        auto ex = with<K>(A, [&](auto&& x) { return op2<OP>(sc, std::forward<decltype(x)>(x)); }); check(c, obs(ex), s[0], s[1], s[2], f, what); SimpleMatrix<double> m; m = ex; checkM(c, m, s[0], s[1], s[2], f, what);
    }
    c.step(2);
}
template <typename T, typename S, int K> void scK(Ctx& c, const std::vector<S>& scal) {
    int op = c.choose(NOPS, "operator"); c.shard_point(); int shape = c.choose(NSHAPES + NLARGE, "shape"); int pat = c.choose(3, "pattern"); S sc = c.pick(scal, "scalar");
    if (pat == 1 && std::is_unsigned_v<T>) c.discard();
    if (sc == S(0) && op == 3 && std::is_integral_v<std::common_type_t<T, S>>) c.discard();
    const int* s = SH[shape]; auto a = values<T>((size_t)s[0] * s[1] * s[2], pat, false);
    c.note("%s %s scalar %g on (%d,%d,%d) pattern %d", kindName[K], opName[op], (double)sc, s[0], s[1], s[2], pat);
    switch (op) { case 0: sc1<T, S, K, 0>(c, s, a, sc); break; case 1: sc1<T, S, K, 1>(c, s, a, sc); break; case 2: sc1<T, S, K, 2>(c, s, a, sc); break; case 3: sc1<T, S, K, 3>(c, s, a, sc); break; case 4: sc1<T, S, K, 4>(c, s, a, sc); break;
        case 5: sc1<T, S, K, 5>(c, s, a, sc); break; case 6: sc1<T, S, K, 6>(c, s, a, sc); break; case 7: sc1<T, S, K, 7>(c, s, a, sc); break; case 8: sc1<T, S, K, 8>(c, s, a, sc); break; case 9: sc1<T, S, K, 9>(c, s, a, sc); break; }
    c.state(mc::Hash().i(500 + K).i(op).i(shape).i(pat).d((double)sc).i(sizeof(T)).i(sizeof(S)).i(std::is_floating_point_v<T>).i(std::is_floating_point_v<S>));
}
void scalar_ops(Ctx& c) {
    switch (c.choose(6, "kind")) {
    case 0: scK<double, double, LV>(c, {0, 1.5, -2, 3}); break; case 1: scK<double, double, RV>(c, {0, 1.5, -2, 3}); break; case 2: scK<double, double, CVIEW>(c, {0, 1.5, -2, 3}); break;
    case 3: scK<double, double, TVIEW>(c, {0.25, -2}); break; case 4: scK<double, double, EXPR>(c, {0.25, -2}); break; case 5: scK<double, int, CLV>(c, {0, 2, -3}); break; }
}
void scalar_ops2(Ctx& c) {
    switch (c.choose(6, "types")) {
    case 0: scK<int, double, LV>(c, {0, 1.5, -2, 3}); break; case 1: scK<int, int, RV>(c, {0, 2, -3}); break; case 2: scK<unsigned char, float, LV>(c, {0.5f, 2}); break;
    case 3: scK<unsigned char, int, LV>(c, {2, 128}); break; case 4: scK<float, double, RV>(c, {0.1, -2}); break; case 5: scK<double, unsigned char, VIEW>(c, {3, 200}); break; }
}
void unary_ops(Ctx& c) {
    int kind = c.choose(6, "kind"), fn = c.choose(6, "function"); c.shard_point(); int shape = c.choose(NSHAPES + NLARGE, "shape"), pat = c.choose(4, "pattern");
    const int* s = SH[shape]; size_t n = (size_t)s[0] * s[1] * s[2]; auto a = values<double>(n, pat, false); if (pat == 3) for (auto& v : a) v = -v / 1e5;
    Operand<double> A(s[0], s[1], s[2], a); std::vector<double> e(n);
    double bias = 0.5; auto lam = [bias](double v) { return v * v - bias; };
    for (size_t i = 0; i < n; i++) e[i] = fn == 0 ? std::fabs(a[i]) : fn == 1 ? std::exp(a[i]) : fn == 2 ? lam(a[i]) : fn == 3 ? std::fabs(std::exp(a[i] - 1) - a[i]) : fn == 4 ? std::tanh(a[i]) : std::exp(-std::fabs(a[i]));
    c.note("function %d of kind %d on (%d,%d,%d) pattern %d", fn, kind, s[0], s[1], s[2], pat); c.step();
    auto go = [&](auto K) {
        auto fin = [&](auto&& ex) { check(c, obs(ex), s[0], s[1], s[2], e, "unary"); SimpleMatrix<double> m = ex; checkM(c, m, s[0], s[1], s[2], e, "unary as a matrix"); SimpleMatrix<float> g; g = ex; std::vector<double> fe(e); for (double& q : fe) q = (float)q; checkM(c, g, s[0], s[1], s[2], fe, "unary as float matrix"); };
        double (*tf)(double) = std::tanh;
        #define GO(E) { auto ex = with<decltype(K)::value>(A, [&](auto&& x) { using X = decltype(x); return E; }); fin(ex); break; }
        switch (fn) { case 0: GO(my_cnn::abs(std::forward<X>(x))) case 1: GO(my_cnn::exp(std::forward<X>(x))) case 2: GO(apply(std::forward<X>(x), lam))
            case 3: { with<decltype(K)::value>(A, [&](auto&& x) { auto ex = my_cnn::abs(my_cnn::exp(x - 1.0) - x); fin(ex); return 0; }); break; } case 4: GO(apply(std::forward<X>(x), tf)) case 5: GO(my_cnn::exp(-1.0 * my_cnn::abs(std::forward<X>(x)))) }
        #undef GO
        };
    #define KC(N) std::integral_constant<int, N>{}
    switch (kind) { case 0: go(KC(LV)); break; case 1: go(KC(CLV)); break; case 2: go(KC(RV)); break; case 3: go(KC(VIEW)); break; case 4: go(KC(CVIEW)); break; case 5: go(KC(EXPR)); break; }
    #undef KC
    checkM(c, A.m, s[0], s[1], s[2], dv(a), "operand of a unary function afterwards");
    if (fn == 0 && kind == 0) {
        SimpleMatrix<double> ab = A.m.abs(); checkM(c, ab, s[0], s[1], s[2], e, "abs() member");
        std::vector<int> ia; for (double v : a) ia.push_back((int)v); Operand<int> I(s[0], s[1], s[2], ia); std::vector<double> ie; for (int v : ia) ie.push_back(std::abs(v));
        SimpleMatrix<int> m = my_cnn::abs(I.m); checkM(c, m, s[0], s[1], s[2], ie, "abs of int"); SimpleMatrix<int> m2 = I.m.abs(); checkM(c, m2, s[0], s[1], s[2], ie, "abs() of int");
        auto ua = values<unsigned>(n, 0, false); Operand<unsigned> U(s[0], s[1], s[2], ua); SimpleMatrix<unsigned> u2 = U.m.abs(); checkM(c, u2, s[0], s[1], s[2], dv(ua), "abs() of unsigned");
        { SimpleMatrix<long> L(dim3(s[0], s[1], s[2])); for (size_t i = 0; i < n; i++) L[i] = (i % 3 == 1 ? 1 : -1) * ((1L << 53) + 1 + 2 * (long)i);
          SimpleMatrix<long> l1 = my_cnn::abs(L), l2 = L.abs(); for (size_t i = 0; i < n; i++) c.require(l1[i] == std::labs(L[i]) && l2[i] == l1[i], "abs of long element %ld is %ld", L[i], l1[i]); }
        SimpleMatrix<double> mo = A.m; modify(mo, lam); std::vector<double> le; for (double v : a) le.push_back(lam(v)); checkM(c, mo, s[0], s[1], s[2], le, "modify");
        { auto hv = A.host.subMatView(dim3(1, 0, 1), dim3(s[0], s[1], s[2])); SimpleMatrix<double> before = A.host; modify(hv, [](double v) { return v + 1; }); for (int k = 0; k < s[2] + 2; k++) for (int j = 0; j < s[1] + 1; j++) for (int i = 0; i < s[0] + 2; i++) { bool in = i >= 1 && i <= s[0] && j < s[1] && k >= 1 && k <= s[2]; c.require(A.host(i, j, k) == before(i, j, k) + (in ? 1 : 0), "modify of a view: element (%d,%d,%d)", i, j, k); } }
    }
    c.state(mc::Hash().i(600).i(kind).i(fn).i(shape).i(pat));
}
// in-place operators: targets x operands x operators
template <int OP, typename L, typename R> void doIn(L&& l, R&& r) { if constexpr (OP == 0) std::forward<L>(l) += std::forward<R>(r); else if constexpr (OP == 1) std::forward<L>(l) -= std::forward<R>(r); else if constexpr (OP == 2) std::forward<L>(l) *= std::forward<R>(r); else std::forward<L>(l) /= std::forward<R>(r); }
template <typename T, typename U, int OP, int K> void in1(Ctx& c, const int* s, int pat) {
    size_t n = (size_t)s[0] * s[1] * s[2]; auto a = values<T>(n, pat, false); auto b = values<U>(n, pat, true); Operand<T> A(s[0], s[1], s[2], a); Operand<U> B(s[0], s[1], s[2], b);
    std::vector<double> e(n); for (size_t i = 0; i < n; i++) { T q = a[i]; if (OP == 0) q += b[i]; else if (OP == 1) q -= b[i]; else if (OP == 2) q *= b[i]; else q /= b[i]; e[i] = (double)q; }
    std::string what = std::string("matrix ") + opName[OP] + "= " + kindName[K];
    with<K>(B, [&](auto&& y) { doIn<OP>(A.m, std::forward<decltype(y)>(y)); return 0; }); checkM(c, A.m, s[0], s[1], s[2], e, what);
    with<K>(B, [&](auto&& y) { auto v = A.host.subMatView(dim3(1, 0, 1), dim3(s[0], s[1], s[2])); doIn<OP>(v, std::forward<decltype(y)>(y)); return 0; });
    for (int k = 0; k < s[2] + 2; k++) for (int j = 0; j < s[1] + 1; j++) for (int i = 0; i < s[0] + 2; i++) { bool in = i >= 1 && i <= s[0] && j < s[1] && k >= 1 && k <= s[2]; double w = in ? e[((size_t)(k - 1) * s[1] + j) * s[0] + i - 1] : 77; c.require((double)A.host(i, j, k) == w, "view %s: element (%d,%d,%d) is %g, expected %g", what.c_str(), i, j, k, (double)A.host(i, j, k), w); }
    checkM(c, B.m, s[0], s[1], s[2], dv(b), what + ": right operand afterwards"); c.step(2);
}
template <typename T, typename U, int OP> void inK(Ctx& c) {
    int k = c.choose(5, "kind"); c.shard_point(); int shape = c.choose(NSHAPES + NLARGE, "shape"), pat = c.choose(3, "pattern"); const int* s = SH[shape]; if (pat == 1 && (std::is_unsigned_v<T> || std::is_unsigned_v<U>)) c.discard();
    c.note("in-place %s kind %d on (%d,%d,%d) pattern %d", opName[OP], k, s[0], s[1], s[2], pat);
    switch (k) { case 0: in1<T, U, OP, LV>(c, s, pat); break; case 1: in1<T, U, OP, RV>(c, s, pat); break; case 2: in1<T, U, OP, CVIEW>(c, s, pat); break; case 3: in1<T, U, OP, TVIEW>(c, s, pat); break; case 4: in1<T, U, OP, EXPR>(c, s, pat); break; }
    c.state(mc::Hash().i(700).i(OP).i(k).i(shape).i(pat).i(sizeof(T)).i(sizeof(U)).i(std::is_floating_point_v<T>));
}
void inplace(Ctx& c) { switch (c.choose(4, "operator")) { case 0: inK<double, double, 0>(c); break; case 1: inK<double, double, 1>(c); break; case 2: inK<double, double, 2>(c); break; default: inK<double, double, 3>(c); } }
void inplace2(Ctx& c) { switch (c.choose(6, "types")) { case 0: inK<int, double, 2>(c); break; case 1: inK<int, double, 3>(c); break; case 2: inK<float, int, 1>(c); break; case 3: inK<unsigned char, int, 0>(c); break; case 4: inK<int, int, 3>(c); break; default: inK<double, int, 1>(c); } }

// the target occurs in the assigned expression or is combined with itself
void aliasing(Ctx& c) {
    int form = c.choose(34, "form"); c.shard_point(); int shape = c.choose(NSHAPES + NLARGE, "shape"), pat = c.choose(3, "pattern"); const int* s = SH[shape]; size_t n = (size_t)s[0] * s[1] * s[2];
    auto a = values<double>(n, pat, false), b = values<double>(n, pat, true); Operand<double> AO(s[0], s[1], s[2], a), BO(s[0], s[1], s[2], b); auto& A = AO.m; auto& B = BO.m;
    int X = s[0], Y = s[1], Z = s[2]; std::vector<double> e = a; auto at = [&](int i, int j, int k) { return a[((size_t)k * s[1] + j) * s[0] + i]; };
    c.note("form %d on (%d,%d,%d) pattern %d", form, s[0], s[1], s[2], pat); c.step();
    switch (form) {
    case 0: A = A + B; for (size_t i = 0; i < n; i++) e[i] = a[i] + b[i]; break;
    case 1: A = B - A; for (size_t i = 0; i < n; i++) e[i] = b[i] - a[i]; break;
    case 2: A = A * A - A; for (size_t i = 0; i < n; i++) e[i] = a[i] * a[i] - a[i]; break;
    case 3: A = transpose(A); X = s[1]; Y = s[0]; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(j, i, k); break;
    case 4: A = transpose(A + B); X = s[1]; Y = s[0]; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(j, i, k) + b[((size_t)k * s[1] + i) * s[0] + j]; break;
    case 5: A = rotate<2>(A); for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(X - 1 - i, Y - 1 - j, k); break;
    case 6: if (X < 2 || Y < 1 || Z < 1) c.discard(); { auto v = A.subMatView(dim3(1, 0, 0), dim3(X - 1, Y, Z)); A = v; } { std::vector<double> q; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 1; i < X; i++) q.push_back(at(i, j, k)); e = q; X--; } break;
    case 7: if (Z < 1) c.discard(); A = A.slice(Z - 1); e.clear(); for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e.push_back(at(i, j, Z - 1)); Z = 1; break;
    case 8: if (Y < 2) c.discard(); A = A.subMatView(dim3(0, 1, 0), dim3(X, Y - 1, Z)) * 2.0; { std::vector<double> q; for (int k = 0; k < Z; k++) for (int j = 1; j < Y; j++) for (int i = 0; i < X; i++) q.push_back(2 * at(i, j, k)); e = q; Y--; } break;
    case 9: if (!n || a[0] == 0) c.discard(); A /= A[0]; for (size_t i = 0; i < n; i++) e[i] = a[i] / a[0]; break;
    case 10: if (!n) c.discard(); A -= A(0, 0, 0); for (size_t i = 0; i < n; i++) e[i] = a[i] - a[0]; break;
    case 11: if (!n) c.discard(); A *= A[n - 1]; for (size_t i = 0; i < n; i++) e[i] = a[i] * a[n - 1]; break;
    case 12: if (!n) c.discard(); A += A[n / 2]; for (size_t i = 0; i < n; i++) e[i] = a[i] + a[n / 2]; break;
    case 13: A += A; for (size_t i = 0; i < n; i++) e[i] = a[i] + a[i]; break;
    case 14: A -= A; for (size_t i = 0; i < n; i++) e[i] = 0; break;
    case 15: A *= A; for (size_t i = 0; i < n; i++) e[i] = a[i] * a[i]; break;
    case 16: A += A * B; for (size_t i = 0; i < n; i++) e[i] = a[i] + a[i] * b[i]; break;
    case 17: A = A; break;
    case 18: A = my_cnn::exp(A) - A; for (size_t i = 0; i < n; i++) e[i] = std::exp(a[i]) - a[i]; break;
    case 19: { auto ex = A + 1.0; A = ex; for (size_t i = 0; i < n; i++) e[i] = a[i] + 1; break; }
    case 20: { // an expression over named operands follows them
               auto ex = A + B; A += 1.0; for (size_t i = 0; i < n; i++) e[i] = a[i] + 1; std::vector<double> q(n); for (size_t i = 0; i < n; i++) q[i] = a[i] + 1 + b[i]; check(c, obs(ex), X, Y, Z, q, "expression after its operand changed"); break; }
    case 21: if (X != Y || Z < 1) c.discard(); A = matrixMultiply(A, A); for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) { double q = 0; for (int t = 0; t < X; t++) q += at(i, t, k) * at(t, j, k); e[((size_t)k * Y + j) * X + i] = q; } break;
    case 22: A = SimpleMatrix<double>(A) + SimpleMatrix<double>(B); for (size_t i = 0; i < n; i++) e[i] = a[i] + b[i]; break;
    case 23: if (!n) c.discard(); { auto v = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)); v /= (a[0] == 0 ? B[0] : A[0]); double d = a[0] == 0 ? b[0] : a[0]; for (size_t i = 0; i < n; i++) e[i] = a[i] / d; } break;
    case 24: if (X != Y) c.discard(); A += transpose(A); for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) + at(j, i, k); break;
    case 25: A -= rotate<2>(A); for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) - at(X - 1 - i, Y - 1 - j, k); break;
    case 26: if (X != Y) c.discard(); A *= matrixMultiply(A, B); for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) { double q = 0; for (int t = 0; t < X; t++) q += at(i, t, k) * b[((size_t)k * Y + j) * X + t]; e[((size_t)k * Y + j) * X + i] = at(i, j, k) * q; } break;
    case 27: for (double q : a) if (q == 0) c.discard(); A /= rotate<2>(A) * 2.0; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) / (at(X - 1 - i, Y - 1 - j, k) * 2); break;
    case 28: if (X != Y) c.discard(); A += transpose(A - B) + A; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) + (at(j, i, k) - b[((size_t)k * Y + i) * X + j] + at(i, j, k)); break;
    case 29: { auto v = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)); A -= v; for (size_t i = 0; i < n; i++) e[i] = 0; break; }
    case 30: { auto v = A.subMatView(dim3(0, 0, 0), dim3(X, Y, Z)); v *= A; for (size_t i = 0; i < n; i++) e[i] = a[i] * a[i]; break; }
    case 31: { auto ex = rotate<2>(A); A += ex; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) + at(X - 1 - i, Y - 1 - j, k); break; }
    case 32: if (Z < 2) c.discard(); for (int k = 0; k < Z; k++) A.slice(k) += A.slice(0) * 1.0; for (int k = 0; k < Z; k++) for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[((size_t)k * Y + j) * X + i] = at(i, j, k) + at(i, j, 0) * (k ? 2 : 1); break;
    case 33: if (X != Y || Z < 1) c.discard(); A.slice(0) = transpose(A.slice(0)); for (int j = 0; j < Y; j++) for (int i = 0; i < X; i++) e[(size_t)j * X + i] = at(j, i, 0); break;
    }
    checkM(c, A, X, Y, Z, e, mc::fmt("aliasing form %d", form)); checkM(c, B, s[0], s[1], s[2], dv(b), "other operand afterwards");
    c.state(mc::Hash().i(800).i(form).i(shape).i(pat));
}
// operands of different shapes
template <typename F> bool throwsSize(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
void mismatched(Ctx& c) {
    int hi = c.thorough() ? 3 : 2; int s[3], t[3]; for (int i = 0; i < 3; i++) s[i] = c.range(0, hi); c.shard_point(); for (int i = 0; i < 3; i++) t[i] = c.range(0, hi);
    bool same = s[0] == t[0] && s[1] == t[1] && s[2] == t[2];
    c.note("(%d,%d,%d) with (%d,%d,%d)", s[0], s[1], s[2], t[0], t[1], t[2]);
    SimpleMatrix<double> A(dim3(s[0], s[1], s[2]), 2.0), B(dim3(t[0], t[1], t[2]), 4.0); SimpleMatrix<int> I(dim3(t[0], t[1], t[2]), 4); const auto& CB = B; auto bv = CB.subMatView(dim3(0, 0, 0), B.dim());
    auto Z = A; bool r[] = {
        throwsSize([&] { A + B; }), throwsSize([&] { A - B; }), throwsSize([&] { A * B; }), throwsSize([&] { A / B; }), throwsSize([&] { A < B; }), throwsSize([&] { A <= B; }), throwsSize([&] { A > B; }), throwsSize([&] { A >= B; }), throwsSize([&] { A == B; }), throwsSize([&] { A != B; }),
        throwsSize([&] { A + SimpleMatrix<double>(B); }), throwsSize([&] { SimpleMatrix<double>(A) - B; }), throwsSize([&] { SimpleMatrix<double>(A) * SimpleMatrix<double>(B); }), throwsSize([&] { A + bv; }), throwsSize([&] { bv * A; }), throwsSize([&] { (A + 1.0) / (B * 2.0); }), throwsSize([&] { A - I; }), throwsSize([&] { my_cnn::abs(B) + A; }) };
    for (size_t i = 0; i < sizeof r / sizeof *r; i++) c.require(r[i] == !same, "combination %zu of (%d,%d,%d) with (%d,%d,%d) %s", i, s[0], s[1], s[2], t[0], t[1], t[2], r[i] ? "threw" : "did not throw");
    std::vector<double> e(A.size(), 2.0);
    if (!same) {
        bool q[] = {throwsSize([&] { A += B; }), throwsSize([&] { A -= B; }), throwsSize([&] { A *= B; }), throwsSize([&] { A /= B; }), throwsSize([&] { A += bv; }), throwsSize([&] { A -= I; }), throwsSize([&] { A *= (B + 1.0); }), throwsSize([&] { A /= SimpleMatrix<double>(B); })};
        for (size_t i = 0; i < sizeof q / sizeof *q; i++) c.require(q[i], "in-place combination %zu of (%d,%d,%d) with (%d,%d,%d) did not throw", i, s[0], s[1], s[2], t[0], t[1], t[2]);
        checkM(c, A, s[0], s[1], s[2], e, "left operand after rejection");
    }
    // assigning an expression takes its shape
    A = B + 1.0; checkM(c, A, t[0], t[1], t[2], std::vector<double>(B.size(), 5.0), "assignment changing the shape"); Z = bv; checkM(c, Z, t[0], t[1], t[2], std::vector<double>(B.size(), 4.0), "assignment of a view changing the shape");
    c.step(28); c.state(mc::Hash().i(900).raw(s, sizeof s).raw(t, sizeof t));
}
void equality(Ctx& c) {
    int shape = c.choose(NSHAPES), shape2 = c.choose(NSHAPES); c.shard_point(); const int* s = SH[shape]; const int* t = SH[shape2]; size_t n = (size_t)s[0] * s[1] * s[2], m = (size_t)t[0] * t[1] * t[2];
    auto a = values<double>(n, 0, false), b = values<double>(m, 0, false); Operand<double> A(s[0], s[1], s[2], a), B(t[0], t[1], t[2], b); bool same = shape == shape2;
    c.note("equality of shapes %d and %d", shape, shape2);
    c.require(matrixEqual(A.m, B.m) == same, "matrixEqual of shapes (%d,%d,%d) and (%d,%d,%d)", s[0], s[1], s[2], t[0], t[1], t[2]); c.require(matrixEqual(A.m, B.m, 0.1) == same, "matrixEqual with tolerance");
    if (same) { c.require(matrixEqual(A.m, B.m + 0.0) && matrixEqual(A.m * 1.0, A.host.subMatView(dim3(1, 0, 1), A.m.dim())), "matrixEqual of expressions");
        for (size_t i = 0; i < n; i++) for (double d : {0.5, -0.5}) { auto C = B.m; C[i] += d; c.require(!matrixEqual(A.m, C) && !matrixEqual(C, A.m), "difference at %zu not seen", i); c.require(!matrixEqual(A.m, C, 0.25) && matrixEqual(A.m, C, 0.5) && matrixEqual(A.m, C, 0.75) && !matrixEqual(C, A.m, 0.25) && matrixEqual(C, A.m, 0.5), "tolerance at %zu, difference %g", i, d); c.step(7); } }
    c.step(4); c.state(mc::Hash().i(950).i(shape).i(shape2));
}

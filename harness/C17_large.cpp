#include "C17_bin.h"
// all operators, and deep expressions, on shapes well above the small ones
template <int K1, int K2> static void all(Ctx& c, int op, int shape, int pat) { binOps<double, double, K1, K2>(c, op, shape, pat, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9>{}); }
template <int K1> static void right(Ctx& c, int k2, int op, int shape, int pat) {
    switch (k2) { case 0: all<K1, LV>(c, op, shape, pat); break; case 1: all<K1, RV>(c, op, shape, pat); break; case 2: all<K1, CVIEW>(c, op, shape, pat); break; default: all<K1, EXPR>(c, op, shape, pat); }
}
static void deep(Ctx& c, int form, int shape, int pat) {
    const int* s = SH[shape]; size_t n = (size_t)s[0] * s[1] * s[2]; auto a = values<double>(n, pat, false), b = values<double>(n, pat, true); Operand<double> A(s[0], s[1], s[2], a), B(s[0], s[1], s[2], b);
    std::vector<double> e(n); auto V = A.host.subMatView(dim3(1, 0, 1), dim3(s[0], s[1], s[2])); std::string what = mc::fmt("deep expression %d", form); c.note("%s on (%d,%d,%d) pattern %d", what.c_str(), s[0], s[1], s[2], pat);
    #define DEEP(M, S) { for (size_t i = 0; i < n; i++) { double x = a[i], y = b[i]; (void)y; e[i] = S; } { auto& x = A.m; auto& y = B.m; (void)y; auto ex = M; check(c, obs(ex), s[0], s[1], s[2], e, what); SimpleMatrix<double> m = ex; checkM(c, m, s[0], s[1], s[2], e, what + " stored"); } { auto& x = V; auto& y = B.m; (void)y; SimpleMatrix<double> m; m = M; checkM(c, m, s[0], s[1], s[2], e, what + " over a view"); } break; }
    switch (form) {
    case 0: DEEP(((x + y) * (x - y)) / (y + 20.0), ((x + y) * (x - y)) / (y + 20.0))
    case 1: DEEP(my_cnn::abs(x - 2.0 * y) + my_cnn::abs(y - x * 0.5), std::fabs(x - 2.0 * y) + std::fabs(y - x * 0.5))
    case 2: DEEP(SimpleMatrix<double>(x) + SimpleMatrix<double>(y) - SimpleMatrix<double>(x * y), x + y - x * y)
    case 3: DEEP(1.0 - (2.0 - (3.0 - (4.0 - x))) * y, 1.0 - (2.0 - (3.0 - (4.0 - x))) * y)
    case 4: DEEP(transpose(transpose(x) * 2.0) + rotate<2>(rotate<2>(y)), x * 2.0 + y)
    default: DEEP(x * x * x + y * y + x, x * x * x + y * y + x)
    }
    #undef DEEP
    c.step(3); c.state(mc::Hash().i(1200).i(form).i(shape).i(pat));
}
// elements of extreme magnitude: every operator, on every pair of values
template <int OP> static void extremes1(Ctx& c, int kind) {
    static const std::vector<double> V{0, 5e-324, -1e-300, 1e-160, -1e-17, 1e-9, -1e-5, 1, -1, 4503599627370497.0, -1e17, 1e155, -1e300, 1.7e308, HUGE_VAL, -HUGE_VAL, std::nan("")}; int m = (int)V.size(); std::vector<double> a, b, e; for (double p : V) for (double q : V) { a.push_back(p); b.push_back(q); e.push_back((double)op2<OP>(p, q)); }
    Operand<double> A(m, m, 1, a), B(m, m, 1, b); auto go = [&](auto K) { constexpr int KK = decltype(K)::value;
        { auto ex = with<KK>(A, [&](auto&& x) { return op2<OP>(std::forward<decltype(x)>(x), B.m); }); check(c, obs(ex), m, m, 1, e, "extreme values"); SimpleMatrix<double> r = ex; checkM(c, r, m, m, 1, e, "extreme values"); SimpleMatrix<double> q; q = ex; checkM(c, q, m, m, 1, e, "extreme values assigned"); }
        for (int i = 0; i < m; i++) { std::vector<double> f, g; for (double v : a) { f.push_back((double)op2<OP>(v, V[i])); g.push_back((double)op2<OP>(V[i], v)); } auto ex = with<KK>(A, [&](auto&& x) { return op2<OP>(std::forward<decltype(x)>(x), V[i]); }); check(c, obs(ex), m, m, 1, f, "extreme values and a scalar"); auto ey = with<KK>(A, [&](auto&& x) { return op2<OP>(V[i], std::forward<decltype(x)>(x)); }); check(c, obs(ey), m, m, 1, g, "a scalar and extreme values");
            if constexpr (OP < 4 && KK == LV) { SimpleMatrix<double> r = A.m; if constexpr (OP == 0) r += V[i]; else if constexpr (OP == 1) r -= V[i]; else if constexpr (OP == 2) r *= V[i]; else r /= V[i]; checkM(c, r, m, m, 1, f, "extreme values in place with a scalar"); } c.step(2); } };
    switch (kind) { case 0: go(std::integral_constant<int, LV>{}); break; case 1: go(std::integral_constant<int, RV>{}); break; case 2: go(std::integral_constant<int, CVIEW>{}); break; default: go(std::integral_constant<int, EXPR>{}); }
    if constexpr (OP < 4) { SimpleMatrix<double> r = A.m; if constexpr (OP == 0) r += B.m; else if constexpr (OP == 1) r -= B.m; else if constexpr (OP == 2) r *= B.m; else r /= B.m; checkM(c, r, m, m, 1, e, "extreme values in place"); }
    if (OP == 0) { std::vector<double> u, v; for (double x : a) { u.push_back(std::fabs(x)); v.push_back(std::exp(x)); } auto p = my_cnn::abs(A.m); auto q = my_cnn::exp(A.m); check(c, obs(p), m, m, 1, u, "magnitudes of extreme values"); check(c, obs(q), m, m, 1, v, "exponentials of extreme values"); checkM(c, A.m.abs(), m, m, 1, u, "magnitudes of extreme values"); }
    checkM(c, A.m, m, m, 1, a, "operand afterwards"); checkM(c, B.m, m, m, 1, b, "operand afterwards"); c.state(mc::Hash().i(1300).i(OP).i(kind));
}
void extremes(Ctx& c) {
    int op = c.choose(NOPS, "operator"), kind = c.choose(4, "kind"); c.shard_point(); c.note("%s of extreme values, kind %d", opName[op], kind);
    switch (op) { case 0: extremes1<0>(c, kind); break; case 1: extremes1<1>(c, kind); break; case 2: extremes1<2>(c, kind); break; case 3: extremes1<3>(c, kind); break; case 4: extremes1<4>(c, kind); break; case 5: extremes1<5>(c, kind); break; case 6: extremes1<6>(c, kind); break; case 7: extremes1<7>(c, kind); break; case 8: extremes1<8>(c, kind); break; default: extremes1<9>(c, kind); }
}
void large(Ctx& c) {
    int k1 = c.choose(6, "left kind"), k2 = c.choose(k1 == 5 ? 6 : 4, "right kind"); c.shard_point(); int op = k1 == 5 ? 0 : c.choose(NOPS, "operator"), shape = NSHAPES + c.choose(NLARGE, "shape"), pat = c.choose(4, "pattern");
    switch (k1) { case 0: right<LV>(c, k2, op, shape, pat); break; case 1: right<RV>(c, k2, op, shape, pat); break; case 2: right<VIEW>(c, k2, op, shape, pat); break; case 3: right<TVIEW>(c, k2, op, shape, pat); break; case 4: right<NEXPR>(c, k2, op, shape, pat); break; default: deep(c, k2, shape, pat); }
}

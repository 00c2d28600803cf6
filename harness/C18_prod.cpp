#include "C18.h"
// ---- matrix product and correlation over operand kinds (double) ----
template <int K1, int K2> static void prod(Ctx& c, const Ten& a, const Ten& b, bool fits) {
    auto A = operand<double>(a), B = operand<double>(b);
    std::string what = std::string("product of ") + kindName[K1] + " " + a.dims() + " and " + kindName[K2] + " " + b.dims();
    auto make = [&] { return with<K1>(A, [&](auto&& x) { return with<K2>(B, [&](auto&& y) { return matrixMultiply(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); }); };
    c.step();
    if (!fits) c.require(throwsX<MatrixSizeException>([&] { make(); }), "%s did not throw", what.c_str());
    else { auto ex = make(); same(c, ex, refProduct(a, b), what); }
    checkM(c, A.m, a.x, a.y, a.z, a.v, what + ": left operand afterwards"); checkM(c, B.m, b.x, b.y, b.z, b.v, what + ": right operand afterwards");
}
template <int K1, int K2> static void corr(Ctx& c, const Ten& a, const Ten& b, int sx, int sy, bool fits) {
    auto A = operand<double>(a), B = operand<double>(b);
    std::string what = std::string("correlation of ") + kindName[K1] + " " + a.dims() + " and " + kindName[K2] + " " + b.dims() + mc::fmt(" stride (%d,%d)", sx, sy);
    auto make = [&] { return with<K1>(A, [&](auto&& x) { return with<K2>(B, [&](auto&& y) { return convolve(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y), dim2(sx, sy)); }); }); };
    c.step();
    if (!fits) c.require(throwsX<MatrixSizeException>([&] { make(); }), "%s did not throw", what.c_str());
    else { auto ex = make(); same(c, ex, refCorrelate(a, b, sx, sy), what); }
    checkM(c, A.m, a.x, a.y, a.z, a.v, what + ": left operand afterwards"); checkM(c, B.m, b.x, b.y, b.z, b.v, what + ": right operand afterwards");
}
template <typename F> static void kinds2(int k1, int k2, F f) {
    auto g = [&](auto K1) {
        switch (k2) { case 0: f(K1, KC(LV)); break; case 1: f(K1, KC(CLV)); break; case 2: f(K1, KC(RV)); break; case 3: f(K1, KC(CVIEW)); break; case 4: f(K1, KC(TVIEW)); break; default: f(K1, KC(EXPR)); } };
    switch (k1) { case 0: g(KC(LV)); break; case 1: g(KC(RV)); break; case 2: g(KC(VIEW)); break; case 3: g(KC(TVIEW)); break; default: g(KC(EXPR)); }
}
void products(Ctx& c) {
    int k1 = c.choose(5, "left kind"), k2 = c.choose(6, "right kind"); int hi = c.thorough() ? 4 : 3;
    int lo = 0; int x = c.range(lo, hi, "rows"), n = c.range(lo, hi, "inner"); c.shard_point();
    int y = c.range(lo, hi, "columns"), z = c.range(1, 2, "channels"), n2 = c.range(lo, hi, "inner of the right"), z2 = c.range(1, 2, "channels of the right");
    bool fits = n == n2 && z == z2;
    if (!fits && k1 > 1 && k2 > 2) c.discard();
    int p = fits ? c.choose(3, "values") : 0;
    Ten a = pattern(x, n, z, p), b = pattern(n2, y, z2, p, 3);
    c.note("left %s%s, right %s%s", kindName[k1 == 0 ? LV : k1 == 1 ? RV : k1 == 2 ? VIEW : k1 == 3 ? TVIEW : EXPR], show(a).c_str(), kindName[k2 == 5 ? EXPR : k2 == 4 ? TVIEW : k2 == 3 ? CVIEW : k2], show(b).c_str());
    kinds2(k1, k2, [&](auto K1, auto K2) { prod<decltype(K1)::value, decltype(K2)::value>(c, a, b, fits); });
    c.state(mc::Hash().i(1).i(k1).i(k2).i(a.hash()).i(b.hash()));
}
void correlations(Ctx& c) {
    int k1 = c.choose(5, "left kind"), k2 = c.choose(6, "right kind"); int hi = c.thorough() ? 5 : 4;
    int x = c.range(1, hi, "rows"), y = c.range(1, hi, "columns"); c.shard_point();
    int u = c.range(1, 3, "filter rows"), v = c.range(1, 3, "filter columns"); int zz = c.choose(3, "channels"); int s = c.choose(c.thorough() ? 9 : 4, "stride");
    static const int ST[9][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}, {3, 3}};
    int sx = ST[s][0], sy = ST[s][1];
    bool fits = zz == 0 && x >= u && y >= v; if (!fits && s) c.discard();
    if (zz && (u > 2 || v > 2)) c.discard();
    int p = fits ? c.choose(2, "values") * 2 : 0;
    Ten a = pattern(x, y, zz == 1 ? 2 : 1, p), b = pattern(u, v, zz == 2 ? 2 : 1, p, 2);
    c.note("left kind %d %s, right kind %d %s, stride (%d,%d)", k1, show(a).c_str(), k2, show(b).c_str(), sx, sy);
    kinds2(k1, k2, [&](auto K1, auto K2) { corr<decltype(K1)::value, decltype(K2)::value>(c, a, b, sx, sy, fits); });
    c.state(mc::Hash().i(2).i(k1).i(k2).i(a.hash()).i(b.hash()).i(s));
}
// ---- shapes well above the small ones ----
void products_large(Ctx& c) {
    static const int S[][4] = {{17, 33, 9, 1}, {64, 1, 64, 1}, {1, 1000, 1, 1}, {1, 300, 5, 2}, {65, 40, 33, 2}, {128, 16, 1, 3}, {2, 2, 300, 1}, {300, 2, 2, 1}, {3, 5, 4, 40}, {16, 16, 16, 1}, {1, 1, 1, 300}, {10, 784, 1, 1}};
    int k1 = c.choose(5, "left kind"), k2 = c.choose(6, "right kind"), s = c.choose(12, "shape"); c.shard_point(); int p = c.choose(3, "values");
    Ten a = pattern(S[s][0], S[s][1], S[s][3], p), b = pattern(S[s][1], S[s][2], S[s][3], p, 3); c.note("product of %s and %s, kinds %d %d, values %d", a.dims().c_str(), b.dims().c_str(), k1, k2, p);
    kinds2(k1, k2, [&](auto K1, auto K2) { prod<decltype(K1)::value, decltype(K2)::value>(c, a, b, true); });
    // one row or column too many
    Ten w = pattern(S[s][1] + 1, S[s][2], S[s][3], p); kinds2(k1, k2, [&](auto K1, auto K2) { prod<decltype(K1)::value, decltype(K2)::value>(c, a, w, false); });
    c.state(mc::Hash().i(11).i(k1).i(k2).i(s).i(p));
}
void correlations_large(Ctx& c) {
    static const int S[][6] = {{28, 28, 5, 5, 1, 1}, {28, 28, 5, 5, 2, 3}, {33, 20, 7, 3, 4, 1}, {20, 33, 3, 7, 5, 6}, {64, 64, 64, 64, 1, 1}, {100, 3, 1, 3, 7, 1}, {1, 300, 1, 17, 1, 9}, {300, 1, 256, 1, 1, 1}, {17, 16, 16, 16, 2, 2}, {40, 40, 1, 1, 13, 11}, {19, 23, 11, 9, 100, 1}};
    int k1 = c.choose(5, "left kind"), k2 = c.choose(6, "right kind"), s = c.choose(11, "shape"); c.shard_point(); int p = c.choose(2, "values") * 2;
    Ten a = pattern(S[s][0], S[s][1], 1, p), b = pattern(S[s][2], S[s][3], 1, p, 2); c.note("correlation of %s and %s stride (%d,%d), kinds %d %d, values %d", a.dims().c_str(), b.dims().c_str(), S[s][4], S[s][5], k1, k2, p);
    kinds2(k1, k2, [&](auto K1, auto K2) { corr<decltype(K1)::value, decltype(K2)::value>(c, a, b, S[s][4], S[s][5], true); });
    c.state(mc::Hash().i(12).i(k1).i(k2).i(s).i(p));
}

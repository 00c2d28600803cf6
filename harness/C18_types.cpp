#include "C18.h"
// ---- element types; units determine a bilinear operation completely ----
template <typename T1, typename T2, typename F> static void pair2(Ctx& c, const Ten& a, const Ten& b, const Ten& e, F f, const char* what) {
    SimpleMatrix<T1> A = toM<T1>(a); SimpleMatrix<T2> B = toM<T2>(b);
    using R = std::common_type_t<T1, T2>;
    c.step(3);
    auto ex = f(A, B);
    same<decltype(ex), R>(c, ex, e, what);
    auto ex2 = f(SimpleMatrix<T1>(static_cast<const SimpleMatrix<T1>&>(A)), SimpleMatrix<T2>(static_cast<const SimpleMatrix<T2>&>(B))); same<decltype(ex2), R>(c, ex2, e, what);
    SimpleMatrix<double> d; d = ex; checkM(c, d, e.x, e.y, e.z, e.v, what);
}
template <typename F> static void types(Ctx& c, int t, const Ten& a, const Ten& b, const Ten& e, F f, const char* what) {
    switch (t) {
    case 0: pair2<double, double>(c, a, b, e, f, what); break; case 1: pair2<int, int>(c, a, b, e, f, what); break; case 2: pair2<int, double>(c, a, b, e, f, what); break;
    case 3: pair2<double, int>(c, a, b, e, f, what); break; case 4: pair2<float, float>(c, a, b, e, f, what); break; case 5: pair2<float, double>(c, a, b, e, f, what); break;
    case 6: pair2<unsigned char, unsigned char>(c, a, b, e, f, what); break; default: pair2<unsigned char, float>(c, a, b, e, f, what); }
}
void products_types(Ctx& c) {
    int t = c.choose(8, "types"); int hi = 3; int x = c.range(1, hi, "rows"), n = c.range(1, hi, "inner"); c.shard_point(); int y = c.range(1, hi, "columns"), z = c.range(1, c.thorough() ? 3 : 2, "channels");
    int p = c.choose(5, "values"), q = p;
    if (p == 4) { p = 4 + c.choose(x * n * z, "left unit"); q = 4 + c.choose(n * y * z, "right unit"); if (!c.thorough() && t > 2) c.discard(); }
    if ((p == 2 || p == 3) && t >= 6) c.discard();
    Ten a = pattern(x, n, z, p), b = pattern(n, y, z, q, 3), e = refProduct(a, b);
    c.note("product, types %d: %s times %s", t, show(a).c_str(), show(b).c_str());
    types(c, t, a, b, e, [](auto&& A, auto&& B) { return matrixMultiply(std::forward<decltype(A)>(A), std::forward<decltype(B)>(B)); }, "product");
    c.state(mc::Hash().i(3).i(t).i(a.hash()).i(b.hash()));
}
void correlations_types(Ctx& c) {
    int t = c.choose(8, "types"); int hi = c.thorough() ? 6 : 5; int x = c.range(1, hi, "rows"), y = c.range(1, hi, "columns"); c.shard_point();
    int u = c.range(1, 3, "filter rows"), v = c.range(1, 3, "filter columns"), sx = c.range(1, 3, "stride x"), sy = c.range(1, 3, "stride y");
    if (u > x || v > y) c.discard();
    int p = c.choose(5, "values"), q = p;
    if (p == 4) { if (t || x > 4 || y > 4) c.discard(); p = 4 + c.choose(x * y, "left unit"); q = 4 + c.choose(u * v, "right unit"); }
    if ((p == 2 || p == 3) && t >= 6) c.discard();
    Ten a = pattern(x, y, 1, p), b = pattern(u, v, 1, q, 2); if (p <= 1) for (double& d : b.v) d = std::fmod(d, 4); Ten e = refCorrelate(a, b, sx, sy);
    c.note("correlation, types %d, stride (%d,%d): %s with %s", t, sx, sy, show(a).c_str(), show(b).c_str());
    types(c, t, a, b, e, [&](auto&& A, auto&& B) { return convolve(std::forward<decltype(A)>(A), std::forward<decltype(B)>(B), dim2(sx, sy)); }, "correlation");
    c.state(mc::Hash().i(4).i(t).i(a.hash()).i(b.hash()).i(sx).i(sy));
}
template <typename T1, typename T2> static void dotT(Ctx& c, const Ten& a, const Ten& b, bool fits, double e) {
    auto A = operand<T1>(a); auto B = operand<T2>(b); c.step();
    auto go = [&](auto K1, auto K2) {
        if (!fits) { c.require(throwsX<MatrixSizeException>([&] { with<decltype(K1)::value>(A, [&](auto&& x) { return with<decltype(K2)::value>(B, [&](auto&& y) { (void)dot(x, y); return 0; }); }); }), "dot of %s and %s did not throw", a.dims().c_str(), b.dims().c_str()); return; }
        auto d = with<decltype(K1)::value>(A, [&](auto&& x) { return with<decltype(K2)::value>(B, [&](auto&& y) { return dot(x, y); }); });
       
        c.require((double)d == e, "dot product of a %s %s and a %s %s is %.17g, expected %.17g", kindName[decltype(K1)::value], show(a).c_str(), kindName[decltype(K2)::value], show(b).c_str(), (double)d, e);
    };
    go(KC(LV), KC(LV)); go(KC(RV), KC(CLV)); go(KC(VIEW), KC(EXPR)); go(KC(CLV), KC(TVIEW)); go(KC(EXPR), KC(CVIEW));
}
void dots(Ctx& c) {
    int t = c.choose(6, "types"); int hi = c.thorough() ? 5 : 4; c.shard_point(); int x = c.range(0, hi), y = c.range(0, hi), z = c.range(0, 2), x2 = c.range(0, hi), y2 = c.range(0, hi), z2 = c.range(0, 2);
    auto vec = [](int x, int y, int z) { return z == 1 && (x == 1 || y == 1); };
    bool fits = vec(x, y, z) && vec(x2, y2, z2) && x * y == x2 * y2;
    if (!fits && t) c.discard();
    int p = fits ? c.choose(4, "values") : 0; if (p >= 2 && t == 5) c.discard();
    Ten a = pattern(x, y, z, p), b = pattern(x2, y2, z2, p, 3); double e = 0; if (fits) for (size_t i = 0; i < a.v.size(); i++) e += a.v[i] * b.v[i];
    // fractions: products with exact halves, lost if the accumulator had an integer type
    if (fits && (t == 0 || t == 2 || t == 3)) { e = 0; Ten& f = t == 3 ? b : a; for (double& d : f.v) d += 0.5; for (size_t i = 0; i < a.v.size(); i++) e += a.v[i] * b.v[i]; if (t == 2) { /* left float */ } }
    c.note("dot, types %d: %s and %s", t, show(a).c_str(), show(b).c_str());
    switch (t) { case 0: dotT<double, double>(c, a, b, fits, e); break; case 1: dotT<int, int>(c, a, b, fits, e); break; case 2: dotT<float, int>(c, a, b, fits, e); break; case 3: dotT<int, double>(c, a, b, fits, e); break;
        case 4: dotT<float, float>(c, a, b, fits, e); break; default: dotT<unsigned char, float>(c, a, b, fits, e); }
    c.state(mc::Hash().i(5).i(t).i(a.hash()).i(b.hash()));
}

// C18: products, transposition, rotation and reductions follow their definitions.
#include "C18.h"
// ---- transposition and rotation ----
template <typename T> static void turns(Ctx& c, int k, const Ten& a) {
    auto A = operand<T>(a);
    Ten t1 = refTurn(a), t2 = refTurn(t1), t3 = refTurn(t2), tr = refTranspose(a); bool sq = a.x == a.y;
    auto go = [&](auto K) {
        constexpr int KK = decltype(K)::value; std::string w = std::string(" of a ") + kindName[KK] + " " + a.dims();
        c.step(5);
        { auto ex = with<KK>(A, [&](auto&& x) { return transpose(std::forward<decltype(x)>(x)); }); same<decltype(ex), T>(c, ex, tr, "transpose" + w); }
        { auto ex = with<KK>(A, [&](auto&& x) { return rotate<2>(std::forward<decltype(x)>(x)); }); same<decltype(ex), T>(c, ex, t2, "half turn" + w); }
        { auto ex = with<KK>(A, [&](auto&& x) { return transpose(transpose(std::forward<decltype(x)>(x))); }); same<decltype(ex), T>(c, ex, a, "double transpose" + w); }
        auto q1 = [&] { return with<KK>(A, [&](auto&& x) { return rotate<1>(std::forward<decltype(x)>(x)); }); };
        auto q3 = [&] { return with<KK>(A, [&](auto&& x) { return rotate<3>(std::forward<decltype(x)>(x)); }); };
        if (sq) { auto e1 = q1(); same<decltype(e1), T>(c, e1, t1, "quarter turn" + w); auto e3 = q3(); same<decltype(e3), T>(c, e3, t3, "three-quarter turn" + w);
            auto e4 = with<KK>(A, [&](auto&& x) { return rotate<1>(rotate<3>(std::forward<decltype(x)>(x))); }); same<decltype(e4), T>(c, e4, a, "quarter after three-quarter turn" + w);
            auto e5 = with<KK>(A, [&](auto&& x) { return rotate<2>(transpose(std::forward<decltype(x)>(x)) + T(1)); }); Ten q = refTurn(refTurn(tr)); for (double& d : q.v) d += 1; same<decltype(e5), T>(c, e5, q, "half turn of transpose plus one" + w); }
        else { c.require(throwsX<MatrixTransformException>([&] { q1(); }), "quarter turn%s did not throw", w.c_str()); c.require(throwsX<MatrixTransformException>([&] { q3(); }), "three-quarter turn%s did not throw", w.c_str());
            auto e5 = with<KK>(A, [&](auto&& x) { return rotate<2>(transpose(std::forward<decltype(x)>(x)) + T(1)); }); Ten q = refTurn(refTurn(tr)); for (double& d : q.v) d += 1; same<decltype(e5), T>(c, e5, q, "half turn of transpose plus one" + w); }
        checkM(c, A.m, a.x, a.y, a.z, a.v, "operand afterwards");
        // assigned over the operand itself
        if (sq) { SimpleMatrix<T> m = A.m; m = rotate<1>(m); checkM(c, m, a.x, a.y, a.z, t1.v, "m = quarter turn of m"); }
        { SimpleMatrix<T> m = A.m; m = transpose(m); checkM(c, m, a.y, a.x, a.z, tr.v, "m = transpose of m"); }
    };
    if constexpr (std::is_same_v<T, double>) switch (k) { case 0: go(KC(LV)); break; case 1: go(KC(CLV)); break; case 2: go(KC(RV)); break; case 3: go(KC(VIEW)); break; case 4: go(KC(CVIEW)); break; case 5: go(KC(TVIEW)); break; case 6: go(KC(EXPR)); break; default: go(KC(NEXPR)); }
    else if (k == 0) go(KC(LV)); else go(KC(RV));
}
static void turning(Ctx& c) {
    int t = c.choose(4, "type"), k = c.choose(t ? 2 : 8, "kind"); c.shard_point(); int hi = c.thorough() ? 6 : 4;
    int x = c.range(0, hi, "rows"), y = c.range(0, hi, "columns"), z = c.range(0, 3, "channels"), p = c.choose(2, "values");
    Ten a = pattern(x, y, z, 0); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = p ? (double)(i % 120) + 1 : (double)(i * 13 % 101);
    c.note("type %d kind %d: %s", t, k, show(a).c_str());
    switch (t) { case 0: turns<double>(c, k, a); break; case 1: turns<int>(c, k, a); break; case 2: turns<float>(c, k, a); break; default: turns<unsigned char>(c, k, a); }
    c.state(mc::Hash().i(6).i(t).i(k).i(a.hash()));
}
// ---- reductions ----
template <typename T> static void reduce1(Ctx& c, int k, const Ten& a) {
    auto A = operand<T>(a); size_t n = a.v.size();
    std::vector<T> v = vals<T>(a); double sum = 0, sq = 0; for (double d : a.v) { sum += d; sq += d * d; }
    size_t mi = 0, ma = 0; for (size_t i = 1; i < n; i++) { if (v[i] < v[mi]) mi = i; if (v[i] > v[ma]) ma = i; }
    auto idx = [&](size_t i) { return std::array<int, 3>{(int)(i % a.x), (int)(i / a.x % a.y), (int)(i / a.x / a.y)}; };
    auto close = [](double p, double q) { return p == q || std::fabs(p - q) <= (std::is_same_v<T, double> ? 1e-11 : 1e-5) * std::max(std::fabs(p), std::fabs(q)); };
    c.step(7);
    auto go = [&](auto K) {
        constexpr int KK = decltype(K)::value; std::string w = std::string("a ") + kindName[KK] + " " + (n > 64 ? a.dims() : show(a)); const char* W = w.c_str();
        with<KK>(A, [&](auto&& x) {
            auto s = my_cnn::sum(x); c.require((double)s == sum, "sum of %s is %.17g, expected %.17g", W, (double)s, sum);
            if (n) {
                auto m = my_cnn::mean(x);
                if constexpr (std::is_integral_v<T>) c.require((long)m == (long)sum / (long)n, "mean of %s is %ld, expected %ld", W, (long)m, (long)sum / (long)n);
                else { c.require(close((double)m, sum / n), "mean of %s is %.17g, expected %.17g", W, (double)m, sum / n); }
                c.require(my_cnn::max(x) == v[ma], "maximum of %s is %g, expected %g", W, (double)my_cnn::max(x), (double)v[ma]);
                c.require(my_cnn::min(x) == v[mi], "minimum of %s is %g, expected %g", W, (double)my_cnn::min(x), (double)v[mi]);
                auto I = my_cnn::minIndex(x); auto e = idx(mi); c.require(I.x == e[0] && I.y == e[1] && I.z == e[2], "index of the minimum of %s is (%d,%d,%d), expected (%d,%d,%d)", W, I.x, I.y, I.z, e[0], e[1], e[2]);
                auto J = my_cnn::maxIndex(x); e = idx(ma); c.require(J.x == e[0] && J.y == e[1] && J.z == e[2], "index of the maximum of %s is (%d,%d,%d), expected (%d,%d,%d)", W, J.x, J.y, J.z, e[0], e[1], e[2]);
            }
            if (!std::is_same_v<T, unsigned char> || sq < 256) c.require(close((double)my_cnn::l2Norm(x), std::sqrt(sq)), "norm of %s is %.17g, expected %.17g", W, (double)my_cnn::l2Norm(x), std::sqrt(sq));
            return 0; });
    };
    if constexpr (std::is_same_v<T, double>) switch (k) { case 0: go(KC(LV)); break; case 1: go(KC(CLV)); break; case 2: go(KC(RV)); break; case 3: go(KC(VIEW)); break; case 4: go(KC(CVIEW)); break; case 5: go(KC(EXPR)); break; default: go(KC(NEXPR)); }
    else if (k == 0) go(KC(LV)); else go(KC(CVIEW));
    if (k == 0 && n) {
        c.require(A.m.minIndex() == mi, "minIndex() of %s is %zu, expected %zu", show(a).c_str(), A.m.minIndex(), mi);
        c.require(A.m.maxIndex() == ma, "maxIndex() of %s is %zu, expected %zu", show(a).c_str(), A.m.maxIndex(), ma);
    }
}
static void reductions(Ctx& c) {
    int t = c.choose(4, "type"), k = c.choose(t ? 2 : 7, "kind");
    static const int S[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 3, 1}, {2, 2, 1}, {1, 1, 3}, {2, 1, 2}, {1, 2, 2}, {5, 1, 1}, {1, 5, 1}, {2, 3, 1}, {3, 2, 1}, {1, 2, 3}, {3, 1, 2}, {2, 2, 2}, {0, 2, 1}, {2, 0, 1}, {2, 2, 0}};
    int s = c.choose(17, "shape"); c.shard_point();
    Ten a(S[s][0], S[s][1], S[s][2]); size_t n = a.v.size();
    // every assignment of the values to the elements of the smaller shapes; all positions of a single extreme for the larger
    static const double D[4] = {-2, 1, 3, -1}, U[4] = {1, 0, 3, 2}; const double* V = t == 3 ? U : D;
    int nv = n <= 4 ? 4 : n <= 6 ? 3 : c.thorough() ? 3 : 2;
    for (size_t i = 0; i < n; i++) a.v[i] = V[c.choose(nv, "element")];
    c.note("type %d kind %d: %s", t, k, show(a).c_str());
    switch (t) { case 0: reduce1<double>(c, k, a); break; case 1: reduce1<int>(c, k, a); break; case 2: reduce1<float>(c, k, a); break; default: reduce1<unsigned char>(c, k, a); }
    c.state(mc::Hash().i(7).i(t).i(k).i(a.hash()));
}
// ---- large matrices ----
static void turning_large(Ctx& c) {
    static const int S[][3] = {{17, 17, 5}, {40, 23, 2}, {300, 1, 1}, {1, 300, 1}, {64, 64, 1}, {2, 2, 300}, {1, 1, 257}, {257, 3, 1}, {16, 32, 3}};
    int t = c.choose(3, "type"), k = c.choose(t ? 2 : 8, "kind"), s = c.choose(9, "shape"); c.shard_point();
    Ten a = pattern(S[s][0], S[s][1], S[s][2], 0); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = (double)(i + 1);
    c.note("type %d kind %d: %s", t, k, a.dims().c_str());
    switch (t) { case 0: turns<double>(c, k, a); break; case 1: turns<int>(c, k, a); break; default: turns<float>(c, k, a); }
    c.state(mc::Hash().i(8).i(t).i(k).i(s));
}
static void reductions_large(Ctx& c) {
    static const int S[][3] = {{10, 10, 1}, {257, 1, 1}, {1, 257, 1}, {1, 1, 257}, {17, 19, 3}, {300, 200, 1}, {65537, 1, 1}, {16, 16, 4}, {7, 5, 11}};
    int t = c.choose(3, "type"), k = c.choose(t ? 2 : 7, "kind"), s = c.choose(9, "shape"); c.shard_point(); int pos = c.choose(5, "position of the extremes"), pat = c.choose(t ? 3 : 4, "values");
    Ten a(S[s][0], S[s][1], S[s][2]); size_t n = a.v.size(); for (size_t i = 0; i < n; i++) a.v[i] = pat == 0 ? 1 : pat == 1 ? (double)(int)(i % 7) - 3 : pat == 2 ? (double)((i * 5 + 1) % 11) : 16777217.0 + 2 * (double)(i % 5);
    // one or two extremes, at either end, in the middle and across a power of two
    size_t P[5][2] = {{0, n - 1}, {n - 1, 0}, {n / 2, n / 2 - 1}, {std::min(n - 1, (size_t)256), 63}, {n / 3, n / 4}};
    a.v[P[pos][0]] = 20; a.v[P[pos][1]] = -9; if (pos == 4) { a.v[n - 2] = 20; a.v[n - 3] = -9; }
    c.note("type %d kind %d: %s, extremes %d, values %d", t, k, a.dims().c_str(), pos, pat);
    switch (t) { case 0: reduce1<double>(c, k, a); break; case 1: reduce1<int>(c, k, a); break; default: reduce1<float>(c, k, a); }
    c.state(mc::Hash().i(9).i(t).i(k).i(s).i(pos).i(pat));
}
static void dots_large(Ctx& c) {
    static const int N[] = {9, 16, 17, 63, 64, 65, 100, 255, 256, 257, 1000, 65537}; int s = c.choose(12, "length"), o = c.choose(4, "orientations"), p = c.choose(3, "values"); c.shard_point(); int n = N[s];
    Ten a = pattern(o & 1 ? n : 1, o & 1 ? 1 : n, 1, p), b = pattern(o & 2 ? n : 1, o & 2 ? 1 : n, 1, p, 4); double e = 0; for (int i = 0; i < n; i++) e += a.v[i] * b.v[i];
    auto A = operand<double>(a), B = operand<double>(b); auto AI = operand<int>(a); auto BF = operand<float>(b); c.note("dot product of %s and %s, values %d", a.dims().c_str(), b.dims().c_str(), p); c.step(4);
    double d = dot(A.m, B.m); c.require(d == e, "dot product is %.17g, expected %.17g", d, e); d = dot(A.m + 0.0, B.host.subMatView(dim3(1, 0, 1), B.m.dim())); c.require(d == e, "dot product of expression and view is %.17g, expected %.17g", d, e);
    d = dot(AI.m, B.m); c.require(d == e, "dot product of int and double is %.17g, expected %.17g", d, e); d = dot(A.m, BF.m); c.require(d == e, "dot product of double and float is %.17g, expected %.17g", d, e);
    Ten w = pattern(o & 2 ? n + 1 : 1, o & 2 ? 1 : n + 1, 1, p); auto W = operand<double>(w); c.require(throwsX<MatrixSizeException>([&] { dot(A.m, W.m); }) && throwsX<MatrixSizeException>([&] { dot(W.m, A.m); }), "dot product of different lengths did not throw");
    c.state(mc::Hash().i(10).i(s).i(o).i(p));
}
// means and norms that fit the element type although the sums they are made of do not
template <typename T> static void wide1(Ctx& c, const Ten& a) {
    auto A = operand<T>(a); size_t n = a.v.size(); long double sum = 0, sq = 0; for (double d : a.v) { sum += d; sq += (long double)d * d; }
    auto go = [&](auto K) {
        constexpr int KK = decltype(K)::value; std::string w = std::string("a ") + kindName[KK] + " " + (n > 64 ? a.dims() : show(a)); const char* W = w.c_str();
        with<KK>(A, [&](auto&& x) {
            long long e = (long long)(sum / n); auto m = my_cnn::mean(x); c.require(std::fabs((long double)m - sum / n) < 1 + 1e-12 * std::fabs((double)sum / n) && (n > 1 || (double)m == a.v[0]), "mean of %s is %.17g, expected %lld", W, (double)m, e);
            double nrm = (double)my_cnn::l2Norm(x), want = (double)std::sqrt(sq); c.require(std::fabs(nrm - want) <= 1e-9 * want, "norm of %s is %.17g, expected %.17g", W, nrm, want); return 0; });
    };
    go(KC(LV)); go(KC(CLV)); go(KC(CVIEW)); go(KC(EXPR)); c.step(8);
}
static void reductions_wide(Ctx& c) {
    int t = c.choose(5, "type"), s = c.choose(6, "shape"); c.shard_point(); static const int S[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 3, 1}, {2, 1, 2}, {28, 28, 1}, {17, 19, 3}};
    static const double V[5][4] = {{0, 255, 128, 16}, {-128, 127, 100, -16}, {-32768, 32767, 256, 1000}, {-2147483647.0, 2147483647.0, 65536, 46341}, {0, 4294967295.0, 65536, 2147483648.0}};
    Ten a(S[s][0], S[s][1], S[s][2]); if (a.v.size() <= 4) for (double& d : a.v) d = V[t][c.choose(4, "element")]; else { int p = c.choose(4, "first"), q = c.choose(4, "second"); for (size_t i = 0; i < a.v.size(); i++) a.v[i] = V[t][i % 3 ? p : q]; }
    c.note("type %d: %s", t, a.v.size() > 64 ? a.dims().c_str() : show(a).c_str());
    switch (t) { case 0: wide1<unsigned char>(c, a); break; case 1: wide1<signed char>(c, a); break; case 2: wide1<short>(c, a); break; case 3: wide1<int>(c, a); break; default: wide1<unsigned>(c, a); }
    c.state(mc::Hash().i(17).i(t).i(a.hash()));
}
// very small and very large elements: small integers times powers of two, so that every result but the norm is exact
static void magnitudes(Ctx& c) {
    static const std::vector<int> E{-500, -450, -300, -100, -40, -20, 0, 20, 40, 100, 300, 450, 500}; int a = c.pick(E, "magnitude of the first operand"), b = c.pick(E, "magnitude of the second"); c.shard_point(); int op = c.choose(4, "operation"), s = c.choose(4, "shape"), p = c.choose(2, "values") * 2; if (op == 3 && b) c.discard();
    auto mag = [](Ten t, int e) { for (double& d : t.v) d = std::ldexp(d, e); return t; }; auto exact = [&](const SimpleMatrix<double>& m, const Ten& e, const char* what) { expectTen(c, m, e, 0, what); }; c.note("operation %d, shape %d, values %d, times 2^%d and 2^%d", op, s, p, a, b); c.step(4);
    static const int P[4][3] = {{1, 1, 1}, {2, 3, 2}, {4, 1, 3}, {1, 17, 1}};
    if (op == 0) { Ten x = mag(pattern(P[s][0], P[s][1], 2, p), a), y = mag(pattern(P[s][1], P[s][2], 2, p, 3), b), e = refProduct(x, y); auto X = operand<double>(x), Y = operand<double>(y); exact(matrixMultiply(X.m, Y.m), e, "product"); exact(matrixMultiply(X.m + 0.0, Y.host.subMatView(dim3(1, 0, 1), Y.m.dim())), e, "product of expression and view"); }
    else if (op == 1) { static const int C[4][6] = {{1, 1, 1, 1, 1, 1}, {4, 5, 2, 3, 1, 1}, {6, 3, 1, 2, 2, 1}, {9, 9, 5, 5, 2, 4}}; const int* k = C[s]; Ten x = mag(pattern(k[0], k[1], 1, p), a), y = mag(pattern(k[2], k[3], 1, p, 3), b), e = refCorrelate(x, y, k[4], k[5]); auto X = operand<double>(x), Y = operand<double>(y); exact(convolve(X.m, Y.m, dim2(k[4], k[5])), e, "correlation"); exact(convolve(X.host.subMatView(dim3(1, 0, 1), X.m.dim()), Y.m + 0.0, dim2(k[4], k[5])), e, "correlation of view and expression"); }
    else if (op == 2) { int n = P[s][1] * 5; Ten x = mag(pattern(n, 1, 1, p), a), y = mag(pattern(1, n, 1, p, 3), b); double e = 0; for (int i = 0; i < n; i++) e += x.v[i] * y.v[i]; auto X = operand<double>(x), Y = operand<double>(y); double d = dot(X.m, Y.m); c.require(d == e, "dot product is %.17g, expected %.17g", d, e); d = dot(X.m, Y.m + 0.0); c.require(d == e, "dot product with an expression is %.17g, expected %.17g", d, e); }
    else { Ten x = mag(pattern(P[s][0], P[s][1], P[s][2], p), a); reduce1<double>(c, 0, x); reduce1<double>(c, 5, x); for (double& d : x.v) d = -d; reduce1<double>(c, 1, x); reduce1<double>(c, 3, x); }
    c.state(mc::Hash().i(18).i(a).i(b).i(op).i(s).i(p));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C18", {{"products", products}, {"products, element types", products_types}, {"correlations", correlations}, {"correlations, element types", correlations_types}, {"dot", dots}, {"turning", turning}, {"reductions", reductions}, {"wide reductions", reductions_wide}, {"magnitudes", magnitudes}, {"large products", products_large}, {"large correlations", correlations_large}, {"large dot", dots_large}, {"large turning", turning_large}, {"large reductions", reductions_large}},
        "matrix products of all shapes up to 3x3x3 (thorough 4) with 2 channels over 5x6 operand kinds, fitting or not, 8 element-type pairs with all pairs of unit matrices; correlations of all inputs up to 4x4 (5x5) with filters up to 3x3 and 4 (9) strides over the same kinds, 8 type pairs up to 5x5 (6x6) with strides up to 3x3; dot products of all pairs of shapes up to 4x4x2 (5x5x2); transposition and rotations of all shapes up to 4x4x3 (6x6x3) over 8 kinds and 4 types; reductions of all 2-4 valued contents of 17 shapes with up to 8 elements over 7 kinds and 4 types; 12 large products, 11 large correlations, 12 lengths of dot products, 9 large shapes turned, 9 large shapes of up to 65537 elements reduced; means and norms of 5 integer types over extreme values in 6 shapes; all these operations on elements over 13 powers of two from 2^-500 to 2^500");
}

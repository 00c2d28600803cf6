#include "C17.h"
// two operators, three leaves of three kinds each, both groupings; the inner result is a temporary or a named expression
template <int SHAPE, int O1, int O2, int K1, int K2, int K3> void nest1(Ctx& c, int shape, int pat) {
    const int* s = SH[shape]; size_t n = (size_t)s[0] * s[1] * s[2];
    auto a = values<double>(n, pat, false), b = values<double>(n, pat, true), d = values<double>(n, (pat + 1) % 3, true);
    Operand<double> A(s[0], s[1], s[2], a), B(s[0], s[1], s[2], b), D(s[0], s[1], s[2], d);
    std::vector<double> e(n);
    for (size_t i = 0; i < n; i++) e[i] = SHAPE ? op2<O1>(a[i], op2<O2>(b[i], d[i])) : op2<O2>(op2<O1>(a[i], b[i]), d[i]);
    std::string what = SHAPE ? std::string(kindName[K1]) + " " + opName[O1] + " (" + kindName[K2] + " " + opName[O2] + " " + kindName[K3] + ")"
                             : std::string("(") + kindName[K1] + " " + opName[O1] + " " + kindName[K2] + ") " + opName[O2] + " " + kindName[K3];
    c.note("%s on (%d,%d,%d) pattern %d", what.c_str(), s[0], s[1], s[2], pat); c.step(3);
    auto ex = with<K1>(A, [&](auto&& x) { return with<K2>(B, [&](auto&& y) { return with<K3>(D, [&](auto&& z) {
        if constexpr (SHAPE) return op2<O1>(std::forward<decltype(x)>(x), op2<O2>(std::forward<decltype(y)>(y), std::forward<decltype(z)>(z)));
        else return op2<O2>(op2<O1>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)), std::forward<decltype(z)>(z)); }); }); });
    check(c, obs(ex), s[0], s[1], s[2], e, what); SimpleMatrix<double> m; m = ex; checkM(c, m, s[0], s[1], s[2], e, what);
    // named inner expression
    if constexpr (!SHAPE) {
        auto in = with<K1>(A, [&](auto&& x) { return with<K2>(B, [&](auto&& y) { return op2<O1>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
        auto ex2 = op2<O2>(in, D.m); check(c, obs(ex2), s[0], s[1], s[2], e, what + " (named)"); }
    checkM(c, A.m, s[0], s[1], s[2], dv(a), "operand afterwards");
    c.state(mc::Hash().i(SHAPE).i(O1).i(O2).i(K1).i(K2).i(K3).i(shape).i(pat));
}
// all operator pairs over {matrix, temporary} leaves; over {matrix, temporary, view} leaves where the operators differ in kind (FULL)
template <int SHAPE, int O1, int O2, int K1, int K2> void nestK3(Ctx& c, int k3, int sh, int p) {
    constexpr bool FULL = (O1 == 1 && O2 == 3) || (O1 == 2 && O2 == 0);
    if (k3 == 0) nest1<SHAPE, O1, O2, K1, K2, LV>(c, sh, p); else if (k3 == 1) nest1<SHAPE, O1, O2, K1, K2, RV>(c, sh, p);
    else { if constexpr (FULL) nest1<SHAPE, O1, O2, K1, K2, CVIEW>(c, sh, p); else c.discard(); } }
template <int SHAPE, int O1, int O2, int K1> void nestK2(Ctx& c, int k2, int k3, int sh, int p) {
    constexpr bool FULL = (O1 == 1 && O2 == 3) || (O1 == 2 && O2 == 0);
    if (k2 == 0) nestK3<SHAPE, O1, O2, K1, LV>(c, k3, sh, p); else if (k2 == 1) nestK3<SHAPE, O1, O2, K1, RV>(c, k3, sh, p);
    else { if constexpr (FULL) nestK3<SHAPE, O1, O2, K1, CVIEW>(c, k3, sh, p); else c.discard(); } }
template <int SHAPE, int O1, int O2> void nestK(Ctx& c, int k1, int k2, int k3, int sh, int p) {
    constexpr bool FULL = (O1 == 1 && O2 == 3) || (O1 == 2 && O2 == 0);
    if (k1 == 0) nestK2<SHAPE, O1, O2, LV>(c, k2, k3, sh, p); else if (k1 == 1) nestK2<SHAPE, O1, O2, RV>(c, k2, k3, sh, p);
    else { if constexpr (FULL) nestK2<SHAPE, O1, O2, TVIEW>(c, k2, k3, sh, p); else c.discard(); } }
template <int SHAPE, int O1> void nestO(Ctx& c) {
    int o2 = c.choose(4, "second operator"), k1 = c.choose(3), k2 = c.choose(3), k3 = c.choose(3); c.shard_point();
    int sh = c.choose(NSHAPES, "shape"), p = c.choose(3, "pattern");
    switch (o2) { case 0: nestK<SHAPE, O1, 0>(c, k1, k2, k3, sh, p); break; case 1: nestK<SHAPE, O1, 1>(c, k1, k2, k3, sh, p); break; case 2: nestK<SHAPE, O1, 2>(c, k1, k2, k3, sh, p); break; default: nestK<SHAPE, O1, 3>(c, k1, k2, k3, sh, p); }
}

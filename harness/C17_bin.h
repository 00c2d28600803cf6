#include "C17.h"
template <typename T1, typename T2, int K1, int K2, int OP> void bin1(Ctx& c, int shape, int pat) {
    const int* s = SH[shape]; size_t n = (size_t)s[0] * s[1] * s[2];
    auto a = values<T1>(n, pat, false); auto b = values<T2>(n, pat, true);
    Operand<T1> A(s[0], s[1], s[2], a); Operand<T2> B(s[0], s[1], s[2], b);
    using R = std::common_type_t<T1, T2>;
    std::vector<double> e(n); for (size_t i = 0; i < n; i++) e[i] = (double)(R)op2<OP>(a[i], b[i]);
    std::string what = std::string(kindName[K1]) + " " + opName[OP] + " " + kindName[K2];
    c.note("%s on (%d,%d,%d) pattern %d", what.c_str(), s[0], s[1], s[2], pat); c.step(2);
    auto ex = with<K1>(A, [&](auto&& x) { return with<K2>(B, [&](auto&& y) { return op2<OP>(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }); });
    check(c, obs(ex), s[0], s[1], s[2], e, what);
    const auto& cex = ex; check(c, obs(cex), s[0], s[1], s[2], e, what + " (const)");
    SimpleMatrix<R> m = ex; checkM(c, m, s[0], s[1], s[2], e, what + " as a matrix");
    checkM(c, A.m, s[0], s[1], s[2], dv(a), what + ": left operand afterwards"); checkM(c, B.m, s[0], s[1], s[2], dv(b), what + ": right operand afterwards");
    c.state(mc::Hash().i(K1).i(K2).i(OP).i(shape).i(pat).i(sizeof(T1)).i(sizeof(T2)).i(std::is_floating_point_v<T1>).i(std::is_floating_point_v<T2>));
}
template <typename T1, typename T2, int K1, int K2, int... OPS> void binOps(Ctx& c, int op, int shape, int pat, std::integer_sequence<int, OPS...>) {
    ((op == OPS ? bin1<T1, T2, K1, K2, OPS>(c, shape, pat) : void()), ...);
}
template <typename T1, typename T2, int K1, int... K2S, typename OPSEQ> void binK2(Ctx& c, int k2, int op, int shape, int pat, std::integer_sequence<int, K2S...>, OPSEQ o) {
    ((k2 == K2S ? binOps<T1, T2, K1, K2S>(c, op, shape, pat, o) : void()), ...);
}
template <typename T1, typename T2, int... K1S, typename K2SEQ, typename OPSEQ> void binAll(Ctx& c, std::integer_sequence<int, K1S...>, K2SEQ k2s, OPSEQ ops, const std::vector<int>& k1v, const std::vector<int>& k2v, const std::vector<int>& opv) {
    int k1 = c.pick(k1v, "left kind"), k2 = c.pick(k2v, "right kind"), op = c.pick(opv, "operator"); c.shard_point();
    int shape = c.choose(NSHAPES, "shape"); int pat = c.choose(std::is_floating_point_v<T1> && std::is_floating_point_v<T2> ? 4 : 3, "pattern");
    if (pat == 1 && (std::is_unsigned_v<T1> || std::is_unsigned_v<T2>)) c.discard();
    ((k1 == K1S ? binK2<T1, T2, K1S>(c, k2, op, shape, pat, k2s, ops) : void()), ...);
}
#define SEQ(...) std::integer_sequence<int, __VA_ARGS__>{}, 

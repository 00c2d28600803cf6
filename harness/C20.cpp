// C20: dimension values behave as vectors and enumerate a box completely.
#include "mc.h"
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include <set>
#include <new>
#include <sstream>
using namespace my_cnn;
using mc::Ctx;

// Storage with known garbage in it, so that a component that is not written shows up on every run
template <typename D> struct Dirty {
    alignas(D) unsigned char raw[sizeof(D)]; D* p = nullptr;
    template <typename... A> D& make(int fill, A... a) {
        memset(raw, fill, sizeof raw); asm volatile("" : : "r"(raw) : "memory");
        void* q = raw; asm volatile("" : "+r"(q) : : "memory");
        return *(p = new (q) D(a...));
    }
};

template <int N> std::vector<int> comps(const Dim<N>& d) { return std::vector<int>(d.data.begin(), d.data.begin() + N); }

template <int N> void same(Ctx& c, const Dim<N>& d, std::vector<int> e, const char* what) {
    for (int i = 0; i < N; i++) c.require(d.data[i] == e[i], "%s: component %d is %d, expected %d", what, i, d.data[i], e[i]);
    c.require(d.x == e[0] && (N < 2 || d.y == e[1]) && (N < 3 || d.z == e[2]), "%s: named components disagree", what);
    // equality with independently built equal and different values, in both directions
    Dirty<Dim<N>> o; Dim<N>& q = o.make(0x5A, 0); for (int i = 0; i < N; i++) q.data[i] = e[i];
    c.require(d == q && q == d && !(d != q) && !(q != d), "%s: not equal to the same components", what);
    for (int i = 0; i < N; i++) { q.data[i] ^= 1; c.require(!(d == q) && d != q && !(q == d), "%s: equal although component %d differs", what, i); q.data[i] ^= 1; }
}

static const int LO = -2, HI = 3;

template <typename T> void construct(Ctx& c, int fill, int a, int b, int k) {
    T A = (T)a, B = (T)b, K = (T)k; int ia = (int)A, ib = (int)B, ik = (int)K;
    { Dirty<dim3> d; same(c, d.make(fill, A, B, K), {ia, ib, ik}, "dim3(a,b,c)"); }
    { Dirty<dim3> d; same(c, d.make(fill, A, B), {ia, ib, 0}, "dim3(a,b)"); }
    { Dirty<dim2> d; same(c, d.make(fill, A, B), {ia, ib}, "dim2(a,b)"); }
    { Dirty<Dim<4>> d; same(c, d.make(fill, A, B, K), {ia, ib, ik, 0}, "Dim<4>(a,b,c)"); }
    { Dirty<Dim<4>> d; same(c, d.make(fill, A, B), {ia, ib, 0, 0}, "Dim<4>(a,b)"); }
    { Dirty<Dim<4>> d; same(c, d.make(fill, A, B, K, A), {ia, ib, ik, ia}, "Dim<4>(a,b,c,d)"); }
    { Dirty<Dim<5>> d; same(c, d.make(fill, A, K), {ia, ik, 0, 0, 0}, "Dim<5>(a,c)"); }
    if constexpr (!std::is_same_v<T, int>) {
        { Dirty<dim3> d; same(c, d.make(fill, A), {ia, 0, 0}, "dim3(one value that is not an int)"); }
        { Dirty<dim2> d; same(c, d.make(fill, B), {ib, 0}, "dim2(one value that is not an int)"); }
    } else {
        { Dirty<dim3> d; same(c, d.make(fill, a), {a, a, a}, "dim3(int)"); }
        { Dirty<dim2> d; same(c, d.make(fill, a), {a, a}, "dim2(int)"); }
        { Dirty<Dim<4>> d; same(c, d.make(fill, a), {a, a, a, a}, "Dim<4>(int)"); }
        { Dirty<Dim<1>> d; same(c, d.make(fill, a), {a}, "Dim<1>(int)"); }
    }
    c.step(9);
}

static void constructors(Ctx& c) {
    int a = c.range(LO, HI, "a"), b = c.range(LO, HI, "b"), k = c.range(LO, HI, "c"); c.shard_point();
    int fill = c.pick(std::vector<int>{0x00, 0xFF, 0xA5, 0x01}, "memory content");
    c.note("(%d,%d,%d) over memory filled with %02x", a, b, k, fill);
    construct<int>(c, fill, a, b, k); construct<long>(c, fill, a, b, k); construct<short>(c, fill, a, b, k); construct<signed char>(c, fill, a, b, k);
    if (a >= 0 && b >= 0 && k >= 0) { construct<unsigned>(c, fill, a, b, k); construct<size_t>(c, fill, a, b, k); construct<unsigned char>(c, fill, a, b, k); construct<uint16_t>(c, fill, a, b, k); }
    { Dirty<dim3> d; same(c, d.make(fill), {0, 0, 0}, "dim3()"); Dirty<dim2> e; same(c, e.make(fill), {0, 0}, "dim2()"); }
    { dim3 d{a, b, k}; same(c, d, {a, b, k}, "dim3{}"); dim2 e = {a, b}; same(c, e, {a, b}, "dim2{}"); dim3 m(a, (size_t)(b + 2), (unsigned)(k + 2)); same(c, m, {a, b + 2, k + 2}, "dim3 of mixed types"); }
    c.state(mc::Hash().i(1).i(a).i(b).i(k).i(fill));
}

template <int N> void valueOps(Ctx& c, std::vector<int> a, std::vector<int> b, int fill) {
    auto mk = [&](Dirty<Dim<N>>& s, const std::vector<int>& v) -> Dim<N>& {
        if constexpr (N == 2) return s.make(fill, v[0], v[1]); else if constexpr (N == 3) return s.make(fill, v[0], v[1], v[2]); else return s.make(fill, v[0], v[1], v[2], v[3]); };
    Dirty<Dim<N>> sa, sb; Dim<N>& A = mk(sa, a); Dim<N>& B = mk(sb, b);
    std::vector<int> va(a.begin(), a.begin() + N), vb(b.begin(), b.begin() + N), s(N), d(N);
    for (int i = 0; i < N; i++) { s[i] = va[i] + vb[i]; d[i] = va[i] - vb[i]; }
    c.require((A == B) == (va == vb), "== wrong"); c.require((A != B) == (va != vb), "!= wrong");
    same(c, A + B, s, "sum"); same(c, A - B, d, "difference"); same(c, A, va, "left operand after"); same(c, B, vb, "right operand after");
    { Dim<N> q(A); same(c, q, va, "copy"); same(c, A, va, "copied-from"); q = B; same(c, q, vb, "copy assignment"); same(c, B, vb, "assigned-from"); const Dim<N>& r = q; q = r; same(c, q, vb, "self assignment"); }
    { Dim<N> t(A); Dim<N> q(std::move(t)); same(c, q, va, "move construction"); Dim<N> u(B); q = std::move(u); same(c, q, vb, "move assignment"); }
    { std::ostringstream o; o << A; std::string e = "("; for (int i = 0; i < N; i++) e += std::to_string(va[i]) + (i + 1 < N ? ", " : ")"); c.require(o.str() == e, "printed as %s, expected %s", o.str().c_str(), e.c_str()); }
    c.step(9);
}
static void arithmetic(Ctx& c) {
    int hi = c.thorough() ? 3 : 2, lo = c.thorough() ? -2 : -1;
    std::vector<int> a, b; for (int i = 0; i < 3; i++) a.push_back(c.range(lo, hi)); c.shard_point(); for (int i = 0; i < 3; i++) b.push_back(c.range(lo, hi));
    a.push_back(a[0] ^ b[2]); b.push_back(b[0] ^ a[1]);
    int fill = c.pick(std::vector<int>{0xFF, 0x00}, "memory content");
    c.note("a=(%d,%d,%d) b=(%d,%d,%d)", a[0], a[1], a[2], b[0], b[1], b[2]);
    valueOps<2>(c, a, b, fill); valueOps<3>(c, a, b, fill); valueOps<4>(c, a, b, fill);
    mc::Hash h; h.i(2); for (int v : a) h.i(v); for (int v : b) h.i(v); c.state(h);
}

template <int N> void box(Ctx& c, Dim<N> dim) {
    size_t n = 1; for (int i = 0; i < N; i++) n *= (size_t)dim.data[i];
    c.require(dim.size() == n, "size is %zu, expected %zu", dim.size(), n);
    if (!n) { c.step(); return; }
    std::vector<char> seen(n, 0);
    DimIterator<N> it(dim, Dim<N>(0)), post(dim, Dim<N>(0));
    Dim<N> e(0);
    for (size_t k = 0; k < n; k++) {
        size_t r = k; for (int i = 0; i < N; i++) { e.data[i] = (int)(r % dim.data[i]); r /= dim.data[i]; }
        for (int i = 0; i < N; i++) c.require(it.idx.data[i] == e.data[i], "step %zu of the box has component %d = %d, expected %d", k, i, it.idx.data[i], e.data[i]);
        size_t f = dim.getFlatIdx(it.idx);
        c.require(f == k, "flat index of step %zu is %zu", k, f);
        c.require(!seen[f], "flat index %zu twice", f); seen[f] = 1;
        c.require(it == post && it == DimIterator<N>(dim, e), "iterators at the same index differ");
        DimIterator<N> before = post++; c.require(before == it && !(before == post), "post-increment returns the wrong position");
        DimIterator<N>& r2 = ++it; c.require(&r2 == &it, "pre-increment does not return itself"); c.step();
    }
    // one past the end: origin of the next slice
    for (int i = 0; i < N; i++) c.require(it.idx.data[i] == (i == N - 1 ? dim.data[i] : 0), "after the last index component %d is %d", i, it.idx.data[i]);
    c.require(it == post, "iterators past the end differ");
}
static void boxes(Ctx& c) {
    int hi = c.thorough() ? 9 : 6;
    int x = c.range(0, hi), y = c.range(0, hi); c.shard_point(); int z = c.range(0, hi); int w = c.range(0, 2);
    c.note("box (%d,%d,%d,%d)", x, y, z, w);
    box<3>(c, dim3(x, y, z)); if (w == 0) box<2>(c, dim2(x, y)); if (z <= 3 && w > 0) box<4>(c, Dim<4>(x, y, z, w));
    c.state(mc::Hash().i(3).i(x).i(y).i(z).i(w));
}
// large boxes: positions computed in 64 bits, checked at every combination of boundary coordinates
static void largeBoxes(Ctx& c) {
    static const std::vector<int> S = {1, 2, 255, 256, 1000, 46341, 65536, 100000};
    int x = c.pick(S), y = c.pick(S); c.shard_point(); int z = c.pick(S);
    c.note("large box (%d,%d,%d)", x, y, z);
    dim3 d(x, y, z); unsigned __int128 n = (unsigned __int128)x * y * z;
    c.require((unsigned __int128)d.size() == n, "size of (%d,%d,%d) is %zu", x, y, z, d.size());
    for (int i : {0, 1, x / 2, x - 1}) for (int j : {0, 1, y / 2, y - 1}) for (int k : {0, 1, z / 2, z - 1}) {
        if (i >= x || j >= y || k >= z) continue;
        size_t e = ((size_t)k * y + j) * x + i; c.step();
        c.require(d.getFlatIdx(dim3(i, j, k)) == e, "flat index of (%d,%d,%d) in (%d,%d,%d) is %zu, expected %zu", i, j, k, x, y, z, d.getFlatIdx(dim3(i, j, k)), e);
        DimIterator<3> it(d, dim3(i, j, k)); ++it;
        size_t q = e + 1; int ex = q % x, ey = q / x % y, ez = (int)(q / x / y);
        c.require(it.idx.x == ex && it.idx.y == ey && it.idx.z == ez, "successor of (%d,%d,%d) is (%d,%d,%d)", i, j, k, it.idx.x, it.idx.y, it.idx.z);
    }
    c.state(mc::Hash().i(4).i(x).i(y).i(z));
}

int main(int argc, char** argv) {
    return mc::run(argc, argv, "C20", {{"constructors", constructors}, {"arithmetic", arithmetic}, {"boxes", boxes}, {"largeBoxes", largeBoxes}},
        "constructors with 0..5 components of 8 integer types over all component values -2..3 and 4 prior memory contents; arithmetic, comparison, copy, move over all pairs of values with components -1..2 (thorough -2..3); all boxes up to 6^3 (thorough 9^3) stepped completely; 512 large boxes at all boundary coordinates");
}

// C08: pooling forwards window extremes/means and routes gradients back.
#include "mc.h"
#include "conv.h"
#include "cnn_from_scratch/Layers/Pooling.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

static const PoolingType KIND[3] = {MAX, MIN, AVG};
static const char* KN[3] = {"max", "min", "mean"};
struct Cfg { int px, py, sx, sy, kind; };
static std::string str(const Cfg& k, const Ten& in) { return mc::fmt("%s pooling (%d,%d) stride (%d,%d) of %s", KN[k.kind], k.px, k.py, k.sx, k.sy, show(in).c_str()); }
static Cfg chooseCfg(Ctx& c, int pmax, int smax) {
    Cfg k; k.kind = c.choose(3, "kind"); k.px = c.range(1, pmax, "window rows"); k.py = c.range(1, pmax, "window columns"); k.sx = c.range(1, smax, "row stride"); k.sy = c.range(1, smax, "column stride"); return k;
}
static Ten pattern(int x, int y, int z, int pat) {
    Ten t(x, y, z);
    for (size_t i = 0; i < t.v.size(); i++) {
        uint32_t h = (uint32_t)(i * 2654435761u + 7919); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
        switch (pat) {
        case 0: t.v[i] = (double)(i + 1); break;
        case 1: t.v[i] = -(double)(i + 1); break;
        case 2: t.v[i] = (double)(h % 1000) - 1500; break;           // all negative, unordered
        case 3: t.v[i] = (double)(h % 3) - 1; break;                  // many ties
        case 4: t.v[i] = -2.5; break;                                 // all equal
        default: t.v[i] = std::ldexp((double)(h % 2001) - 1000, (int)(h >> 20) % 40 - 20); break;
        }
    }
    return t;
}
static void checkForward(Ctx& c, const SimpleMatrix<double>& o, const Cfg& k, const Ten& in) { expectTen(c, o, ref::pool(in, k.px, k.py, k.sx, k.sy, k.kind), k.kind == 2 ? 1e-13 : 0, "pooled output"); }
// the gradient is admissible if every output entry's share goes to one entry of its window that attains the extreme
static void checkBackward(Ctx& c, Pooling& P, const Cfg& k, const Ten& in, const SimpleMatrix<double>& Z, int slot, const std::string& what) {
    Ten e = ref::pool(in, k.px, k.py, k.sx, k.sy, k.kind);
    const SimpleMatrix<double> X = toM<double>(in);
    if (k.kind == 2) {
        Ten g(e.x, e.y, e.z); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = (double)((i * 37) % 11) - 4 + (i % 4) / 3.0;
        SimpleMatrix<double> d = P.propagateBackward(X, Z, toM<double>(g), slot, false); c.step();
        expectTen(c, d, ref::poolGrad(in, k.px, k.py, k.sx, k.sy, 2, g), 1e-13, (what + ": gradient of the mean").c_str());
        return;
    }
    // powers of two identify the output entries; at most 50 of them at a time
    size_t n = e.v.size(); std::vector<int> seen(n);
    for (size_t lo = 0; lo < n; lo += 50) {
        Ten g(e.x, e.y, e.z); for (size_t i = lo; i < std::min(n, lo + 50); i++) g.v[i] = std::ldexp(1.0, (int)(i - lo));
        SimpleMatrix<double> d = P.propagateBackward(X, Z, toM<double>(g), slot, false); c.step();
        expectShape(c, d, in.x, in.y, in.z, (what + ": gradient").c_str());
        for (int q = 0; q < in.z; q++) for (int b = 0; b < in.y; b++) for (int a = 0; a < in.x; a++) {
            double v = d(a, b, q); c.require(v >= 0 && v == std::floor(v) && v < std::ldexp(1.0, 50), "%s: gradient of (%d,%d,%d) is %g", what.c_str(), a, b, q, v);
            uint64_t m = (uint64_t)v;
            for (int bit = 0; m; bit++, m >>= 1) if (m & 1) {
                size_t o = lo + bit; c.require(o < n, "%s: gradient of (%d,%d,%d) is not a sum of output gradients", what.c_str(), a, b, q);
                int i = (int)(o % e.x), j = (int)(o / e.x % e.y), z = (int)(o / e.x / e.y);
                bool in_w = z == q && a >= i * k.sx && a < i * k.sx + k.px && b >= j * k.sy && b < j * k.sy + k.py;
                c.require(in_w && in.at(a, b, q) == e.v[o], "%s: output gradient (%d,%d,%d) went to (%d,%d,%d), which is not an extreme of its window", what.c_str(), i, j, z, a, b, q);
                seen[o]++;
            }
        }
    }
    for (size_t o = 0; o < n; o++) c.require(seen[o] == 1, "%s: output gradient %zu was passed on %d times", what.c_str(), o, seen[o]);
}
static void one(Ctx& c, const Cfg& k, const Ten& in) {
    c.note("%s", str(k, in).c_str());
    Pooling P(dim2(k.px, k.py), dim2(k.sx, k.sy), KIND[k.kind]);
    SimpleMatrix<double> o = P.propagateForward(toM<double>(in)); c.step();
    checkForward(c, o, k, in);
    checkBackward(c, P, k, in, o, 0, "without a batch");
    P.setBatchSize(3);
    for (int slot : {2, 0}) { SimpleMatrix<double> o2 = P.propagateForward(toM<double>(in), slot); c.step(); checkForward(c, o2, k, in); checkBackward(c, P, k, in, o2, slot, "in a batch"); }
    c.state(mc::Hash().i(k.px).i(k.py).i(k.sx).i(k.sy).i(k.kind).i(in.hash()));
}
static void shapes(Ctx& c) {
    bool T = c.thorough();
    Cfg k = chooseCfg(c, T ? 4 : 3, T ? 4 : 3); c.shard_point();
    int m = T ? 8 : 6; int x = k.px + c.choose(m - k.px + 1, "rows"), y = k.py + c.choose(m - k.py + 1, "columns"), z = c.range(1, 3, "channels");
    one(c, k, pattern(x, y, z, c.choose(6, "values")));
}
static void large(Ctx& c) {
    struct L { int x, y, z; Cfg k; };
    static const std::vector<L> l = {{28, 28, 2, {2, 2, 2, 2, 0}}, {300, 2, 1, {2, 1, 1, 1, 0}}, {2, 300, 1, {1, 3, 2, 2, 0}}, {2, 2, 300, {2, 2, 1, 1, 0}}, {24, 25, 3, {5, 3, 3, 2, 0}}, {290, 3, 1, {270, 2, 5, 1, 0}}, {7, 600, 1, {3, 1, 2, 280, 0}}, {6, 6, 1, {6, 6, 9, 9, 0}}};
    L e = c.pick(l, "configuration"); e.k.kind = c.choose(3, "kind"); c.shard_point();
    one(c, e.k, pattern(e.x, e.y, e.z, c.choose(6, "values")));
}
// all inputs over a small set of values
// more rows or columns than a float can count, few windows
static void huge(Ctx& c) {
    static const std::vector<int> N{(1 << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 2, (1 << 24) + 3}, S{1 << 24, (1 << 24) - 1, 1 << 23, (1 << 23) + 1, 5592405, 3000000};
    int n = c.pick(N, "length"), st = c.pick(S, "stride"), w = c.range(1, 3, "window"), kind = c.choose(3, "kind"); bool rows = c.flip("rows"); c.shard_point(); if (w == 2 && !c.thorough()) c.discard();
    SimpleMatrix<double> in(rows ? dim3(n, 1, 1) : dim3(1, n, 1)); int e = (n - w) / st + 1; for (int i = 0; i < e; i++) for (int j = 0; j < w; j++) in[(size_t)i * st + j] = i * 10 + (j * 2) % 3 + 1;
    Pooling P(rows ? dim2(w, 1) : dim2(1, w), rows ? dim2(st, 1) : dim2(1, st), (PoolingType)kind); c.note("%d %s, window %d, stride %d, kind %d", n, rows ? "rows" : "columns", w, st, kind);
    auto o = P.propagateForward(SimpleMatrix<double>(in), 0); c.step(); expectShape(c, o, rows ? e : 1, rows ? 1 : e, 1, "pooled output"); SimpleMatrix<double> g(o.dim());
    for (int i = 0; i < e; i++) { double m = i * 10 + 1, v = w == 1 ? m : kind == 0 ? m + 2 : kind == 1 ? m : w == 2 ? m + 1 : m + 1; g[i] = 6 + i; c.require(std::fabs(o[i] - v) < 1e-9, "window %d gives %g, expected %g", i, o[i], v); }
    auto d = P.propagateBackward(in, o, g, 0, false); c.step(); expectShape(c, d, rows ? n : 1, rows ? 1 : n, 1, "gradient"); for (int i = 0; i < e; i++) { double a = 0; for (int j = 0; j < w; j++) a += d[(size_t)i * st + j]; c.require(std::fabs(a - g[i]) < 1e-9, "window %d gets a gradient of %g instead of %g", i, a, g[i]); }
    c.state(mc::Hash().i(n).i(st).i(w).i(kind).i(rows));
}
static void values(Ctx& c) {
    static const std::vector<double> V{-1, 0, 2};
    static const std::vector<std::array<int, 2>> S{{2, 2}, {3, 2}, {2, 3}, {1, 4}};
    Cfg k = chooseCfg(c, 2, 2); auto s = c.pick(S, "shape"); if (s[0] < k.px || s[1] < k.py) c.discard(); c.shard_point();
    Ten in(s[0], s[1], 1); for (double& d : in.v) d = c.pick(V, "value");
    one(c, k, in);
}
// histories of forward and backward passes over the slots of a batch
static void histories(Ctx& c) {
    static const std::vector<Cfg> K{{2, 2, 1, 1, 0}, {2, 2, 2, 2, 1}, {2, 1, 1, 2, 2}, {1, 2, 2, 1, 0}};
    Cfg k = c.pick(K, "configuration");
    std::vector<Ten> in{pattern(3, 4, 1, 2), pattern(4, 3, 2, 3), pattern(3, 4, 1, 1)};
    Pooling P(dim2(k.px, k.py), dim2(k.sx, k.sy), KIND[k.kind]);
    int slots = 1, cur[3] = {-1, -1, -1}; SimpleMatrix<double> Z[3];
    int depth = c.thorough() ? 6 : 5; mc::Hash h;
    for (int d = 0; d < depth; d++) {
        if (d == 2) c.shard_point();
        // 0 stop, 1 set the batch size, then forward(slot, input), then backward(slot)
        int nb = 0; for (int s = 0; s < slots; s++) nb += cur[s] >= 0;
        int op = c.choose(1 + 1 + slots * 3 + nb, "operation");
        if (op == 0) break;
        if (op == 1) { slots = slots == 1 ? 3 : slots - 1; P.setBatchSize(slots); for (int& s : cur) s = -1; c.note("setBatchSize %d", slots); }
        else if (op < 2 + slots * 3) { int s = (op - 2) / 3, i = (op - 2) % 3; Z[s] = P.propagateForward(toM<double>(in[i]), s); c.note("forward slot %d input %d", s, i); checkForward(c, Z[s], k, in[i]); cur[s] = i; }
        else { int b = op - 2 - slots * 3, s = 0; for (; s < slots; s++) if (cur[s] >= 0 && b-- == 0) break; c.note("backward slot %d", s); checkBackward(c, P, k, in[cur[s]], Z[s], s, "in a history"); }
        c.step(); h.i(op); c.state(mc::Hash().i(k.kind).i(k.px).i(k.sx).i(cur[0]).i(cur[1]).i(cur[2]).i(slots).i(op));
    }
    // every slot still answers for its own last input
    for (int s = 0; s < slots; s++) if (cur[s] >= 0) checkBackward(c, P, k, in[cur[s]], Z[s], s, "at the end of a history");
}
// two layers of different configuration used alternately
static void pairs(Ctx& c) {
    struct P { Cfg k; int x, y, z; }; static std::vector<P> M[2]; auto& m = M[c.thorough()];
    if (m.empty()) for (int kind = 0; kind < 3; kind++) for (int px = 1; px <= 2; px++) for (int py = 1; py <= 2; py++) for (int s = 0; s < (c.thorough() ? 4 : 2); s++) for (int x = px; x <= 3; x++) for (int y = py; y <= 3; y++) m.push_back({{px, py, s == 0 || s == 3 ? 1 : 2, s == 0 || s == 2 ? 1 : 2, kind}, x, y, 1 + (x + y + s) % 2});
    P k[2]; k[0] = c.pick(m, "first layer"); c.shard_point(); k[1] = c.pick(m, "second layer"); std::unique_ptr<Pooling> L[2]; Ten in[2]; SimpleMatrix<double> Z[2]; mc::Hash h;
    for (int i : {0, 1}) { in[i] = pattern(k[i].x, k[i].y, k[i].z, 2 + i); L[i].reset(new Pooling(dim2(k[i].k.px, k[i].k.py), dim2(k[i].k.sx, k[i].k.sy), KIND[k[i].k.kind])); L[i]->setBatchSize(2); h.i(in[i].hash()).i(k[i].k.kind).i(k[i].k.px).i(k[i].k.py).i(k[i].k.sx).i(k[i].k.sy); }
    c.note("%s and %s", str(k[0].k, in[0]).c_str(), str(k[1].k, in[1]).c_str());
    for (int r = 0; r < 2; r++) { for (int i : {0, 1}) { Z[i] = L[i]->propagateForward(toM<double>(in[i]), r); checkForward(c, Z[i], k[i].k, in[i]); c.step(); } for (int i : {0, 1}) checkBackward(c, *L[i], k[i].k, in[i], Z[i], r, i ? "second layer" : "first layer"); }
    c.state(h);
}
// very small and very large values and gradients
static void magnitudes(Ctx& c) {
    static const std::vector<int> E{-1000, -400, -100, -40, -20, 0, 20, 40, 100, 400, 1000}; static const std::vector<Cfg> K{{1, 1, 1, 1, 0}, {2, 2, 2, 2, 0}, {2, 1, 1, 1, 0}, {1, 2, 2, 1, 0}, {2, 4, 1, 2, 0}, {2, 2, 3, 3, 0}};
    Cfg k = c.pick(K, "configuration"); k.kind = c.choose(3, "kind"); int a = c.pick(E, "magnitude of the input"), b = c.pick(E, "magnitude of the gradient"); c.shard_point(); int p = c.choose(2, "signs");
    Ten in = pattern(5, 6, 2, p); for (double& d : in.v) d = std::ldexp(d * 1.5, a); c.note("%s pooling (%d,%d) stride (%d,%d), input times 2^%d, gradient times 2^%d", KN[k.kind], k.px, k.py, k.sx, k.sy, a, b);
    Pooling P(dim2(k.px, k.py), dim2(k.sx, k.sy), KIND[k.kind]); P.setBatchSize(1); const SimpleMatrix<double> X = toM<double>(in), Z = P.propagateForward(SimpleMatrix<double>(X), 0); Ten o = ref::pool(in, k.px, k.py, k.sx, k.sy, k.kind); expectTen(c, Z, o, 0, "pooled output");
    Ten g(o.x, o.y, o.z); for (size_t i = 0; i < g.v.size(); i++) g.v[i] = std::ldexp((double)((i * 37) % 11) - 4, b); expectTen(c, P.propagateBackward(X, Z, toM<double>(g), 0, false), ref::poolGrad(in, k.px, k.py, k.sx, k.sy, k.kind, g), 0, "gradient"); c.step(2); c.state(mc::Hash().i(k.px).i(k.py).i(k.sx).i(k.kind).i(in.hash()).i(g.hash()));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C08", {{"shapes", shapes}, {"large shapes", large}, {"huge shapes", huge}, {"values", values}, {"histories", histories}, {"pairs", pairs}, {"magnitudes", magnitudes}},
        "all window sizes up to 3x3 (thorough 4x4), strides up to 3x3 (4x4), inputs up to 6x6x3 (8x8x3), 3 kinds, 6 value patterns; 8 large shapes; 5 lengths around 2^24 as rows and as columns with 6 strides and 3 windows; all inputs over {-1,0,2} of 4 shapes; all histories of up to 5 (6) batch-size/forward/backward operations on up to 3 slots with 3 inputs of different shapes; all pairs of 150 (300) layers used alternately; 6 configurations with inputs and gradients over 11 powers of two from 2^-1000 to 2^1000");
}

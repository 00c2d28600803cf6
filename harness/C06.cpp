// C06: convolution layer output is the biased multi-channel correlation.
#include "fixedrand.h"
#include "convcfg.h"

static void one(Ctx& c, const ConvCfg& k, const Ten& in, const Ten& w, const std::vector<double>& b, double tol) {
    c.note("%s", str(k).c_str());
    std::unique_ptr<Kernel> K(new Kernel(dim3(k.kx, k.ky, k.ch), k.nf, k.s));
    setParams(c, *K, w, b);
    Ten e = ref::conv(in, w, b, k.nf, k.s);
    SimpleMatrix<double> x = toM<double>(in);
    SimpleMatrix<double> o = K->propagateForward(SimpleMatrix<double>(x), 0); c.step();
    expectTen(c, o, e, tol, "output");
    Ten bt(k.nf, 1, 1); bt.v = b;
    expectTen(c, K->weights, w, 0, "weights after the forward pass"); expectTen(c, K->biases, bt, 0, "biases after the forward pass");
    expectTen(c, SimpleMatrix<double>(x), in, 0, "input");
    // a second input of another size through the same layer, then the first again
    Ten in2(in.x + 1, in.y + 2, in.z); fill(in2, 0, 77);
    expectTen(c, K->propagateForward(toM<double>(in2), 0), ref::conv(in2, w, b, k.nf, k.s), tol, "output for a second input");
    ModelLayer& L = *K;
    expectTen(c, L.propagateForward(toM<double>(in)), e, tol, "output for the first input again"); c.step(2);
    c.state(mc::Hash().i(k.s).i(in.hash()).i(w.hash()).i(bt.hash()));
}
static void generic(Ctx& c, const ConvCfg& k, int pat) {
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf), b(k.nf, 1, 1);
    fill(in, pat, 1); fill(w, pat, 2); fill(b, pat, 3);
    one(c, k, in, w, b.v, 1e-12);
}
static void shapes(Ctx& c) { ConvCfg k = chooseCfg(c, c.thorough() ? 2 : 1); generic(c, k, c.choose(NPAT, "values")); }
static void large(Ctx& c) { ConvCfg k = chooseLarge(c); generic(c, k, c.choose(NPAT, "values")); }
// the output is bilinear in input and weights: every pair of one input entry and one weight
static void units(Ctx& c) {
    static const std::vector<ConvCfg> L = {{2, 2, 1, 1, 1, 3, 4}, {1, 3, 2, 2, 1, 3, 4}, {3, 1, 2, 2, 2, 5, 2}, {2, 3, 1, 3, 2, 4, 5}, {2, 2, 3, 2, 1, 3, 3}, {2, 1, 2, 3, 3, 5, 4}};
    ConvCfg k = c.pick(L, "configuration");
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf); std::vector<double> b(k.nf);
    int u = c.choose((int)in.size() + 1, "input entry"); c.shard_point(); int v = c.choose((int)w.size() + 1, "weight");
    if (u) in.v[u - 1] = 3; if (v) w.v[v - 1] = 5; for (int i = 0; i < k.nf; i++) b[i] = (u + v) % 2 ? 0 : i + 1;
    one(c, k, in, w, b, 0);
}
// all small integer inputs and weights
static void values(Ctx& c) {
    ConvCfg k{2, 1, 1, 1, 1, 3, 1}; if (c.flip("columns")) k = {1, 2, 1, 1, 1, 1, 3};
    Ten in(k.x, k.y, 1), w(k.kx, k.ky, 1); static const std::vector<double> V{-2, 0, 1, 1048576}, W{-1, 0, 2, 1.0 / 1048576};
    for (double& d : in.v) d = c.pick(V, "input value"); c.shard_point();
    for (double& d : w.v) d = c.pick(W, "weight value");
    one(c, k, in, w, {c.pick(V, "bias")}, 0);   // exact in any order of summation
}
// a new layer, for extreme random draws
static void creation(Ctx& c) {
    int mode = c.choose(5, "random draws"), kx = c.range(1, 3, "filter rows"), ky = c.range(1, 3, "filter columns"), ch = c.range(1, 3, "channels"), nf = c.range(1, 3, "filters"); c.shard_point();
    mc_rand_mode() = mode; std::unique_ptr<Kernel> K; try { K.reset(new Kernel(dim3(kx, ky, ch), nf, 1)); } catch (...) { mc_rand_mode() = 0; throw; } mc_rand_mode() = 0; c.step(); c.note("random draws %d, %d filters (%d,%d,%d)", mode, nf, kx, ky, ch);
    expectShape(c, K->weights, kx, ky, ch * nf, "weights"); expectShape(c, K->biases, nf, 1, 1, "biases"); double sw = 0, sb = 0; for (double v : K->weights) sw += v * v; for (double v : K->biases) sb += v * v;
    c.require(std::fabs(std::sqrt(sw) - 1) < 1e-9 && std::fabs(std::sqrt(sb) - 1) < 1e-9, "the parameters of a new layer are not normalised: weights %g, biases %g", std::sqrt(sw), std::sqrt(sb));
    Ten w = fromM(K->weights), in(kx + 1, ky + 2, ch); fill(in, 0, 1); std::vector<double> b; for (double v : K->biases) b.push_back(v); expectTen(c, K->propagateForward(toM<double>(in)), ref::conv(in, w, b, nf, 1), 1e-12, "output of a new layer"); c.state(mc::Hash().i(mode).i(kx).i(ky).i(ch).i(nf));
}
// two layers of different configuration used alternately
static void pairs(Ctx& c) {
    auto& M = pairMenu(c.thorough()); ConvCfg k[2]; k[0] = c.pick(M, "first layer"); c.shard_point(); k[1] = c.pick(M, "second layer"); c.note("%s, then %s", str(k[0]).c_str(), str(k[1]).c_str());
    std::unique_ptr<Kernel> K[2]; Ten in[2], e[2]; mc::Hash h;
    for (int i = 0; i < 2; i++) { Ten w(k[i].kx, k[i].ky, k[i].ch * k[i].nf), b(k[i].nf, 1, 1); in[i] = Ten(k[i].x, k[i].y, k[i].ch); fill(in[i], 1, 1); fill(w, 3, 2); fill(b, 0, 3 + i); K[i].reset(new Kernel(dim3(k[i].kx, k[i].ky, k[i].ch), k[i].nf, k[i].s)); setParams(c, *K[i], w, b.v); e[i] = ref::conv(in[i], w, b.v, k[i].nf, k[i].s); }
    for (int i : {0, 1, 1, 0}) { expectTen(c, K[i]->propagateForward(toM<double>(in[i]), 0), e[i], 0, i ? "output of the second layer" : "output of the first layer"); c.step(); h.i(in[i].hash()).i(e[i].hash()); }
    c.state(h.i(5));
}
// very small and very large operands
static void magnitudes(Ctx& c) {
    ConvCfg k = c.pick(scaledMenu(), "configuration"); int a = c.pick(exponents(), "magnitude of the input"), b = c.pick(exponents(), "magnitude of the weights"); c.shard_point(); int p = c.choose(2, "values"), m = c.choose(3, "magnitude of the biases");
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf), bt(k.nf, 1, 1); fill(in, p * 2, 1); fill(w, p * 2, 2); fill(bt, 1, 3); c.note("%s, input times 2^%d, weights times 2^%d, biases %d", str(k).c_str(), a, b, m);
    // the biases as large as the products, or alone
    if (m == 1) for (double& d : w.v) d = 0; if (m == 2) for (double& d : bt.v) d = 0;
    scaled(in, a); scaled(w, b); scaled(bt, m == 1 ? b : a + b); Kernel K(dim3(k.kx, k.ky, k.ch), k.nf, k.s); setParams(c, K, w, bt.v);
    expectTen(c, K.propagateForward(toM<double>(in), 0), ref::conv(in, w, bt.v, k.nf, k.s), 0, "output"); c.step(); c.state(mc::Hash().i(k.s).i(in.hash()).i(w.hash()).i(bt.hash()));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C06", {{"shapes", shapes}, {"large shapes", large}, {"unit pairs", units}, {"values", values}, {"pairs", pairs}, {"magnitudes", magnitudes}, {"creation", creation}},
        "all filter sizes up to 5x5 (thorough 6x6), 1..4 channels and filters, strides 1..4 (5), inputs up to 8x8 (11x11), 6 value patterns; 13 large shapes; every (input entry, weight) unit pair of 6 configurations; all inputs and weights over 4 values for a 2-tap filter; all pairs of 128 (344) layers used alternately; 7 configurations with inputs, weights and biases over 9 powers of two from 2^-600 to 2^600; new layers of up to 3 filters 3x3x3 under 5 kinds of extreme random draws");
}

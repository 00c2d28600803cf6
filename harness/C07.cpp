// C07: convolution layer gradients are the exact adjoints of its output.
#include "convcfg.h"

static void one(Ctx& c, const ConvCfg& k, const Ten& in, const Ten& w, const std::vector<double>& b, const Ten& g, double tol, bool history) {
    c.note("%s", str(k).c_str());
    Kernel K(dim3(k.kx, k.ky, k.ch), k.nf, k.s); setParams(c, K, w, b);
    Ten dw, dx; std::vector<double> db; ref::convGrad(in, w, k.nf, k.s, g, dw, db, dx);
    Ten dB(k.nf, 1, 1); dB.v = db;
    const SimpleMatrix<double> X = toM<double>(in), G = toM<double>(g);
    const SimpleMatrix<double> Z = K.propagateForward(SimpleMatrix<double>(X), 0);
    expectShape(c, Z, g.x, g.y, g.z, "output");
    expectTen(c, K.getdLdX(X, G), dx, tol, "input gradient");
    expectTen(c, K.getdLdW(X, G), dw, tol, "weight gradient");
    expectTen(c, K.getdLdB(G), dB, tol, "bias gradient"); c.step(4);
    if (history) {
        // through the layer interface: recorded gradients and the gradient handed on
        K.setBatchSize(2);
        SimpleMatrix<double> d = K.propagateBackward(X, Z, G, 1, false); c.step(2);
        expectTen(c, d, dx, tol, "gradient handed on");
        Ten bt(k.nf, 1, 1); bt.v = b;
        expectTen(c, K.weights, w, 0, "weights before the update"); expectTen(c, K.biases, bt, 0, "biases before the update");
        K.applyBatch(1.0); c.step();
        Ten w2 = w; for (size_t i = 0; i < w2.v.size(); i++) w2.v[i] -= dw.v[i];
        Ten b2 = bt; for (size_t i = 0; i < b2.v.size(); i++) b2.v[i] -= db[i];
        expectTen(c, K.weights, w2, tol, "weights after the update"); expectTen(c, K.biases, b2, tol, "biases after the update");
        // as the first layer of a network the parameters get the same gradients
        Kernel K2(dim3(k.kx, k.ky, k.ch), k.nf, k.s); setParams(c, K2, w, b); K2.setBatchSize(1);
        K2.propagateBackward(X, Z, G, 0, true); K2.applyBatch(1.0); c.step(3);
        expectTen(c, K2.weights, w2, tol, "weights of a first layer after the update"); expectTen(c, K2.biases, b2, tol, "biases of a first layer after the update");
    }
    c.state(mc::Hash().i(k.s).i(in.hash()).i(w.hash()).i(g.hash()));
}
static Ten grad(const ConvCfg& k) { return Ten((k.x - k.kx) / k.s + 1, (k.y - k.ky) / k.s + 1, k.nf); }
static void generic(Ctx& c, const ConvCfg& k, int pat) {
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf), b(k.nf, 1, 1), g = grad(k);
    fill(in, pat, 1); fill(w, pat, 2); fill(b, pat, 3); fill(g, pat, 4);
    one(c, k, in, w, b.v, g, 1e-12, true);
}
static void shapes(Ctx& c) { ConvCfg k = chooseCfg(c, c.thorough() ? 1 : 0); int p = c.choose(c.thorough() ? NPAT : 4, "values"); generic(c, k, c.thorough() ? p : p >= 2 ? p + 2 : p); }
static void large(Ctx& c) { ConvCfg k = chooseLarge(c); generic(c, k, c.choose(NPAT, "values")); }
// linear in the gradient and in input or weights: every pair of one output entry and one input entry / weight
static void units(Ctx& c) {
    static const std::vector<ConvCfg> L = {{2, 2, 1, 1, 1, 3, 4}, {1, 3, 2, 2, 1, 3, 4}, {3, 1, 2, 2, 2, 5, 2}, {2, 3, 1, 3, 2, 4, 5}, {2, 2, 3, 2, 1, 3, 3}, {2, 1, 2, 3, 3, 5, 4}};
    ConvCfg k = c.pick(L, "configuration");
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf), g = grad(k); std::vector<double> b(k.nf, 0.5);
    int o = c.choose((int)g.size(), "output entry"); c.shard_point(); g.v[o] = 7;
    int v = c.choose((int)(w.size() + in.size()), "weight or input entry");
    if (v < (int)w.size()) w.v[v] = 5; else in.v[v - w.size()] = 3;
    one(c, k, in, w, b, g, 0, false);
}
// two layers of different configuration used alternately
static void pairs(Ctx& c) {
    auto& M = pairMenu(c.thorough()); ConvCfg k[2]; k[0] = c.pick(M, "first layer"); c.shard_point(); k[1] = c.pick(M, "second layer"); c.note("%s, then %s", str(k[0]).c_str(), str(k[1]).c_str());
    std::unique_ptr<Kernel> K[2]; Ten in[2], g[2], w[2], dw[2], dx[2], dB[2]; mc::Hash h;
    for (int i = 0; i < 2; i++) { Ten b(k[i].nf, 1, 1); w[i] = Ten(k[i].kx, k[i].ky, k[i].ch * k[i].nf); in[i] = Ten(k[i].x, k[i].y, k[i].ch); g[i] = grad(k[i]); fill(in[i], 1, 1); fill(w[i], 3, 2); fill(g[i], 0, 3 + i); K[i].reset(new Kernel(dim3(k[i].kx, k[i].ky, k[i].ch), k[i].nf, k[i].s)); setParams(c, *K[i], w[i], b.v);
        std::vector<double> db; ref::convGrad(in[i], w[i], k[i].nf, k[i].s, g[i], dw[i], db, dx[i]); dB[i] = b; dB[i].v = db; K[i]->setBatchSize(1); }
    for (int i : {0, 1, 1, 0}) { const char* W = i ? "gradient of the second layer" : "gradient of the first layer"; const SimpleMatrix<double> X = toM<double>(in[i]), G = toM<double>(g[i]), Z = K[i]->propagateForward(SimpleMatrix<double>(X), 0);
        expectTen(c, K[i]->propagateBackward(X, Z, G, 0, false), dx[i], 0, W); K[i]->applyBatch(1); for (size_t j = 0; j < w[i].v.size(); j++) w[i].v[j] -= dw[i].v[j]; expectTen(c, K[i]->weights, w[i], 0, W); c.step(3); h.i(in[i].hash()).i(dx[i].hash());
        std::vector<double> db; ref::convGrad(in[i], w[i], k[i].nf, k[i].s, g[i], dw[i], db, dx[i]); }
    c.state(h.i(5));
}
// very small and very large operands
static void magnitudes(Ctx& c) {
    ConvCfg k = c.pick(scaledMenu(), "configuration"); int a = c.pick(exponents(), "magnitude of the input"), b = c.pick(exponents(), "magnitude of the weights"); c.shard_point(); int p = c.choose(2, "values");
    Ten in(k.x, k.y, k.ch), w(k.kx, k.ky, k.ch * k.nf), bt(k.nf, 1, 1), g = grad(k); fill(in, p * 2, 1); fill(w, p * 2, 2); fill(bt, 1, 3); fill(g, p * 2, 4);
    // the weights are as large as their gradients, so that updates are exact
    scaled(in, a); scaled(w, b); scaled(g, b - a); scaled(bt, b - a); one(c, k, in, w, bt.v, g, 0, true);
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C07", {{"shapes", shapes}, {"large shapes", large}, {"unit pairs", units}, {"pairs", pairs}, {"magnitudes", magnitudes}},
        "all filter sizes up to 4x4 (thorough 5x5), 1..3 channels and filters (4), strides 1..3 (4), inputs up to 6x6 (8x8), 4 (6) value patterns; 13 large shapes; every (output entry, input entry or weight) unit pair of 6 configurations; as inner and as first layer; all pairs of 128 (344) layers used alternately; 7 configurations with inputs and weights over 9 powers of two from 2^-300 to 2^300");
}

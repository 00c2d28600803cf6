// C09: fully connected layer computes W*x+b and its gradients, on a fixed size.
#include "mc.h"
#include "conv.h"
#include "fixedrand.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

static void fill(Ten& t, int pat, int salt) {
    for (size_t i = 0; i < t.v.size(); i++) {
        uint32_t h = (uint32_t)(i * 2654435761u + salt * 40503u + 99); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
        t.v[i] = pat == 0 ? (double)(h % 19) - 9 : pat == 1 ? (double)(i + 1) : pat == 2 ? (double)(h % 3) - 1 : pat == 4 ? 1 + (double)(h % 1000) / 1001 : std::ldexp((double)(h % 2001) - 1000, (int)(h >> 20) % 12 - 10);
    }
}
static void put(SimpleMatrix<double>& m, const Ten& t) { for (int k = 0; k < t.z; k++) for (int j = 0; j < t.y; j++) for (int i = 0; i < t.x; i++) m(i, j, k) = t.at(i, j, k); }
static Ten fc(const Ten& w, const Ten& b, const Ten& in) { Ten o(w.x, 1, 1); for (int i = 0; i < w.x; i++) { double s = 0; for (size_t j = 0; j < in.v.size(); j++) s += w.at(i, (int)j, 0) * in.v[j]; o.v[i] = s + b.v[i]; } return o; }

static void freshParams(Ctx& c, ConnectedLayer& L, int out, int n, Ten& w, Ten& b) {
    expectShape(c, L.weights, out, n, 1, "created weights"); expectShape(c, L.biases, out, 1, 1, "created biases");
    w = fromM(L.weights); b = fromM(L.biases); double sw = 0, sb = 0;
    for (double v : w.v) { c.require(std::isfinite(v), "created weight is %g", v); sw += v * v; }
    for (double v : b.v) { c.require(std::isfinite(v), "created bias is %g", v); sb += v * v; }
    c.require(std::fabs(std::sqrt(sw) - 1) < 1e-9 && std::fabs(std::sqrt(sb) - 1) < 1e-9, "created parameters are not normalised: weights %g, biases %g", std::sqrt(sw), std::sqrt(sb));
}
static void one(Ctx& c, int x, int y, int z, int out, int pat) {
    c.note("%d outputs, input (%d,%d,%d), values %d", out, x, y, z, pat);
    ConnectedLayer L(out); int n = x * y * z; Ten in(x, y, z), w(out, n, 1), b(out, 1, 1), g(out, 1, 1), w0, b0;
    fill(in, pat, 1); fill(w, pat, 2); fill(b, pat, 3); fill(g, pat, 4);
    // first use
    SimpleMatrix<double> o = L.propagateForward(toM<double>(in)); c.step();
    freshParams(c, L, out, n, w0, b0);
    expectTen(c, o, fc(w0, b0, in), 1e-12, "first output");
    // kept on the second
    o = L.propagateForward(toM<double>(in), 0); c.step();
    expectTen(c, L.weights, w0, 0, "weights after a second use"); expectTen(c, L.biases, b0, 0, "biases after a second use"); expectTen(c, o, fc(w0, b0, in), 1e-12, "second output");
    // parameters that are set to zero are kept as well
    { Ten zw(out, n, 1), zb(out, 1, 1); put(L.weights, zw); put(L.biases, zb); for (int i = 0; i < 2; i++) { expectTen(c, L.propagateForward(toM<double>(in)), zb, 0, "output with zero parameters"); expectTen(c, L.weights, zw, 0, "zero weights after a forward pass"); expectTen(c, L.biases, zb, 0, "zero biases after a forward pass"); c.step(); } }
    // set parameters
    put(L.weights, w); put(L.biases, b);
    const SimpleMatrix<double> X = toM<double>(in), G = toM<double>(g), Z = L.propagateForward(SimpleMatrix<double>(X)); c.step();
    expectTen(c, Z, fc(w, b, in), 1e-12, "output"); expectTen(c, L.weights, w, 0, "weights after a forward pass"); expectTen(c, L.biases, b, 0, "biases after a forward pass");
    Ten dw(out, n, 1), dx(x, y, z);
    for (int i = 0; i < out; i++) for (int j = 0; j < n; j++) { dw.at(i, j, 0) = g.v[i] * in.v[j]; dx.v[j] += g.v[i] * w.at(i, j, 0); }
    L.setBatchSize(3);
    SimpleMatrix<double> d = L.propagateBackward(X, Z, G, 2, false); c.step();
    expectTen(c, d, dx, 1e-12, "gradient handed on"); expectTen(c, L.weights, w, 0, "weights before the update");
    L.applyBatch(0.5); c.step();
    Ten w2 = w, b2 = b; for (size_t i = 0; i < w2.v.size(); i++) w2.v[i] -= 0.5 * dw.v[i]; for (size_t i = 0; i < b2.v.size(); i++) b2.v[i] -= 0.5 * g.v[i];
    expectTen(c, L.weights, w2, 1e-12, "weights after the update"); expectTen(c, L.biases, b2, 1e-12, "biases after the update");
    L.propagateBackward(X, Z, G, 0, true); L.applyBatch(0.5); c.step(2);
    for (size_t i = 0; i < w2.v.size(); i++) w2.v[i] -= 0.5 * dw.v[i]; for (size_t i = 0; i < b2.v.size(); i++) b2.v[i] -= 0.5 * g.v[i];
    expectTen(c, L.weights, w2, 1e-12, "weights after an update as first layer"); expectTen(c, L.biases, b2, 1e-12, "biases after an update as first layer");
    c.state(mc::Hash().i(out).i(in.hash()));
}
static void shapes(Ctx& c) {
    bool T = c.thorough(); int m = T ? 6 : 4;
    int out = c.range(1, T ? 8 : 5, "outputs"), x = c.range(1, m, "rows"), y = c.range(1, m, "columns"); c.shard_point(); int z = c.range(1, T ? 4 : 3, "channels");
    one(c, x, y, z, out, c.choose(5, "values"));
}
static void large(Ctx& c) {
    static const std::vector<std::array<int, 4>> L{{28, 28, 1, 10}, {300, 1, 1, 2}, {1, 300, 1, 3}, {1, 1, 300, 2}, {2, 3, 1, 300}, {12, 12, 8, 5}, {1, 1, 1, 260}, {17, 16, 2, 7}};
    auto e = c.pick(L, "shape"); int p = c.choose(5, "values"); c.shard_point(); one(c, e[0], e[1], e[2], e[3], p);
}
// two layers of different size used alternately
static void pairs(Ctx& c) {
    static std::vector<std::array<int, 4>> M; if (M.empty()) for (int o = 1; o <= 3; o++) for (int x = 1; x <= 3; x++) for (int y = 1; y <= 3; y++) for (int z = 1; z <= 2; z++) M.push_back({x, y, z, o});
    std::array<int, 4> k[2]; k[0] = c.pick(M, "first layer"); c.shard_point(); k[1] = c.pick(M, "second layer"); std::unique_ptr<ConnectedLayer> L[2]; Ten in[2], w[2], b[2], g[2]; mc::Hash h;
    for (int i = 0; i < 2; i++) { L[i].reset(new ConnectedLayer(k[i][3])); in[i] = Ten(k[i][0], k[i][1], k[i][2]); fill(in[i], 1, 1); g[i] = b[i] = Ten(k[i][3], 1, 1); w[i] = Ten(k[i][3], (int)in[i].size(), 1); fill(w[i], 0, 2); fill(b[i], 0, 3 + i); fill(g[i], 0, 4 + i); }
    for (int i : {0, 1}) L[i]->propagateForward(toM<double>(in[i])); for (int i : {0, 1}) { put(L[i]->weights, w[i]); put(L[i]->biases, b[i]); L[i]->setBatchSize(1 + i); }
    for (int i : {0, 1, 1, 0}) { const char* W = i ? "second layer" : "first layer"; const SimpleMatrix<double> X = toM<double>(in[i]), Z = L[i]->propagateForward(SimpleMatrix<double>(X), 0); expectTen(c, Z, fc(w[i], b[i], in[i]), 1e-12, W);
        Ten dx(k[i][0], k[i][1], k[i][2]); for (int a = 0; a < w[i].x; a++) for (int j = 0; j < w[i].y; j++) dx.v[j] += g[i].v[a] * w[i].at(a, j, 0);
        expectTen(c, L[i]->propagateBackward(X, Z, toM<double>(g[i]), 0, false), dx, 1e-12, W); L[i]->applyBatch(0.5);
        for (int a = 0; a < w[i].x; a++) { for (int j = 0; j < w[i].y; j++) w[i].at(a, j, 0) -= 0.5 * g[i].v[a] * in[i].v[j]; b[i].v[a] -= 0.5 * g[i].v[a]; } expectTen(c, L[i]->weights, w[i], 1e-12, W); expectTen(c, L[i]->biases, b[i], 1e-12, W); c.step(3); h.i(w[i].hash()); }
    c.note("layers %d and %d", k[0][3], k[1][3]); c.state(h);
}
// parameter creation for extreme random draws
static void creation(Ctx& c) {
    int mode = c.choose(5, "random draws"), out = c.range(1, 4, "outputs"), x = c.range(1, 3, "rows"), y = c.range(1, 3, "columns"); c.shard_point();
    mc_rand_mode() = mode; ConnectedLayer L(out); Ten in(x, y, 1), w, b; fill(in, 1, 1);
    SimpleMatrix<double> o; try { o = L.propagateForward(toM<double>(in)); } catch (...) { mc_rand_mode() = 0; throw; }
    mc_rand_mode() = 0; c.step(); c.note("random draws %d, %d outputs", mode, out);
    freshParams(c, L, out, x * y, w, b); expectTen(c, o, fc(w, b, in), 1e-12, "output"); c.state(mc::Hash().i(mode).i(out).i(x).i(y));
}
// histories: uses with right and wrong sizes, setting, training, loading
static void histories(Ctx& c) {
    mc_rand_state() = 1;
    static const std::vector<std::array<int, 3>> S{{2, 3, 1}, {6, 1, 1}, {1, 2, 3}, {2, 2, 1}, {3, 3, 1}, {7, 1, 1}, {1, 1, 5}};
    auto first = S[c.choose(3, "first shape")]; int out = c.range(1, 2, "outputs");
    ConnectedLayer L(out); Ten w, b, in0(first[0], first[1], first[2]); fill(in0, 0, 1);
    L.propagateForward(toM<double>(in0)); freshParams(c, L, out, 6, w, b); c.step();
    int batch = 0; std::vector<std::optional<Ten>> pend;   // recorded output gradients (all with input in0)
    int depth = c.thorough() ? 6 : 4;
    for (int d = 0; d < depth; d++) {
        if (d == 1) c.shard_point();
        int op = c.choose(1 + (int)S.size() + 5, "operation"); if (op == 0) break; op--;
        if (op < (int)S.size()) {
            auto s = S[op]; Ten in(s[0], s[1], s[2]); fill(in, 0, d + 5); bool ok = in.size() == 6, threw = false; SimpleMatrix<double> o;
            try { o = L.propagateForward(toM<double>(in)); } catch (std::exception&) { threw = true; }
            c.note("forward (%d,%d,%d)", s[0], s[1], s[2]);
            c.require(threw == !ok, "input of %zu elements for a layer of 6 inputs %s", in.size(), ok ? "is rejected" : "is accepted");
            if (ok) expectTen(c, o, fc(w, b, in), 1e-12, "output");
        } else switch (op - (int)S.size()) {
            case 0: c.note("set"); fill(w, d % 2 ? 3 : 4, d + 1); fill(b, 3, d + 2); if (d == 2) for (Ten* t : {&w, &b}) for (double& v : t->v) v = 0; put(L.weights, w); put(L.biases, b); break;
            case 1: c.note("batch size"); batch = batch == 2 ? 1 : 2; L.setBatchSize(batch); pend.assign(batch, std::nullopt); break;
            case 2: { if (!batch) c.discard(); c.note("backward"); Ten g(out, 1, 1); fill(g, 0, d + 9); Ten dx(first[0], first[1], first[2]);
                for (int i = 0; i < out; i++) for (int j = 0; j < 6; j++) dx.v[j] += g.v[i] * w.at(i, j, 0);
                SimpleMatrix<double> X = toM<double>(in0), Z = toM<double>(fc(w, b, in0));
                expectTen(c, L.propagateBackward(X, Z, toM<double>(g), batch - 1, false), dx, 1e-12, "gradient handed on"); pend[batch - 1] = g; break; }
            case 3: { if (!batch) c.discard(); c.note("apply"); L.applyBatch(0.25); int n = 0; for (auto& p : pend) n += !!p;
                for (auto& p : pend) if (p) for (int i = 0; i < out; i++) { for (int j = 0; j < 6; j++) w.at(i, j, 0) -= 0.25 * p->v[i] * in0.v[j] / n; b.v[i] -= 0.25 * p->v[i] / n; }
                pend.assign(batch, std::nullopt); break; }
            default: { c.note("load"); std::stringstream ss; ss << L.serialize(); ConnectedLayer M(1); c.require(M.deserialize(ss), "a layer does not read its own text");
                Ten in(first[0], first[1], first[2]); fill(in, 2, 3); SimpleMatrix<double> o = M.propagateForward(toM<double>(in));
                Ten wr = fromM(M.weights), br = fromM(M.biases); c.require(wr.same(w) && br.same(b), "loaded parameters have another shape");
                for (size_t i = 0; i < w.v.size(); i++) c.require(std::fabs(wr.v[i] - w.v[i]) <= 5.1e-7, "loaded weight is %.9g, expected %.9g", wr.v[i], w.v[i]);
                expectTen(c, o, fc(wr, br, in), 1e-12, "output of the loaded layer");
                bool threw = false; try { M.propagateForward(SimpleMatrix<double>(dim3(2, 2, 1), 1.0)); } catch (std::exception&) { threw = true; } c.require(threw, "a loaded layer accepts an input of another size");
                expectTen(c, M.weights, wr, 0, "weights of the loaded layer"); }
        }
        c.step(); expectTen(c, L.weights, w, 1e-11, "weights"); expectTen(c, L.biases, b, 1e-11, "biases");
        c.state(mc::Hash().i(op).i(w.hash()).i(b.hash()).i(batch));
    }
}
// very small and very large operands: small integers times powers of two, so that every result is exact
static void magnitudes(Ctx& c) {
    static const std::vector<int> E{-300, -100, -40, -20, 0, 20, 40, 100, 300}; static const std::vector<std::array<int, 4>> S{{1, 1, 1, 1}, {2, 3, 1, 2}, {3, 1, 2, 3}, {4, 4, 2, 5}};
    auto s = c.pick(S, "shape"); int a = c.pick(E, "magnitude of the input"), e = c.pick(E, "magnitude of the weights"); c.shard_point(); int p = c.choose(2, "values"), m = c.choose(3, "magnitude of the biases"); c.note("%d outputs, input (%d,%d,%d) times 2^%d, weights times 2^%d, biases %d", s[3], s[0], s[1], s[2], a, e, m);
    Ten in(s[0], s[1], s[2]), w(s[3], (int)in.size(), 1), b(s[3], 1, 1), g(s[3], 1, 1); fill(in, p * 2, 1); fill(w, p * 2, 2); fill(b, 1, 3); fill(g, p * 2, 4);
    if (m == 1) for (double& d : w.v) d = 0; if (m == 2) for (double& d : b.v) d = 0;
    for (double& d : in.v) d = std::ldexp(d, a); for (double& d : w.v) d = std::ldexp(d, e); for (double& d : b.v) d = std::ldexp(d, m == 1 ? e : a + e); for (double& d : g.v) d = std::ldexp(d, e - a);
    ConnectedLayer L(s[3]); L.propagateForward(toM<double>(in)); put(L.weights, w); put(L.biases, b); const SimpleMatrix<double> X = toM<double>(in), Z = L.propagateForward(SimpleMatrix<double>(X), 0); expectTen(c, Z, fc(w, b, in), 0, "output");
    // the weights are as large as their gradients, so that updates are exact
    Ten b2(s[3], 1, 1); fill(b2, 0, 5); for (double& d : b2.v) d = std::ldexp(d, e - a); put(L.biases, b2); L.setBatchSize(1); Ten dx(s[0], s[1], s[2]);
    for (int i = 0; i < s[3]; i++) { for (size_t j = 0; j < in.v.size(); j++) { dx.v[j] += g.v[i] * w.at(i, (int)j, 0); } }
    expectTen(c, L.propagateBackward(X, Z, toM<double>(g), 0, false), dx, 0, "gradient handed on"); L.applyBatch(2);
    for (int i = 0; i < s[3]; i++) { for (size_t j = 0; j < in.v.size(); j++) w.at(i, (int)j, 0) -= 2 * g.v[i] * in.v[j]; b2.v[i] -= 2 * g.v[i]; } expectTen(c, L.weights, w, 0, "weights after the update"); expectTen(c, L.biases, b2, 0, "biases after the update"); c.step(4); c.state(mc::Hash().i(in.hash()).i(w.hash()).i(b.hash()));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C09", {{"shapes", shapes}, {"large shapes", large}, {"pairs", pairs}, {"magnitudes", magnitudes}, {"creation", creation}, {"histories", histories}},
        "inputs up to 4x4x3 (thorough 6x6x4), 1..5 (8) outputs, 5 value patterns; 8 large shapes; all pairs of 54 layers used alternately; 4 shapes with inputs and weights over 9 powers of two from 2^-300 to 2^300; creation under 5 kinds of extreme random draws; all histories of up to 4 (6) operations among forward with 7 shapes, setting, batch size, backward, apply, save/load");
}

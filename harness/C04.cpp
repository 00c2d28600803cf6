// C04: a batch update applies the mean of exactly that batch's gradients.
#include "mc.h"
#include "conv.h"
#include "fixedrand.h"
#include "cnn_from_scratch/Layers/Kernel.h"
#include "cnn_from_scratch/Layers/ConnectedLayer.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

static void fill(Ten& t, int salt) { for (size_t i = 0; i < t.v.size(); i++) { uint32_t h = (uint32_t)(i * 2654435761u + salt * 40503u + 99); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; t.v[i] = (double)(h % 19) - 9 + (double)(h % 7) / 7; } }
struct Sample { Ten in, g, dw, db; };
// A layer with the samples whose gradients can be recorded
struct Rig {
    std::shared_ptr<ModelLayer> L; std::vector<Sample> s; Ten w, b; bool conv;
    // exact: the parameters and gradients are small integers times 2^e, the inputs small integers
    Rig(int kind, bool exact = false, int e = 0) : conv(kind < 2) {
        static const int C[3][7] = {{2, 2, 1, 1, 1, 3, 3}, {2, 1, 2, 3, 2, 4, 2}, {0, 0, 2, 3, 0, 2, 1}};   // kx ky ch nf/out stride x y
        const int* k = C[kind];
        if (conv) { L = std::make_shared<Kernel>(dim3(k[0], k[1], k[2]), k[3], k[4]); w = Ten(k[0], k[1], k[2] * k[3]); }
        else { L = std::make_shared<ConnectedLayer>(k[3]); w = Ten(k[3], k[5] * k[6] * k[2], 1); }
        b = Ten(k[3], 1, 1); fill(w, 1); fill(b, 2); auto mag = [&](Ten& t, int x) { if (exact) for (double& d : t.v) d = std::ldexp(std::round(d), x); }; mag(w, e); mag(b, e);
        for (int i = 0; i < 3; i++) {
            Sample q; q.in = Ten(k[5], k[6], k[2]); fill(q.in, 10 + i); mag(q.in, 0);
            if (conv) { q.g = Ten((k[5] - k[0]) / k[4] + 1, (k[6] - k[1]) / k[4] + 1, k[3]); fill(q.g, 20 + i); mag(q.g, e); Ten dx; std::vector<double> db; ref::convGrad(q.in, w, k[3], k[4], q.g, q.dw, db, dx); q.db = Ten(k[3], 1, 1); q.db.v = db; }
            else { q.g = Ten(k[3], 1, 1); fill(q.g, 20 + i); mag(q.g, e); q.dw = Ten(w.x, w.y, 1); for (int a = 0; a < w.x; a++) for (int j = 0; j < w.y; j++) q.dw.at(a, j, 0) = q.g.v[a] * q.in.v[j]; q.db = q.g; }
            // the third gradient is zero, the second sums to nearly nothing with the first
            if (i == 2) { for (Ten* t : {&q.g, &q.dw, &q.db}) for (double& d : t->v) d = 0; }
            s.push_back(q);
        }
        L->propagateForward(toM<double>(s[0].in));            // creates the parameters of a fully connected layer
        for (int z = 0; z < w.z; z++) for (int y = 0; y < w.y; y++) for (int x = 0; x < w.x; x++) L->weights(x, y, z) = w.at(x, y, z);
        for (size_t i = 0; i < b.v.size(); i++) L->biases[i] = b.v[i];
    }
    void record(int i, int slot, bool first) { SimpleMatrix<double> X = toM<double>(s[i].in), Z = L->propagateForward(SimpleMatrix<double>(X), 0); L->propagateBackward(X, Z, toM<double>(s[i].g), slot, first); }
};
static const char* KN[3] = {"convolution", "strided convolution", "fully connected"};

// all sequences of batch size, record and apply
static void histories(Ctx& c) {
    int kind = c.choose(3, "layer"); Rig R(kind); c.note("%s", KN[kind]);
    int depth = c.thorough() ? 7 : 5, maxb = 3; static const double LR[3] = {0.3, -2, 0};
    std::vector<int> slot; Ten w = R.w, b = R.b; int applied = 0;
    for (int d = 0; d < depth; d++) {
        if (d == 2) c.shard_point();
        int n = (int)slot.size();
        if (n == 0) { n = c.range(1, maxb, "batch size"); R.L->setBatchSize(n); slot.assign(n, -1); c.note("batch size %d", n); c.step(); continue; }
        int op = c.choose(1 + maxb + 3 * n + 3, "operation");
        if (op == 0) break; op--;
        if (op < maxb) { n = op + 1; R.L->setBatchSize(n); slot.assign(n, -1); c.note("batch size %d", n); }
        else if (op < maxb + 3 * n) { int q = op - maxb, sl = q / 3, i = q % 3; R.record(i, sl, (d + i) % 2); slot[sl] = i; c.note("record gradient %d in slot %d", i, sl); }
        else {
            double lr = LR[op - maxb - 3 * n]; R.L->applyBatch(lr); applied++; c.note("apply %g", lr);
            int m = 0; for (int i : slot) m += i >= 0;
            Ten gw(w.x, w.y, w.z), gb(b.x, 1, 1);
            for (int i : slot) if (i >= 0) { for (size_t j = 0; j < w.v.size(); j++) gw.v[j] += R.s[i].dw.v[j]; for (size_t j = 0; j < b.v.size(); j++) gb.v[j] += R.s[i].db.v[j]; }
            if (m) { for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= lr * gw.v[j] / m; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= lr * gb.v[j] / m; }
            slot.assign(n, -1);
        }
        c.step();
        expectTen(c, R.L->weights, w, 1e-11, "weights"); expectTen(c, R.L->biases, b, 1e-11, "biases");
        mc::Hash h; h.i(kind).i(w.hash()); for (int i : slot) h.i(i); c.state(h);
    }
}
// every subset of slots used in consecutive batches of every size
static void subsets(Ctx& c) {
    int kind = c.choose(3, "layer"), n = c.range(1, c.thorough() ? 8 : 5, "batch size"); Rig R(kind); c.note("%s batch size %d", KN[kind], n);
    R.L->setBatchSize(n); Ten w = R.w, b = R.b; static const double LR[4] = {1, 0.1, 0, -0.5}; double lr = LR[c.choose(n > 5 ? 1 : 4, "learning rate")]; 
    for (int batch = 0; batch < 2; batch++) {
        int mask = c.choose(1 << n, "slots used"); if (batch == 0) c.shard_point();
        int m = 0; Ten gw(w.x, w.y, w.z), gb(b.x, 1, 1); c.note("slots %x", mask);
        for (int s = n - 1; s >= 0; s--) if (mask >> s & 1) { int i = (s + batch) % 2; R.record(i, s, s % 2); m++; for (size_t j = 0; j < w.v.size(); j++) gw.v[j] += R.s[i].dw.v[j]; for (size_t j = 0; j < b.v.size(); j++) gb.v[j] += R.s[i].db.v[j]; }
        double rate = batch ? 1 - lr : lr; R.L->applyBatch(rate); c.step(m + 1);
        if (m) { for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= rate * gw.v[j] / m; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= rate * gb.v[j] / m; }
        expectTen(c, R.L->weights, w, 1e-11, "weights"); expectTen(c, R.L->biases, b, 1e-11, "biases"); c.state(mc::Hash().i(kind).i(n).i(w.hash()));
    }
}
// large batches
static void large(Ctx& c) {
    int kind = c.choose(3, "layer"); static const std::vector<int> N{10, 32, 100, 257, 1000}; int n = c.pick(N, "batch size"), used = c.choose(3, "slots used"); c.shard_point();
    Rig R(kind); R.L->setBatchSize(n); int u = used == 0 ? n : used == 1 ? n / 2 + 1 : 1; Ten w = R.w, b = R.b, gw(w.x, w.y, w.z), gb(b.x, 1, 1);
    for (int s = 0; s < u; s++) { int i = s % 3; R.record(i, n - 1 - s, false); for (size_t j = 0; j < w.v.size(); j++) gw.v[j] += R.s[i].dw.v[j]; for (size_t j = 0; j < b.v.size(); j++) gb.v[j] += R.s[i].db.v[j]; }
    R.L->applyBatch(0.5); R.L->applyBatch(0.5); c.step(u + 2);
    for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= 0.5 * gw.v[j] / u; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= 0.5 * gb.v[j] / u;
    expectTen(c, R.L->weights, w, 1e-11, "weights"); expectTen(c, R.L->biases, b, 1e-11, "biases"); c.note("%s batch size %d, %d slots used", KN[kind], n, u); c.state(mc::Hash().i(kind).i(n).i(u));
}
// very small and very large gradients and learning rates; every mean and product is exact
static void magnitudes(Ctx& c) {
    static const std::vector<int> E{-600, -300, -100, -40, -20, 0, 20, 40, 100, 300, 600}, N{1, 2, 4}, LR{0, -1, -10, -30, -60, 10, 30, 60}; int kind = c.choose(3, "layer"), e = c.pick(E, "magnitude of the gradients"), l = c.pick(LR, "magnitude of the learning rate"); c.shard_point(); int n = c.pick(N, "samples"); bool neg = c.flip("negative rate"), spare = c.flip("unused slots");
    Rig R(kind, true, e); Ten w = R.w, b = R.b, gw(w.x, w.y, w.z), gb(b.x, 1, 1); if (l) { for (Ten* t : {&w, &b}) for (double& d : t->v) d = std::ldexp(d, l); for (int z = 0; z < w.z; z++) for (int y = 0; y < w.y; y++) for (int x = 0; x < w.x; x++) R.L->weights(x, y, z) = w.at(x, y, z); for (size_t i = 0; i < b.v.size(); i++) R.L->biases[i] = b.v[i]; }
    R.L->setBatchSize(spare ? n + 2 : n); c.note("%s, gradients times 2^%d, learning rate %s2^%d, %d samples", KN[kind], e, neg ? "-" : "", l, n);
    for (int s = 0; s < n; s++) { R.record(s % 2, s, false); for (size_t j = 0; j < w.v.size(); j++) gw.v[j] += R.s[s % 2].dw.v[j]; for (size_t j = 0; j < b.v.size(); j++) gb.v[j] += R.s[s % 2].db.v[j]; }
    double lr = std::ldexp(neg ? -1.0 : 1.0, l); R.L->applyBatch(lr); c.step(n + 1); for (size_t j = 0; j < w.v.size(); j++) w.v[j] -= lr * gw.v[j] / n; for (size_t j = 0; j < b.v.size(); j++) b.v[j] -= lr * gb.v[j] / n;
    expectTen(c, R.L->weights, w, 0, "weights"); expectTen(c, R.L->biases, b, 0, "biases"); c.state(mc::Hash().i(kind).i(e).i(l).i(n).i(neg).i(spare));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C04", {{"histories", histories}, {"subsets", subsets}, {"magnitudes", magnitudes}, {"large batches", large}},
        "two convolution layers and a fully connected layer; all histories of up to 5 (thorough 7) operations among batch sizes 1..3, 3 gradients in every slot, 3 learning rates (also zero and negative); all pairs of slot subsets of two batches of size up to 5 (8) with 4 pairs of learning rates; gradients over 11 powers of two from 2^-600 to 2^600 with learning rates over 8 from 2^-60 to 2^60; batches of up to 1000");
}

// C05: back-propagation yields the true loss gradient of any network.
#include "nets.h"
typedef ModelDescription<double, std::string> Model;
typedef TwinT<Model> Twin;

static void step(Ctx& c, Twin& T, int label, int mode, double lr) {
    Ten in = T.input(1); c.note("%s, label %d", T.desc.c_str(), label);
    T.M.forwardPropagation(toM<double>(in)); T.push();
    T.N.forward(in);
    for (size_t i = 0; i < T.N.l.size(); i++) if (T.N.l[i].kind == Layer::ACT && (T.N.l[i].mode == 0 || T.N.l[i].mode == 4)) for (double v : T.N.l[i].in.v) if (std::fabs(v) < 1e-6 && v != 0) c.discard();
    for (auto& l : T.M.layers) l->setBatchSize(mode == 0 ? 1 : 3);
    std::vector<Ten> gw; std::vector<std::vector<double>> gb;
    if (mode < 2) {
        int slot = mode == 0 ? 0 : 2;
        auto r = T.M.forwardPropagation(toM<double>(in), slot);
        T.M.backwardsPropagation(r, T.names[label], slot);
        T.compare(c, 0, "before the update");
        for (auto& l : T.M.layers) l->applyBatch(lr);
        c.step(3); T.accumulate(in, label, gw, gb); T.apply(gw, gb, lr);
    } else {
        // training with one data point; two epochs
        Source<double> S; S.in = {in}; S.lab = {T.names[label]}; Quiet q;
        Model::Hyperparameters p; p.learning_rate = lr; p.batch_size = mode == 2 ? 1 : 2; p.num_threads = 1; p.num_epochs = 2;
        T.M.train(S, p); c.step(2);
        for (int e = 0; e < 2; e++) { gw.clear(); gb.clear(); T.accumulate(in, label, gw, gb); T.apply(gw, gb, lr); }
    }
    T.compare(c, 2e-5, "after the step");
    mc::Hash h; h.s(T.desc).i(label).i(mode); c.state(h);
}
// every sequence of layers
static void programs(Ctx& c) {
    static const std::vector<std::array<int, 3>> IN{{4, 5, 1}, {5, 3, 2}, {3, 3, 1}, {1, 4, 1}};
    auto s = c.pick(IN, "input"); int len = c.choose(c.thorough() ? 5 : 4, "layers"); std::vector<Item> items; int x = s[0], y = s[1], z = s[2]; bool used = false;
    for (int i = 0; i < len; i++) { Item it = c.pick(menu(), "layer"); if (!shapeAfter(it, x, y, z)) c.discard(); items.push_back(it); if (i == 1) c.shard_point(); }
    c.shard_point();
    // the scores must form a vector for the output layer; otherwise a fully connected layer comes first
    int labels = x * y * z; bool vec = z == 1 && (x == 1 || y == 1);
    if (!vec || labels > 6) { items.push_back({Layer::FC, 0, 0, 3, 0, 0, 0}); labels = 3; }
    Twin T(items, s[0], s[1], s[2], labels);
    int label = c.choose(std::min(labels, 2), "label"); step(c, T, label ? labels - 1 : 0, c.choose(c.thorough() || len < 3 ? 4 : 2, "mode"), 0.5);
}
// every label, learning rate and mode for networks with all kinds of layers
static void labelsAndRates(Ctx& c) {
    static const std::vector<double> LR{1, 0.01, 0, -0.5}; const auto& m = menu();
    std::vector<std::vector<Item>> P{{m[0], m[7], m[3], m[12]}, {m[2], m[11], m[6], m[1], m[8]}, {m[5], m[0], m[10], m[12], m[9]}, {m[4], m[2], m[13], m[8], m[12]}};
    auto items = P[c.choose(4, "network")]; int label = c.choose(4, "label"), mode = c.choose(4, "mode"); c.shard_point(); double lr = c.pick(LR, "rate");
    int x = 6, y = 5, z = 2; for (auto& i : items) shapeAfter(i, x, y, z);
    if (z != 1 || (x != 1 && y != 1) || x * y * z != 4) { items.push_back({Layer::FC, 0, 0, 4, 0, 0, 0}); }
    Twin T(items, 6, 5, 2, 4); step(c, T, label, mode, lr);
}
// image-sized network like the one of the program
static void image(Ctx& c) {
    int label = c.choose(3, "label"), v = c.choose(3, "variant"); c.shard_point();
    std::vector<Item> items{{Layer::CONV, 5, v == 0 ? 5 : 3, 3, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, v == 1 ? 0 : 4}, {Layer::POOL, 2, 2, 0, 2, 2, v}, {Layer::CONV, 3, 3, 2, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 3}, {Layer::FC, 0, 0, 12, 0, 0, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 1}, {Layer::FC, 0, 0, 10, 0, 0, 0}};
    Twin T(items, v == 2 ? 20 : 28, 28, 1, 10); step(c, T, label * 4 + 1, c.choose(4, "mode"), 0.5);
}
// batches of many different samples, gone through in several orders
static void batches(Ctx& c) {
    static const std::vector<int> B{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
    static const std::vector<std::vector<int>> P{{0, 7, 3, 12}, {2, 11, 6, 1, 8}, {5, 0, 10, 12, 9}, {4, 2, 13, 8, 12}};
    const auto& m = menu(); int b = c.pick(B, "batch"); std::vector<Item> items; for (int i : c.pick(P, "network")) items.push_back(m[i]); c.shard_point();
    int order = c.choose(4, "order"), used = c.choose(3, "slots used"); 
    int x = 4, y = 5, z = 2; for (auto& i : items) shapeAfter(i, x, y, z);
    if (z != 1 || (x != 1 && y != 1) || x * y * z != 4) items.push_back({Layer::FC, 0, 0, 4, 0, 0, 0});
    Twin T(items, 4, 5, 2, 4); c.note("%s, batch of %d, order %d, slots %d", T.desc.c_str(), b, order, used);
    T.M.forwardPropagation(toM<double>(T.input(0))); T.push();
    for (auto& l : T.M.layers) l->setBatchSize(b);
    int n = used == 0 ? b : used == 1 ? (b + 1) / 2 : std::max(1, b - 1); std::vector<int> slot; for (int i = 0; i < n; i++) slot.push_back(used == 2 ? i + b - n : i);
    if (order & 1) std::reverse(slot.begin(), slot.end());
    std::vector<Ten> gw; std::vector<std::vector<double>> gb; std::vector<decltype(T.M.forwardPropagation(toM<double>(T.input(0)), 0))> r;
    for (int s : slot) {
        Ten in = T.input(s); int label = (s * 3 + 1) % 4;
        for (double& d : in.v) d = std::round(d * 64) / 64;
        auto q = T.M.forwardPropagation(toM<double>(in), s);
        if (order < 2) T.M.backwardsPropagation(q, T.names[label], s); else r.push_back(q);
        T.accumulate(in, label, gw, gb); c.step(2);
        for (size_t i = 0; i < T.N.l.size(); i++) if (T.N.l[i].kind == Layer::ACT && (T.N.l[i].mode == 0 || T.N.l[i].mode == 4)) for (double v : T.N.l[i].in.v) if (std::fabs(v) < 1e-6 && v != 0) c.discard();
    }
    // all forward passes first, then the backward passes, from the other end
    if (order >= 2) for (int i = n - 1; i >= 0; i--) T.M.backwardsPropagation(r[i], T.names[(slot[i] * 3 + 1) % 4], slot[i]);
    for (auto& l : T.M.layers) l->applyBatch(0.5);
    T.apply(gw, gb, 0.5 / n); T.compare(c, 2e-5, "after the batch");
    mc::Hash h; h.s(T.desc).i(b).i(order).i(used); c.state(h);
}
// networks of many layers, and of many labels
static void deep(Ctx& c) { int n = c.pick(depths(), "layers"), v = c.choose(6, "variant"); c.shard_point(); auto P = deepNet<Twin>(n, v); step(c, *P, c.choose(3, "label"), c.choose(4, "mode"), 0.05); }
static void manyLabels(Ctx& c) {
    static const std::vector<int> N{100, 127, 128, 129, 255, 256, 257, 258, 300, 513}; int n = c.pick(N, "labels"), w = c.choose(4, "label"); c.shard_point(); int label = w == 0 ? 0 : w == 1 ? n - 1 : w == 2 ? n / 2 : n - 2;
    std::vector<Item> items{{Layer::ACT, 0, 0, 0, 0, 0, 3}, {Layer::FC, 0, 0, n, 0, 0, 0}}; Twin T(items, 2, 2, 1, n); for (int i = 0; i < n; i++) T.N.l[1].b[i] += i == label ? 4 : 0; step(c, T, label, c.choose(4, "mode"), 0.5);
}
// two networks used alternately
static void pairs(Ctx& c) {
    const auto& m = menu(); static const std::vector<std::vector<int>> P{{0, 7, 3, 12}, {2, 11, 6, 1, 8}, {5, 0, 10, 12, 9}, {4, 2, 13, 8, 12}, {12, 13}, {3, 12}, {0, 12}, {8, 12}, {1, 4, 12}};
    static const std::vector<std::array<int, 3>> IN{{4, 5, 2}, {5, 4, 1}, {3, 7, 3}}; std::vector<Item> items[2]; std::array<int, 3> s[2]; int k = 0;
    for (int i = 0; i < 2; i++) { for (int j : c.pick(P, "network")) items[i].push_back(m[j]); s[i] = c.pick(IN, "input"); if (!k++) c.shard_point(); int x = s[i][0], y = s[i][1], z = s[i][2]; for (auto& t : items[i]) if (!shapeAfter(t, x, y, z)) c.discard(); if (z != 1 || (x != 1 && y != 1) || x * y * z != 4) items[i].push_back({Layer::FC, 0, 0, 4, 0, 0, 0}); }
    Twin A(items[0], s[0][0], s[0][1], s[0][2], 4), B(items[1], s[1][0], s[1][1], s[1][2], 4); Twin* T[2] = {&A, &B}; c.note("%s and %s", A.desc.c_str(), B.desc.c_str()); std::vector<Ten> gw[2]; std::vector<std::vector<double>> gb[2];
    for (Twin* t : T) { t->M.forwardPropagation(toM<double>(t->input(0))); t->push(); for (auto& l : t->M.layers) l->setBatchSize(2); }
    typedef decltype(A.M.forwardPropagation(toM<double>(A.input(0)), 0)) R; std::vector<R> r[2];
    for (int q = 0; q < 2; q++) for (int t = 0; t < 2; t++) { Ten in = T[t]->input(q); r[t].push_back(T[t]->M.forwardPropagation(toM<double>(in), q)); T[t]->accumulate(in, (q + t) % 4, gw[t], gb[t]); for (auto& l : T[t]->N.l) if (l.kind == Layer::ACT && (l.mode == 0 || l.mode == 4)) for (double v : l.in.v) if (std::fabs(v) < 1e-6 && v != 0) c.discard(); }
    for (int q = 0; q < 2; q++) for (int t = 1; t >= 0; t--) T[t]->M.backwardsPropagation(r[t][q], T[t]->names[(q + t) % 4], q);
    for (int t = 0; t < 2; t++) for (auto& l : T[t]->M.layers) l->applyBatch(0.5);
    c.step(8); for (int t = 0; t < 2; t++) { T[t]->apply(gw[t], gb[t], 0.25); T[t]->compare(c, 2e-5, t ? "second network" : "first network"); } c.state(mc::Hash().s(A.desc).s(B.desc));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C05", {{"programs", programs}, {"labels and rates", labelsAndRates}, {"image-sized", image}, {"batches", batches}, {"deep", deep}, {"many labels", manyLabels}, {"pairs", pairs}},
        "all networks of up to 3 (thorough 4) layers out of 14 (convolutions of 3 shapes, 4 poolings, 5 activations, 2 fully connected) plus output layer, on 4 input shapes, first and last label, as single step in two slots and as two epochs of training with full and short batch; 4 deep networks with every label, 4 rates; 3 image-sized networks; 24 batch sizes from 2 to 300 x 4 networks with forward and backward passes in 4 orders and all, half or all but the first slot used; networks of up to 257 layers; up to 513 labels; all pairs of 27 networks used alternately");
}

// C12: ill-formed layer inputs are rejected, never computed on.
#include "nets.h"
#include "compat.h"
typedef ModelDescription<double, std::string> Model;

static SimpleMatrix<double> data(int x, int y, int z, int salt = 1) { Ten t(x, y, z); genericFill(t.v, salt, 2); return toM<double>(t); }
template <typename F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
struct Saved { Ten w, b; Saved(const ModelLayer& L) : w(fromM(L.weights)), b(fromM(L.biases)) {}
    void same(Ctx& c, const ModelLayer& L, const char* what) { expectTen(c, L.weights, w, 0, what); expectTen(c, L.biases, b, 0, what); } };

static void kernel(Ctx& c) {
    int m = c.thorough() ? 5 : 4; int kx = c.range(1, 3, "filter rows"), ky = c.range(1, 3, "filter columns"), ch = c.range(1, 3, "channels"), nf = c.range(1, 2, "filters"), s = c.range(1, 2, "stride"); c.shard_point();
    int x = c.range(0, m, "rows"), y = c.range(0, m, "columns"), z = c.range(0, m, "channels of the input"); bool before = c.flip("valid use before");
    c.note("filter (%d,%d,%d)*%d stride %d, input (%d,%d,%d)", kx, ky, ch, nf, s, x, y, z);
    Kernel K(dim3(kx, ky, ch), nf, s); Saved S(K); SimpleMatrix<double> good = data(kx + 1, ky + 2, ch), o;
    if (before) o = K.propagateForward(SimpleMatrix<double>(good), 0);
    bool ok = z == ch && x >= kx && y >= ky; c.step(2);
    bool t = throws([&] { K.propagateForward(data(x, y, z), 0); });
    c.require(t == !ok, "input (%d,%d,%d) for filters (%d,%d,%d) %s", x, y, z, kx, ky, ch, ok ? "is rejected" : "is not rejected");
    c.require(K.checkSize(data(x, y, z)) == ok, "size check of input (%d,%d,%d) for filters (%d,%d,%d) says %d", x, y, z, kx, ky, ch, !ok);
    S.same(c, K, "parameters after an ill-formed input");
    Ten e = ref::conv(fromM(good), S.w, S.b.v, nf, s); expectTen(c, K.propagateForward(SimpleMatrix<double>(good), 0), e, 1e-12, "later valid output");
    c.state(mc::Hash().i(kx).i(ky).i(ch).i(nf).i(s).i(x).i(y).i(z).i(before));
}
static void pooling(Ctx& c) {
    int m = c.thorough() ? 6 : 5; int px = c.range(1, 4, "window rows"), py = c.range(1, 4, "window columns"), sx = c.range(1, 3, "row stride"), sy = c.range(1, 3, "column stride"), kind = c.choose(3, "kind"); c.shard_point();
    int x = c.range(0, m, "rows"), y = c.range(0, m, "columns"), z = c.range(0, 2, "channels"); bool before = c.flip("valid use before");
    c.note("window (%d,%d) stride (%d,%d), input (%d,%d,%d)", px, py, sx, sy, x, y, z);
    Pooling P(dim2(px, py), dim2(sx, sy), kind == 0 ? MAX : kind == 1 ? MIN : AVG); SimpleMatrix<double> good = data(px + 1, py + 2, 2), o;
    if (before) P.propagateForward(SimpleMatrix<double>(good));
    bool ok = x >= px && y >= py, t = throws([&] { o = P.propagateForward(data(x, y, z)); }); c.step(2);
    c.require(t == !ok, "input (%d,%d,%d) for a window of (%d,%d) %s", x, y, z, px, py, ok ? "is rejected" : "is not rejected");
    expectTen(c, P.propagateForward(SimpleMatrix<double>(good)), ref::pool(fromM(good), px, py, sx, sy, kind), 1e-12, "later valid output");
    c.state(mc::Hash().i(px).i(py).i(sx).i(sy).i(kind).i(x).i(y).i(z).i(before));
}
static void connected(Ctx& c) {
    int m = c.thorough() ? 4 : 3; int out = c.range(1, 3, "outputs"), a = c.range(1, m, "first rows"), b = c.range(1, m, "first columns"), d = c.range(1, 2, "first channels"); c.shard_point();
    int x = c.range(0, m, "rows"), y = c.range(0, m, "columns"), z = c.range(0, 3, "channels");
    c.note("%d outputs, first input (%d,%d,%d), then (%d,%d,%d)", out, a, b, d, x, y, z);
    ConnectedLayer L(out); SimpleMatrix<double> good = data(a, b, d); SimpleMatrix<double> o = L.propagateForward(SimpleMatrix<double>(good)); Saved S(L); c.step(3);
    bool ok = x * y * z == a * b * d, t = throws([&] { L.propagateForward(data(x, y, z)); });
    c.require(t == !ok, "input of %d elements for a layer of %d inputs %s", x * y * z, a * b * d, ok ? "is rejected" : "is not rejected");
    S.same(c, L, "parameters after an ill-formed input");
    expectTen(c, L.propagateForward(SimpleMatrix<double>(good)), fromM(o), 0, "later valid output");
    c.state(mc::Hash().i(out).i(a).i(b).i(d).i(x).i(y).i(z));
}
static void softmax(Ctx& c) {
    int m = c.thorough() ? 6 : 5; int n = c.range(1, m, "labels"), x = c.range(0, m, "rows"); c.shard_point(); int y = c.range(0, m, "columns"), z = c.range(0, 3, "channels");
    c.note("%d labels, input (%d,%d,%d)", n, x, y, z);
    Softmax S(n); SimpleMatrix<double> good = data(n, 1, 1);
    bool ok = x * y * z == n && z == 1 && (x == 1 || y == 1), t = throws([&] { S.propagateForward(data(x, y, z), 0); }); c.step(2);
    c.require(t == !ok, "input (%d,%d,%d) for %d labels %s", x, y, z, n, ok ? "is rejected" : "is not rejected");
    std::vector<double> v(n); for (int i = 0; i < n; i++) v[i] = good[i]; Ten e(n, 1, 1); e.v = ref::softmax(v);
    expectTen(c, S.propagateForward(SimpleMatrix<double>(good), 0), e, 1e-12, "later valid output"); c.state(mc::Hash().i(n).i(x).i(y).i(z));
}
// labels: histories of assigning labels (in and out of range) and asking for gradients
static void labels(Ctx& c) {
    int n = c.range(1, 3, "labels"), slots = c.range(1, 3, "batch size"); Softmax S(n); bool sized = slots > 1 || c.flip("set batch size"); if (sized) S.setBatchSize(slots);
    std::vector<int> lab(slots, -1); SimpleMatrix<double> in = data(n, 1, 1), o = S.propagateForward(SimpleMatrix<double>(in), 0); static const size_t BIG[4] = {0, 1, 1000, (size_t)-1};
    int depth = c.thorough() ? 5 : 4;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(1 + slots * (n + 4 + 1) + 3, "operation"); if (d == 0) c.shard_point(); if (op == 0) break; op--;
        if (op >= slots * (n + 5)) { slots = op - slots * (n + 5) + 1; S.setBatchSize(slots); lab.assign(slots, -1); c.note("batch size %d", slots); c.step(); for (int s = 0; s < slots; s++) { bool t = throws([&] { S.propagateBackward(in, o, SimpleMatrix<double>(), s, false); }); c.require(t, "a gradient is computed with the label of an earlier batch"); } continue; } int s = op / (n + 5), q = op % (n + 5); c.step();
        if (q < n + 4) {
            size_t l = q < n ? (size_t)q : q - n < 2 ? n + BIG[q - n] : BIG[q - n]; c.note("label %zu in slot %d", l, s); bool t = throws([&] { assignLabel(S, l, s); });
            c.require(t == (l >= (size_t)n), "label %zu of %d %s", l, n, t ? "is rejected" : "is accepted"); if (!t) lab[s] = (int)l;
        } else {
            SimpleMatrix<double> g; c.note("gradient of slot %d", s); bool t = throws([&] { g = S.propagateBackward(in, o, SimpleMatrix<double>(), s, false); });
            c.require(t == (lab[s] < 0), "gradient %s a label %s", lab[s] < 0 ? "without" : "with", t ? "is rejected" : "is computed");
            if (!t) for (int i = 0; i < n; i++) c.require(std::fabs(g[i] - (o[i] - (i == lab[s]))) < 1e-15, "gradient %d is %g", i, g[i]);
        }
        mc::Hash h; h.i(n).i(op); for (int l : lab) h.i(l); c.state(h);
    }
}
// whole models: an ill-formed input is reported, and the model keeps its parameters and goes on working
static void models(Ctx& c) {
    static const std::vector<std::vector<int>> P{{0, 7, 3, 13}, {4, 12, 8}, {2, 6, 12}, {12}, {0}, {10, 13}};
    int p = c.choose((int)P.size(), "network"); int X = 5, Y = 4, Z = 2; std::vector<Item> items; for (int i : P[p]) items.push_back(menu()[i]); if (p == 4) items.push_back({Layer::FC, 0, 0, 2, 0, 0, 0});
    int x = X, y = Y, z = Z; for (auto& i : items) shapeAfter(i, x, y, z); int labels = x * y * z; c.require(z == 1 && y == 1, "network menu");
    TwinT<Model> T(items, X, Y, Z, labels); T.M.forwardPropagation(toM<double>(T.input(0))); T.push(); c.note("%s", T.desc.c_str());
    // the first fully connected layer fixes the number of its inputs
    auto fits = [&](int a, int b, int d) { int fx = X, fy = Y, fz = Z; for (auto& i : items) { if (i.kind == Layer::CONV && d != fz) return false; if (i.kind == Layer::FC && a * b * d != fx * fy * fz) return false; if (!shapeAfter(i, a, b, d)) return false; shapeAfter(i, fx, fy, fz); } return a * b * d == labels && d == 1 && (a == 1 || b == 1); };
    int depth = 2;
    for (int k = 0; k < depth; k++) {
        int a = c.range(0, 6, "rows"); if (k == 0) c.shard_point(); int b = c.range(0, 5, "columns"), d = c.range(0, 3, "channels"); if (k && (a + b + d) % 3 && !c.thorough()) c.discard();
        bool ok = fits(a, b, d), t = throws([&] { T.M.forwardPropagation(data(a, b, d), 0); }); c.step();
        c.require(t == !ok, "input (%d,%d,%d) %s", a, b, d, ok ? "is rejected" : "is not rejected");
        T.compare(c, 0, "after an ill-formed input"); c.state(mc::Hash().i(p).i(a).i(b).i(d));
    }
    Ten in = T.input(3); auto r = T.M.forwardPropagation(toM<double>(in)); T.N.forward(in); expectTen(c, r.layer_inputs.back(), T.N.out, 1e-6, "later valid output");
}
// gradients and records only go to slots of the batch; nothing is recorded by a rejected call
static void slots(Ctx& c) {
    int kind = c.choose(6, "layer"), B = c.range(1, 3, "batch size"), prev = c.choose(3, "batch size before"); size_t SL[8] = {0, 1, 2, (size_t)B, (size_t)B + 1, (size_t)B + 3, 1000, (size_t)-1};
    Kernel K(dim3(2, 1, 2), 2, 1); ConnectedLayer F(2); Pooling P(dim2(2, 1), dim2(1, 1), kind == 2 ? MAX : kind == 3 ? MIN : AVG); Softmax S(3);
    ModelLayer& L = kind == 0 ? (ModelLayer&)K : kind == 1 ? (ModelLayer&)F : kind < 5 ? (ModelLayer&)P : (ModelLayer&)S;
    if (kind == 1) F.propagateForward(data(3, 2, 2)); if (prev) L.setBatchSize(prev == 1 ? B + 2 : 1); L.setBatchSize(B); Saved W(L); std::vector<Ten> in(B); std::vector<int> lab(B, -1); std::vector<Ten> gw(B); std::vector<std::vector<double>> gb(B);
    int depth = c.thorough() ? 4 : 3, pk = kind - 2; c.note("layer kind %d, batch of %d", kind, B);
    for (int d = 0; d < depth; d++) {
        int si = c.choose(9, "slot"); if (d == 0) c.shard_point(); if (si == 8) break; size_t s = SL[si]; if (si < 3 && si >= B) c.discard(); bool ok = s < (size_t)B; int op = kind < 2 ? 1 : c.choose(2, "operation"); bool last = op && c.flip("first layer of a model");
        Ten x(kind == 5 ? 3 : 3, kind == 5 ? 1 : 2, kind == 5 ? 1 : 2); genericFill(x.v, 20 + d, 2); Ten g = kind == 1 ? Ten(2, 1, 1) : kind == 5 ? x : Ten(2, 2, 2); genericFill(g.v, 40 + d, 1); SimpleMatrix<double> X = toM<double>(x), G = toM<double>(g), dx; c.step(); bool t;
        c.note("%s slot %zu", op ? "backward" : kind == 5 ? "label" : "forward", s);
        if (kind == 5 && !op) { t = throws([&] { assignLabel(S, d % 3, s); }); if (ok) lab[s] = d % 3; }
        else if (!op) { SimpleMatrix<double> o; t = throws([&] { o = L.propagateForward(SimpleMatrix<double>(X), s); }); if (ok) in[s] = x; }
        else {
            const SimpleMatrix<double>& Xr = kind >= 2 && kind < 5 && ok && in[s].size() ? (X = toM<double>(in[s])) : X; bool can = ok && (kind < 2 || kind == 4 || (kind == 5 ? lab[s] >= 0 : in[s].size() > 0));
            t = throws([&] { dx = L.propagateBackward(Xr, kind == 5 ? X : SimpleMatrix<double>(), G, s, last); });
            if (ok && !can) c.require(t, "a gradient of slot %zu, which was not used yet, is computed", s);
            if (can) {
                c.require(!t, "a gradient of slot %zu of %d is rejected", s, B); Ten e;
                if (kind == 0) ref::convGrad(x, W.w, 2, 1, g, gw[s], gb[s], e);
                else if (kind == 1) { gw[s] = Ten(2, 12, 1); e = x; for (int j = 0; j < 12; j++) { e.v[j] = 0; for (int i = 0; i < 2; i++) { gw[s].at(i, j, 0) = g.v[i] * x.v[j]; e.v[j] += W.w.at(i, j, 0) * g.v[i]; } } gb[s] = g.v; }
                else if (kind < 5) e = ref::poolGrad(fromM(X), 2, 1, 1, 1, pk, g); else { e = x; e.v[lab[s]] -= 1; }
                if (!last) { if (dx.size() == e.v.size()) for (size_t i = 0; i < e.v.size(); i++) c.require(std::fabs(dx[i] - e.v[i]) < 1e-12, "slot %zu: gradient element %zu is %g, expected %g", s, i, dx[i], e.v[i]); else c.fail("gradient of another size"); }
            } else t = t || ok;
        }
        c.require(t == !ok || (ok && op), "slot %zu of a batch of %d is %s", s, B, t ? "rejected" : "accepted"); W.same(c, L, "parameters before the batch is applied");
        mc::Hash h; h.i(kind).i(B).i(prev).i(d).i((int)s).i(op); c.state(h);
    }
    if (kind < 2) {
        L.applyBatch(0.5); int n = 0; for (auto& q : gw) n += q.size() > 0; Ten w = W.w, b = W.b;
        for (int s = 0; s < B; s++) if (gw[s].size()) { for (size_t i = 0; i < w.v.size(); i++) w.v[i] -= 0.5 * gw[s].v[i] / n; for (size_t i = 0; i < b.v.size(); i++) b.v[i] -= 0.5 * gb[s][i] / n; }
        expectTen(c, L.weights, w, 1e-12, "weights after the batch"); expectTen(c, L.biases, b, 1e-12, "biases after the batch");
    }
}
// gradients that do not have the shape of the layer's output, or come with an input the layer does not take
static void gradients(Ctx& c) {
    int kind = c.choose(8, "layer"), cfg = c.choose(4, "configuration"), m = c.thorough() ? 5 : 4; static const int CF[4][5] = {{2, 2, 1, 2, 1}, {1, 2, 2, 1, 2}, {2, 1, 2, 3, 1}, {3, 2, 1, 1, 2}};       // rows, columns, channels, filters/outputs, stride
    int kx = CF[cfg][0], ky = CF[cfg][1], ch = CF[cfg][2], n = CF[cfg][3], st = CF[cfg][4];
    Kernel K(dim3(kx, ky, ch), n, st); ConnectedLayer F(n); Pooling P(dim2(kx, ky), dim2(st, 1), kind == 2 ? MAX : kind == 3 ? MIN : AVG); Activation A(RELU), T(LEAKY_RELU); Softmax S(n + 1);
    ModelLayer& L = kind == 0 ? (ModelLayer&)K : kind == 1 ? (ModelLayer&)F : kind < 5 ? (ModelLayer&)P : kind == 5 ? (ModelLayer&)A : kind == 6 ? (ModelLayer&)T : (ModelLayer&)S; if (kind > 4 && kind < 7 && cfg) c.discard();
    int X = kind == 7 ? n + 1 : 4, Y = kind == 7 ? 1 : 3, Z = kind == 7 ? 1 : ch, ox = kind < 2 || kind > 4 ? (kind == 1 ? n : kind == 0 ? (X - kx) / st + 1 : X) : (X - kx) / st + 1, oy = kind == 1 ? 1 : kind == 0 ? (Y - ky) / st + 1 : kind < 5 ? Y - ky + 1 : Y, oz = kind == 0 ? n : kind == 1 ? 1 : Z;
    int gx = c.range(0, m, "gradient rows"), gy = c.range(0, m, "gradient columns"), gz = c.range(0, 3, "gradient channels"), wx = c.choose(kind == 7 ? 1 : 7, "input"); c.shard_point(); bool recorded = c.flip("a gradient was recorded before"), last = kind == 7 ? false : c.flip("first layer of a model");
    int x = X + (wx == 1) - (wx == 2), y = Y + (wx == 3) - (wx == 4), z = Z + (wx == 5) - (wx == 6); SimpleMatrix<double> good = data(X, Y, Z), G = data(ox, oy, oz, 5); L.setBatchSize(2); L.propagateForward(SimpleMatrix<double>(good), 0); L.propagateForward(SimpleMatrix<double>(good), 1); Saved W(L); if (kind == 7) assignLabel(S, 0, 0);
    auto ref = [&](const SimpleMatrix<double>& g) { return fromM(L.propagateBackward(good, kind == 7 ? g : SimpleMatrix<double>(), g, 0, false)); };
    // shapes with which the layer could go on belong to that other input, whatever was seen before
    int ex = kind == 1 ? n : kind < 5 ? (x < kx ? -1 : (x - kx) / st + 1) : x, ey = kind == 1 ? 1 : kind == 0 ? (y < ky ? -1 : (y - ky) / st + 1) : kind < 5 ? (y < ky ? -1 : y - ky + 1) : y, ez = kind == 0 ? (z == ch ? n : -1) : kind == 1 ? (x * y * z == X * Y * Z ? 1 : -1) : z;
    bool fits = kind == 7 ? gx * gy * gz == n + 1 && gz == 1 && (gx == 1 || gy == 1) : gx == ex && gy == ey && gz == ez; SimpleMatrix<double> o, D = data(gx, gy, gz, 9);
    if (fits && wx && kind >= 2 && kind < 4) c.discard();      // fits an input that is not the one of the forward pass
    c.note("layer kind %d (%d,%d,%d)*%d/%d, input (%d,%d,%d), gradient (%d,%d,%d), fits %d", kind, kx, ky, ch, n, st, x, y, z, gx, gy, gz, fits);
    Ten first; if (recorded) first = ref(G); bool t = throws([&] { o = L.propagateBackward(data(x, y, z), kind == 7 ? D : SimpleMatrix<double>(), D, 1, last); }); c.step(2);
    if (kind == 7 && !t) c.fail("a gradient of a slot without label is computed"); if (kind == 7) { assignLabel(S, 0, 1); t = throws([&] { o = L.propagateBackward(good, D, G, 1, last); }); }
    if (fits) c.require(!t, "a gradient of the shape of the output (%d,%d,%d) is rejected", gx, gy, gz);
    else c.require(t, "a gradient (%d,%d,%d) for an output (%d,%d,%d) is not rejected", gx, gy, gz, ex, ey, ez);
    W.same(c, L, "parameters after an ill-formed gradient");
    if (recorded) { Ten again = ref(G); c.require(again.v == first.v, "a valid gradient is computed differently after an ill-formed one"); }
    if (!fits && kind < 2) { // what was rejected is not applied
        L.applyBatch(0.25); if (!recorded) W.same(c, L, "parameters after a batch of nothing but an ill-formed gradient");
        else { Kernel K2(dim3(kx, ky, ch), n, st); ConnectedLayer F2(n); ModelLayer& M = kind ? (ModelLayer&)F2 : (ModelLayer&)K2; M.propagateForward(SimpleMatrix<double>(good), 0); for (size_t i = 0; i < W.w.v.size(); i++) M.weights[i] = W.w.v[i]; for (size_t i = 0; i < W.b.v.size(); i++) M.biases[i] = W.b.v[i];
            M.setBatchSize(1); M.propagateBackward(good, SimpleMatrix<double>(), G, 0, false); M.applyBatch(0.25); expectTen(c, L.weights, fromM(M.weights), 1e-12, "weights after a batch with an ill-formed gradient"); expectTen(c, L.biases, fromM(M.biases), 1e-12, "biases after a batch with an ill-formed gradient"); }
    }
    c.state(mc::Hash().i(kind).i(cfg).i(gx).i(gy).i(gz).i(wx).i(recorded).i(last));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C12", {{"convolution", kernel}, {"pooling", pooling}, {"fully connected", connected}, {"softmax", softmax}, {"labels", labels}, {"slots", slots}, {"gradients", gradients}, {"models", models}},
        "every input shape from 0 to 4x4x4 (thorough 5) against all filters up to 3x3x3; 0 to 5x5x2 (6) against windows up to 4x4; 0 to 3x3x3 (4) against layers of up to 3x3x2 (4) inputs; 0 to 5x5x3 (6) against 1..5 (6) labels; all histories of 4 (5) label assignments, gradient requests and batch sizes; all histories of 3 (4) uses of slots inside and outside batches of 1..3; gradients from 0 to 4x4x3 (5) with 7 inputs for 26 layer configurations, with and without recorded gradients; two inputs up to 6x5x3 for 6 networks");
}

// C11: predictions are softmax probabilities; label, confidence and loss agree.
#include "nets.h"
#include "compat.h"
typedef ModelDescription<double, std::string> Model;
typedef TwinT<Model> Twin;

static void probabilities(Ctx& c, const SimpleMatrix<double>& o, const std::vector<double>& s, bool row) {
    int n = (int)s.size(); expectShape(c, o, row ? 1 : n, row ? n : 1, 1, "probabilities");
    std::vector<double> e = ref::softmax(s); double sum = 0;
    for (int i = 0; i < n; i++) {
        c.require(o[i] >= 0 && o[i] <= 1, "probability %d is %g", i, o[i]); sum += o[i];
        c.require(std::fabs(o[i] - e[i]) <= 1e-12 * e[i] + 1e-300, "probability %d is %.17g, expected %.17g", i, o[i], e[i]);
        for (int j = 0; j < n; j++) { if (s[i] < s[j]) c.require(o[i] <= o[j], "score %g < %g but probability %.17g > %.17g", s[i], s[j], o[i], o[j]); if (s[i] == s[j]) c.require(o[i] == o[j], "equal scores, different probabilities"); }
    }
    c.require(std::fabs(sum - 1) <= 1e-12, "probabilities sum to %.17g", sum);
}
static float expectedLoss(double p) { double l = -std::log2(p + 1e-5); return (float)std::max(l, 0.0); }
// clipped at zero where the label is certain; within tol elsewhere
static bool lossOk(double p, float loss, double tol) { return loss >= 0 && (p > 1 - 1e-6 ? loss == 0 : std::fabs(loss - expectedLoss(p)) <= tol); }
template <typename R> void checkResult(Ctx& c, const R& r, const std::vector<double>& p) {
    int n = (int)p.size(); c.require(r.label_idx < (size_t)n, "predicted label index %zu of %d", r.label_idx, n);
    double m = *std::max_element(p.begin(), p.end());
    c.require(p[r.label_idx] >= m - 1e-12 * m, "label %zu with probability %g is predicted, but the largest is %g", r.label_idx, p[r.label_idx], m);
    c.require(std::fabs(r.confidence - p[r.label_idx]) <= 1e-6, "confidence is %g, expected %g", r.confidence, p[r.label_idx]);
}
template <typename M, typename R, typename L> void checkLoss(Ctx& c, M& model, R& r, const std::vector<L>& names, const std::vector<L>& unknown, const std::vector<double>& p) {
    for (size_t k = 0; k < names.size(); k++) {
        R q = r; model.assignLoss(q, names[k]); c.step();
        c.require(q.true_label_idx == k && q.true_label && *q.true_label == names[k], "assigning label %zu records index %zu", k, q.true_label_idx);
        c.require(lossOk(p[k], q.loss, 2e-4), "loss for probability %g is %g, expected %g", p[k], q.loss, expectedLoss(p[k]));
        c.require(q.loss >= 0, "loss is %g", q.loss);
        c.require(q.label_idx == r.label_idx && q.confidence == r.confidence && q.layer_inputs.size() == r.layer_inputs.size(), "assigning a label changes the prediction");
    }
    for (auto& u : unknown) {
        R q = r; bool t = false; try { model.assignLoss(q, u); } catch (std::exception&) { t = true; } c.step();
        c.require(t, "a label that the model does not have is accepted as index %zu", q.true_label_idx);
        c.require(q.loss == r.loss && q.true_label_idx == r.true_label_idx && q.label_idx == r.label_idx && q.true_label.has_value() == r.true_label.has_value(), "a rejected label changes the result");
    }
}
// the output layer alone on every vector over a set of magnitudes
static void scores(Ctx& c) {
    static const std::vector<double> V{0, 1, -1, 1e-9, 745, -745, 1e4, -1.7e308, 1.7e308, 5e-324};
    int n = c.range(1, c.thorough() ? 5 : 4, "labels"); bool row = c.flip("row"); std::vector<double> s(n);
    for (int i = 0; i < n; i++) { s[i] = V[c.choose(n > 3 && !c.thorough() ? 8 : 10, "score")]; if (i == 1) c.shard_point(); }
    SimpleMatrix<double> in(row ? dim3(1, n, 1) : dim3(n, 1, 1)); for (int i = 0; i < n; i++) in[i] = s[i];
    Softmax S(n); c.note("scores %g %g ..", s[0], s.back()); c.step();
    SimpleMatrix<double> o = S.propagateForward(SimpleMatrix<double>(in), 0); probabilities(c, o, s, row);
    // gradient at the output: probabilities minus the indicator of the label
    int slots = n > 2 ? 2 : 1; S.setBatchSize(slots);
    for (int k = 0; k < n; k++) {
        assignLabel(S, k, slots - 1); if (slots == 2) assignLabel(S, (k + 1) % n, 0);
        SimpleMatrix<double> g = S.propagateBackward(in, o, SimpleMatrix<double>(), slots - 1, false); c.step();
        for (int i = 0; i < n; i++) c.require(std::fabs(g[i] - (o[i] - (i == k))) <= 1e-15, "gradient of score %d for label %d is %g, expected %g", i, k, g[i], o[i] - (i == k));
    }
    c.state(mc::Hash().i(row).raw(s.data(), 8 * n));
}
// many labels
static void many(Ctx& c) {
    static const std::vector<int> N{10, 100, 257, 1000}; int n = c.pick(N, "labels"), top = c.choose(3, "position of the maximum"), pat = c.choose(3, "values"); c.shard_point();
    int t = top == 0 ? 0 : top == 1 ? n - 1 : n / 2; std::vector<double> s(n); for (int i = 0; i < n; i++) s[i] = pat == 0 ? -0.01 * i : pat == 1 ? (double)((i * 37) % 11) - 40 : 3; s[t] += 2 + pat * 30;
    Model M; std::vector<std::string> names; for (int i = 0; i < n; i++) names.push_back("L" + std::to_string(i)); M.setOutputLabels(names);
    SimpleMatrix<double> in(dim3(n, 1, 1)); for (int i = 0; i < n; i++) in[i] = s[i];
    auto r = M.forwardPropagation(in); c.step(); auto p = ref::softmax(s); checkResult(c, r, p); c.note("%d labels", n);
    auto q = r; M.assignLoss(q, names[t]); c.require(q.true_label_idx == (size_t)t && lossOk(p[t], q.loss, 1e-5), "label %d: index %zu loss %g", t, q.true_label_idx, q.loss); c.state(mc::Hash().i(n).i(t).i(pat));
}
// every text that differs from a label by one character removed, inserted or changed, and is no label itself
static std::vector<std::string> neighbours(const std::vector<std::string>& names) {
    static const std::string C("a0 A.\n\0z", 8); std::set<std::string> out;
    for (auto& l : names) for (size_t i = 0; i <= l.size(); i++) { if (i < l.size()) out.insert(l.substr(0, i) + l.substr(i + 1)); for (char ch : C) { out.insert(l.substr(0, i) + ch + l.substr(i)); if (i < l.size()) out.insert(l.substr(0, i) + ch + l.substr(i + 1)); } }
    for (auto& l : names) out.erase(l);
    return {out.begin(), out.end()};
}
// models with the same labels in another order or in part, used in turn: each finds the labels in its own list
template <class L> static void turns(Ctx& c, const std::vector<L>& all) {
    std::vector<std::vector<L>> sets; std::vector<int> o{0, 1, 2, 3}; do { for (int n = 2; n <= 4; n += 2) { std::vector<L> v; for (int i = 0; i < n; i++) v.push_back(all[o[i]]); if (std::find(sets.begin(), sets.end(), v) == sets.end()) sets.push_back(v); } } while (std::next_permutation(o.begin(), o.end()));
    int ka = c.choose((int)sets.size(), "labels of the first model"); c.shard_point(); int kb = c.choose((int)sets.size(), "labels of the second model"); bool back = c.flip("backward pass"); const std::vector<L>* S[2] = {&sets[ka], &sets[kb]};
    ModelDescription<double, L> M[2]; ModelResults<L> R[2]; std::vector<double> P[2]; for (int m = 0; m < 2; m++) { int n = (int)S[m]->size(); M[m].setOutputLabels(*S[m]); SimpleMatrix<double> in(dim3(n, 1, 1)); std::vector<double> s(n); for (int i = 0; i < n; i++) in[i] = s[i] = 0.5 * i; R[m] = M[m].forwardPropagation(in); P[m] = ref::softmax(s); M[m].layers[0]->setBatchSize(1); }
    c.note("models with %zu and %zu labels", S[0]->size(), S[1]->size());
    for (auto& first : all) for (auto& second : all) for (int m = 0; m < 2; m++) {
        const L* ask[2] = {&first, &second};
        for (int k = 0; k < 2; k++) { int w = k ? 1 - m : m; auto& names = *S[w]; int at = (int)(std::find(names.begin(), names.end(), *ask[k]) - names.begin()); auto r = R[w]; bool thrown = false; try { if (back) M[w].backwardsPropagation(r, *ask[k], 0); else M[w].assignLoss(r, *ask[k]); } catch (const std::out_of_range&) { thrown = true; } c.step();
            c.require(thrown == (at == (int)names.size()), "label %d of %zu is %s when models are used in turn", at, names.size(), thrown ? "rejected" : "accepted"); if (!thrown) c.require(r.true_label_idx == (size_t)at && r.true_label && *r.true_label == *ask[k] && lossOk(P[w][at], r.loss, 1e-5), "label %d of %zu is taken for label %zu with loss %g when models are used in turn", at, names.size(), r.true_label_idx, r.loss); }
    }
    c.state(mc::Hash().i(ka).i(kb).i(back).i(sizeof(L)));
}
static void inTurn(Ctx& c) { switch (c.choose(3, "type of labels")) { case 0: turns<std::string>(c, {"", "x", "y", "long label that needs its own memory"}); break; case 1: turns<int>(c, {0, 1, -1, 256}); break; default: turns<char>(c, {'0', ' ', 'b', 'a'}); } }
// numbers and words as labels
static void foreign(Ctx& c) {
    static const std::vector<std::vector<std::string>> L{{"05", "1", "010"}, {"-1", "1", "0"}, {"1.0", "1e0", "01"}, {"yes", "YES", "Yes "}, {"aa", "a", "aaa"}, {"\xc3\xa9", "e"}};
    auto names = c.pick(L, "labels"); if (c.flip("reversed")) std::reverse(names.begin(), names.end()); c.shard_point(); int n = (int)names.size(); SimpleMatrix<double> in(dim3(n, 1, 1)); std::vector<double> s(n); for (int i = 0; i < n; i++) in[i] = s[i] = 0.5 * i;
    Model M; M.setOutputLabels(names); auto r = M.forwardPropagation(in, 0); auto p = ref::softmax(s); checkLoss(c, M, r, names, neighbours(names), p); c.note("labels %s ..", names[0].c_str()); c.state(mc::Hash().s(names[0]).s(names[1]));
}
// models that consist of the output layer only: predicted label, confidence, loss
static void outputs(Ctx& c) {
    static const std::vector<double> V{0, 1, -1, 30, -30, 1e30, 0.5};
    static const std::vector<std::string> ALL{"cat", "a dog", "", "Cat"}, UNK{"cow", "cat ", "ca", "catt", "CAT", "a  dog", "\n", "0"};
    int n = c.range(1, 4, "labels"); bool row = c.flip("row"); std::vector<double> s(n); for (int i = 0; i < n; i++) { s[i] = c.pick(V, "score"); if (i == 1) c.shard_point(); }
    std::vector<std::string> names(ALL.begin(), ALL.begin() + n), unk = UNK; for (int i = n; i < 4; i++) unk.push_back(ALL[i]);
    SimpleMatrix<double> in(row ? dim3(1, n, 1) : dim3(n, 1, 1)); for (int i = 0; i < n; i++) in[i] = s[i];
    Model M; M.setOutputLabels(names); auto r = M.forwardPropagation(in, 0); c.step(); c.note("%d labels, scores %g ..", n, s[0]);
    auto p = ref::softmax(s); checkResult(c, r, p);
    c.require(r.layer_inputs.size() == 2, "%zu layer inputs are recorded for one layer", r.layer_inputs.size());
    for (int i = 0; i < n; i++) { c.require(r.layer_inputs[0][i] == (float)s[i], "recorded input differs"); c.require(std::fabs(r.layer_inputs[1][i] - p[i]) <= 1e-6, "recorded output differs"); }
    checkLoss(c, M, r, names, unk, p); if (row) checkLoss(c, M, r, names, neighbours(names), p);
    // integer labels and float data
    ModelDescription<float, int> MI; std::vector<int> in_names{7, -1, 0, 3}; in_names.resize(n); MI.setOutputLabels(in_names); SimpleMatrix<float> fi(in.dim()); for (int i = 0; i < n; i++) fi[i] = (float)s[i];
    auto ri = MI.forwardPropagation(fi); c.step(); checkResult(c, ri, p); checkLoss(c, MI, ri, in_names, std::vector<int>{8, -2, 100}, p);
    c.state(mc::Hash().i(row).raw(s.data(), 8 * n));
}
// the loss for every probability
static void losses(Ctx& c) {
    static const std::vector<double> X{1e-300, 1e-30, 1e-15, 1e-9, 1e-7, 1e-6, 1e-5, 2e-5, 1e-4, 0.99999, 0.999999, 0.9999999, 0.999999999999, 1 - 1e-16}; int k = c.range(0, 1000 + (int)X.size(), "probability"); c.shard_point(); Model M; M.setOutputLabels({"x", "y", "z"}); SimpleMatrix<double> p(dim3(3, 1, 1));
    for (size_t pos = 0; pos < 3; pos++) { double v = k <= 1000 ? k / 1000.0 : X[k - 1001]; for (int i = 0; i < 3; i++) p[i] = (1 - v) / 2; p[pos] = v; float l = M.lossFcn(p, pos); c.step(); c.require(lossOk(v, l, 1e-6 * std::max(1.0f, expectedLoss(v))), "loss for probability %g is %g, expected %g", v, l, expectedLoss(v)); }
    c.state(k); c.note("probability %g", k / 1000.0);
}
// the same layers in a model over another type of data, given values that this type holds exactly or rounds
template <class D> void otherData(Ctx& c, Twin& T, const Ten& in, double scale) {
    ModelDescription<D, std::string> M; M.layers = T.M.layers; M.output_labels = T.M.output_labels; SimpleMatrix<D> d(dim3(in.x, in.y, in.z)); Ten t = in;
    for (size_t i = 0; i < in.v.size(); i++) { double v = in.v[i] * scale; if (!std::is_signed_v<D>) v = std::fabs(v); d[i] = (D)v; t.v[i] = (double)d[i]; }
    auto r = M.forwardPropagation(d); c.step(2); T.N.forward(t); c.require(r.layer_inputs.size() == T.N.l.size() + 1, "%zu layer inputs are recorded for %zu layers", r.layer_inputs.size(), T.N.l.size());
    for (size_t i = 0; i < T.N.l.size(); i++) expectTen(c, r.layer_inputs[i], T.N.l[i].in, 1e-5, mc::fmt("input of layer %zu of a model over another type of data", i).c_str());
    expectTen(c, r.layer_inputs.back(), T.N.out, 1e-5, "final output of a model over another type of data"); checkResult(c, r, T.N.out.v);
}
// forward pass of any network: all recorded layer inputs
static void programs(Ctx& c) {
    static const std::vector<std::array<int, 3>> IN{{4, 5, 1}, {5, 3, 2}, {3, 3, 1}, {1, 4, 1}};
    auto s = c.pick(IN, "input"); int len = c.choose(c.thorough() ? 5 : 4, "layers"); std::vector<Item> items; int x = s[0], y = s[1], z = s[2];
    for (int i = 0; i < len; i++) { Item it = c.pick(menu(), "layer"); if (!shapeAfter(it, x, y, z)) c.discard(); items.push_back(it); if (i == 1) c.shard_point(); }
    c.shard_point(); int labels = x * y * z;
    if (z != 1 || (x != 1 && y != 1) || labels > 6) { items.push_back({Layer::FC, 0, 0, 3, 0, 0, 0}); labels = 3; }
    Twin T(items, s[0], s[1], s[2], labels); c.note("%s", T.desc.c_str());
    Ten in = T.input(2, 2.0); T.M.forwardPropagation(toM<double>(in)); T.push();
    auto r = T.M.forwardPropagation(toM<double>(in)); c.step(2); T.N.forward(in);
    c.require(r.layer_inputs.size() == T.N.l.size() + 1, "%zu layer inputs are recorded for %zu layers", r.layer_inputs.size(), T.N.l.size());
    for (size_t i = 0; i < T.N.l.size(); i++) expectTen(c, r.layer_inputs[i], T.N.l[i].in, 1e-6, mc::fmt("input of layer %zu", i).c_str());
    expectTen(c, r.layer_inputs.back(), T.N.out, 1e-6, "final output"); checkResult(c, r, T.N.out.v); T.compare(c, 0, "after prediction");
    checkLoss(c, T.M, r, T.names, std::vector<std::string>{"label", "nope"}, T.N.out.v);
    // other data types
    otherData<float>(c, T, in, 0.37); otherData<int>(c, T, in, 3); otherData<unsigned char>(c, T, in, 40); otherData<long long>(c, T, in, 4);
    c.state(mc::Hash().s(T.desc));
}
// networks of many layers
static void deep(Ctx& c) {
    int n = c.pick(depths(), "layers"), v = c.choose(6, "variant"); c.shard_point(); auto P = deepNet<Twin>(n, v); Twin& T = *P; c.note("%d layers, variant %d", n, v); Ten in = T.input(2, 1.0); T.M.forwardPropagation(toM<double>(in)); T.push();
    for (int s = 0; s < 2; s++) {
        Ten in = T.input(3 + s, 1.0); auto r = T.M.forwardPropagation(toM<double>(in)); c.step(); T.N.forward(in); c.require(r.layer_inputs.size() == T.N.l.size() + 1, "%zu layer inputs are recorded for %zu layers", r.layer_inputs.size(), T.N.l.size());
        for (size_t i = 0; i < T.N.l.size(); i++) expectTen(c, r.layer_inputs[i], T.N.l[i].in, 1e-5, mc::fmt("input of layer %zu of %d", i, n).c_str());
        expectTen(c, r.layer_inputs.back(), T.N.out, 1e-5, "final output"); checkResult(c, r, T.N.out.v); checkLoss(c, T.M, r, T.names, std::vector<std::string>{"label", "nope"}, T.N.out.v);
    }
    c.state(mc::Hash().i(n).i(v));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C11", {{"scores", scores}, {"many labels", many}, {"outputs", outputs}, {"foreign labels", foreign}, {"in turn", inTurn}, {"losses", losses}, {"programs", programs}, {"deep", deep}},
        "all score vectors of 1..4 (thorough 5) entries over 8-10 magnitudes up to 1.7e308 as row and column; 10..1000 labels; all output-only models of 1..4 labels over 7 scores with 8 foreign labels, string and int labels; 12 label sets with every text one edit away from a label over 8 characters; all pairs of 36 orders and parts of 4 labels of 3 types in models used in turn; 1015 probabilities; all networks of up to 3 (4) of 14 layers on 4 input shapes, over 5 types of data; networks of up to 257 layers");
}

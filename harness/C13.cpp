// C13: a saved model loads back as the same model.
#include "savednets.h"

static Ten inputFor(int x, int y, int z, int salt) { Ten t(x, y, z); genericFill(t.v, salt, 1); for (double& d : t.v) d = std::round(d * 64) / 64; return t; }
static void trainStep(Model& M, const Ten& in, const std::string& label) {
    for (auto& l : M.layers) l->setBatchSize(2);
    auto r = M.forwardPropagation(toM<double>(in), 1); M.backwardsPropagation(r, label, 1); for (auto& l : M.layers) l->applyBatch(0.25);
}
static void samePrediction(Ctx& c, Model& A, Model& B, const Ten& in, double tol, const char* what) {
    auto a = A.forwardPropagation(toM<double>(in)), b = B.forwardPropagation(toM<double>(in)); c.step(2);
    c.require(a.layer_inputs.size() == b.layer_inputs.size(), "%s: another number of layers", what);
    for (size_t i = 0; i < a.layer_inputs.size(); i++) {
        c.require(a.layer_inputs[i].dim() == b.layer_inputs[i].dim(), "%s: output %zu has another shape", what, i);
        for (size_t j = 0; j < a.layer_inputs[i].size(); j++) { double p = a.layer_inputs[i][j], q = b.layer_inputs[i][j]; c.require(std::fabs(p - q) <= tol * std::max(1.0, std::fabs(p)) || p == q || (std::isnan(p) && std::isnan(q)), "%s: entry %zu of output %zu is %.9g instead of %.9g", what, j, i, q, p); }
    }
}
// save A, load into B, compare everything observable
static void roundTrip(Ctx& c, Model& A, const Ten& in, bool used, bool rounded, bool further) {
    std::string f = scratchFile("m1"), f2 = scratchFile("m2"); Quiet q; std::string why;
    c.require(A.saveModel(f), "saving reports failure"); std::string text = slurp(f); c.step();
    Model B; c.require(B.loadModel(f), "loading a saved model reports failure"); c.step();
    c.require(sameParams(A, B, 5.1e-7, why), "loaded model: %s", why.c_str());
    c.require(B.saveModel(f2), "saving the loaded model reports failure"); c.step();
    std::string text2 = slurp(f2); size_t d = 0; while (d < text.size() && d < text2.size() && text[d] == text2[d]) d++;
    c.require(text == text2, "saving the loaded model gives another file (first difference at byte %zu of %zu)", d, text.size());
    unlink(f.c_str()); unlink(f2.c_str());
    if (used) {
        // the loaded parameters are those of A to six decimals; predictions agree when A's parameters are such
        if (rounded) samePrediction(c, A, B, in, 1e-6, "prediction");
        else { Model C; spit(f, text); c.require(C.loadModel(f), "loading again fails"); unlink(f.c_str()); samePrediction(c, B, C, in, 0, "prediction"); }
        if (further && rounded) {
            for (int k = 0; k < 2; k++) { std::string l = A.output_labels[k % A.output_labels.size()]; trainStep(A, in, l); trainStep(B, in, l); c.step(2); }
            c.require(sameParams(A, B, 2e-5, why), "after further training of the loaded model: %s", why.c_str());
            samePrediction(c, A, B, in, 1e-4, "prediction after further training");
        }
    } else {
        // fully connected layers that were never used create their parameters on first use
        if (further) { auto r = B.forwardPropagation(toM<double>(in)); c.step(); double s = 0; for (float v : r.layer_inputs.back()) s += v; c.require(std::fabs(s - 1) < 1e-5, "the loaded model does not predict"); trainStep(B, in, B.output_labels[0]); }
    }
}
static void programs(Ctx& c) {
    static const std::vector<std::array<int, 3>> IN{{5, 6, 1}, {4, 4, 2}};
    auto s = c.pick(IN, "input"); int len = c.choose(c.thorough() ? 5 : 4, "layers"); std::vector<SItem> items; int x = s[0], y = s[1], z = s[2]; std::string desc;
    for (int i = 0; i < len; i++) { SItem it = c.pick(smenu(), "layer"); if (!sfit(it, x, y, z)) c.discard(); items.push_back(it); desc += str(it) + ", "; if (i == 1) c.shard_point(); }
    c.shard_point();
    if (z != 1 || (x != 1 && y != 1) || x * y > 8) { items.push_back({3, 0, 0, 2, 0, 0, 0}); sfit(items.back(), x, y, z); }
    bool fresh = c.flip("unused"); int pat = fresh ? 0 : c.choose(len < 3 || c.thorough() ? NVALUES : 2, "values"); if (!fresh && len >= 3 && !c.thorough() && pat == 1) pat = 2;
    Model M; int a = s[0], b = s[1], d = s[2]; build(M, items, a, b, d); std::vector<std::string> names; for (int i = 0; i < x * y; i++) names.push_back(mc::fmt("class %d", i)); M.setOutputLabels(names);
    Ten in = inputFor(s[0], s[1], s[2], 3); c.note("%s values %d%s", desc.c_str(), pat, fresh ? " unused" : "");
    if (!fresh) { M.forwardPropagation(toM<double>(in)); setAll(M, pat); }
    roundTrip(c, M, in, !fresh, pat != 2 && pat != 3 && !fresh, pat == 0 || pat == 5);
    c.state(mc::Hash().s(desc).i(pat).i(fresh).i(s[0]));
}
// layer configurations in detail
static void configurations(Ctx& c) {
    int kind = c.choose(3, "layer"); SItem it{};
    if (kind == 0) it = {0, c.range(1, 3, "rows"), c.range(1, 3, "columns"), c.range(1, 3, "filters"), c.range(1, 3, "stride"), 0, 0};
    else if (kind == 1) { int a = c.range(1, 3, "rows"), b = c.range(1, 3, "columns"), s = c.range(1, 3, "row stride"), t = c.range(1, 3, "column stride"); it = {1, a, b, 0, s, t, c.choose(3, "kind")}; }
    else it = {3, 0, 0, c.range(1, 12, "outputs"), 0, 0, 0};
    int X = c.range(3, 5, "input rows"), Y = c.range(3, 5, "input columns"); c.shard_point(); int Z = c.range(1, 2, "channels"), pat = c.choose(2, "values");
    Model M; int x = X, y = Y, z = Z; build(M, {it, {3, 0, 0, 2, 0, 0, 0}}, x, y, z); M.setOutputLabels({"yes", "no"}); Ten in = inputFor(X, Y, Z, 4);
    M.forwardPropagation(toM<double>(in)); setAll(M, pat * 4); c.note("%s on (%d,%d,%d)", str(it).c_str(), X, Y, Z); roundTrip(c, M, in, true, true, pat == 0); c.state(mc::Hash().s(str(it)).i(X).i(Y).i(Z).i(pat));
}
// label sets
static void labels(Ctx& c) {
    static const std::vector<std::string> L{"a", "two words", " leading", "trailing ", "", "7", "Output labels 3", "Softmax", "(1) ----------", "tab\there", "\xc3\xa9t\xc3\xa9", "very long label very long label very long label very long label"};
    int n = c.range(1, 3, "labels"); std::vector<std::string> names; for (int i = 0; i < n; i++) { names.push_back(c.pick(L, "label")); for (int j = 0; j < i; j++) if (names[j] == names[i]) c.discard(); if (i == 0) c.shard_point(); }
    bool net = c.flip("network"); Model M; Ten in = inputFor(2, 2, 1, 5); if (net) { M.addConnectedLayer(n); M.addActivation(TANGENT); } else in = inputFor(n, 1, 1, 5);
    M.setOutputLabels(names); M.forwardPropagation(toM<double>(in)); setAll(M, 0); c.note("labels \"%s\" ..", names[0].c_str()); roundTrip(c, M, in, true, true, true);
    mc::Hash h; h.i(net); for (auto& s : names) h.s(s); c.state(h);
}
// every byte as, in front of, behind and inside a label
static void characters(Ctx& c) {
    int ch = c.range(0, 255, "byte"); c.shard_point(); if (ch == '\n') c.discard(); std::string s(1, (char)ch); std::vector<std::string> names{s, s + "x", "x" + s, "x" + s + "y", s + s, "z"}; for (size_t i = names.size(); i-- > 0;) if (std::find(names.begin(), names.begin() + i, names[i]) != names.begin() + i) names.erase(names.begin() + i);
    int rot = c.choose((int)names.size(), "first label"); std::rotate(names.begin(), names.begin() + rot, names.end()); int n = (int)names.size();
    Model M; Ten in = inputFor(n, 1, 1, 5); M.setOutputLabels(names); M.forwardPropagation(toM<double>(in)); c.note("labels with the byte %d", ch); roundTrip(c, M, in, true, true, true); c.state(mc::Hash().i(ch).i(rot));
}
// every parameter value of a grid, in every position of a small layer
static void values(Ctx& c) {
    static const std::vector<double> V{0, 1, -1, 0.1, -0.000001, 0.0000005, 0.0000014999, 999999.999999, -12345678.5, 4.5e9, -1e12, 1e15, 3.14159265358979, 1e-300, 2147483648.0, 0.9999999};
    int p = c.choose(8, "position"); double v = c.pick(V, "value"); c.shard_point(); double w = c.pick(V, "other value");
    Model M; M.addConnectedLayer(2); M.setOutputLabels({"p", "q"}); Ten in = inputFor(3, 1, 1, 6); M.forwardPropagation(toM<double>(in)); setAll(M, 0);
    ModelLayer& L = *M.layers[0]; if (p < 6) L.weights[p] = v; else L.biases[p - 6] = v; if (p) L.weights[p - 1 < 6 ? p - 1 : 5] = w; else L.biases[0] = w;
    c.note("%.17g at %d", v, p); roundTrip(c, M, in, true, false, false); c.state(mc::Hash().i(p).d(v).d(w));
}
// after training, and loading repeatedly
static void trained(Ctx& c) {
    int steps = c.range(0, 3, "training steps"), rounds = c.range(1, 3, "save/load rounds"), v = c.choose(3, "network"); c.shard_point();
    std::vector<SItem> items = v == 0 ? std::vector<SItem>{smenu()[0], smenu()[6], smenu()[3], smenu()[11]} : v == 1 ? std::vector<SItem>{smenu()[5], smenu()[2], smenu()[7], smenu()[11]} : std::vector<SItem>{smenu()[11], smenu()[10], smenu()[11]};
    auto* M = new Model; std::unique_ptr<Model> own(M); int x = 5, y = 4, z = 1; build(*M, items, x, y, z); M->setOutputLabels({"a", "b", "c d"}); Ten in = inputFor(5, 4, 1, 7);
    M->forwardPropagation(toM<double>(in)); setAll(*M, 0); for (int i = 0; i < steps; i++) trainStep(*M, in, M->output_labels[i]);
    std::string f = scratchFile("t"), why; Quiet q;
    for (int r = 0; r < rounds; r++) {
        c.require(own->saveModel(f), "saving fails"); std::unique_ptr<Model> B(new Model); c.require(B->loadModel(f), "loading fails"); c.step(2);
        c.require(sameParams(*own, *B, r ? 0 : 5.1e-7, why), "round %d: %s", r, why.c_str()); own = std::move(B);
    }
    unlink(f.c_str()); roundTrip(c, *own, in, true, true, true); c.note("network %d, %d training steps, %d rounds", v, steps, rounds); c.state(mc::Hash().i(steps).i(rounds).i(v));
}
// loading into a stream position by layer: a layer's own text form
static void large(Ctx& c) {
    int v = c.choose(3, "size"); c.shard_point(); Model M; Ten in;
    if (v == 0) { M.addKernel(dim3(5, 5, 1), 4); M.addActivation(RELU); M.addPooling(dim2(2, 2), dim2(2, 2), MAX); M.addConnectedLayer(10); in = inputFor(28, 28, 1, 1); }
    else if (v == 1) { M.addKernel(dim3(1, 1, 300), 2); M.addConnectedLayer(3); in = inputFor(2, 1, 300, 1); } else { M.addConnectedLayer(300); in = inputFor(3, 2, 1, 1); }
    std::vector<std::string> names; int n = v == 0 ? 10 : v == 1 ? 3 : 300; for (int i = 0; i < n; i++) names.push_back("n " + std::to_string(i)); M.setOutputLabels(names); M.forwardPropagation(toM<double>(in)); setAll(M, 0);
    c.note("size %d", v); roundTrip(c, M, in, true, true, true); c.state(v);
}
// large numbers in the configuration of a layer
static void numbers(Ctx& c) {
    static const std::vector<int> V{1, 4, 7, 8, 9, 10, 16, 31, 32, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 100000}; int v = c.pick(V, "number"), what = c.choose(6, "place"); c.shard_point(); c.note("%d as configuration %d", v, what);
    std::shared_ptr<ModelLayer> A, B; SimpleMatrix<double> in(what == 2 || what == 4 ? dim3(1, v + 1, 1) : dim3(v + 1, 1, 1)); for (size_t i = 0; i < in.size(); i++) in[i] = (double)(i * 7 % 11) - 4;
    if (what == 0) { A.reset(new Kernel(dim3(1, 1, 1), 1, v)); B.reset(new Kernel(dim3(1, 2, 1), 2, 1)); } else if (what == 5) { if (v > 10000) c.discard(); A.reset(new Kernel(dim3(v, 1, 1), 1, 1)); B.reset(new Kernel(dim3(1, 2, 1), 2, 1)); }
    else { A.reset(new Pooling(what == 1 ? dim2(v, 1) : what == 2 ? dim2(1, v) : dim2(1, 1), what == 3 ? dim2(v, 1) : what == 4 ? dim2(1, v) : dim2(1, 1), AVG)); B.reset(new Pooling(dim2(2, 3), dim2(3, 2), MAX)); }
    for (size_t i = 0; i < A->weights.size(); i++) A->weights[i] = (double)(i % 5) - 2; for (size_t i = 0; i < A->biases.size(); i++) A->biases[i] = 3;
    std::string t = A->serialize(); std::istringstream is(t); c.require(B->deserialize(is), "the text of a layer with number %d in place %d is not read", v, what); c.step(3); c.require(B->serialize() == t, "a layer with number %d in place %d is read as another one", v, what);
    auto a = A->propagateForward(SimpleMatrix<double>(in), 0), b = B->propagateForward(SimpleMatrix<double>(in), 0); c.require(a.dim() == b.dim(), "a layer with number %d in place %d has output (%d,%d) after reading, expected (%d,%d)", v, what, b.dim().x, b.dim().y, a.dim().x, a.dim().y); for (size_t i = 0; i < a.size(); i++) c.require(std::fabs(a[i] - b[i]) < 1e-9, "a layer with number %d in place %d has other output after reading", v, what);
    c.state(mc::Hash().i(v).i(what));
}
// many layers of every kind
static void deep(Ctx& c) {
    int n = c.pick(depths(), "layers"), v = c.choose(6, "variant"); c.shard_point(); static const SItem CYC[] = {{0, 1, 1, 2, 1, 0, 0}, {2, 0, 0, 0, 0, 0, 2}, {1, 1, 1, 0, 1, 1, 0}, {2, 0, 0, 0, 0, 0, 4}, {0, 1, 1, 1, 1, 0, 0}, {3, 0, 0, 3, 0, 0, 0}, {2, 0, 0, 0, 0, 0, 3}, {3, 0, 0, 2, 0, 0, 0}};
    std::vector<SItem> items; for (int i = 0; i < n; i++) items.push_back(v == 0 ? CYC[2] : v == 1 ? CYC[1 + 2 * (i % 2)] : v == 2 ? CYC[5 + 2 * (i % 2)] : CYC[(i + v) % 8]); items.push_back(CYC[7]);
    Model M; int x = 3, y = 2, z = 1; build(M, items, x, y, z); M.setOutputLabels({"yes", "no"}); Ten in = inputFor(3, 2, 1, 8); M.forwardPropagation(toM<double>(in)); setAll(M, 0);
    c.note("%d layers, variant %d", n, v); roundTrip(c, M, in, true, true, true); c.state(mc::Hash().i(n).i(v));
}
// many labels
static void manyLabels(Ctx& c) {
    static const std::vector<int> N{9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 257, 999, 1000, 1001}; int n = c.pick(N, "labels"), v = c.choose(3, "label form"); c.shard_point(); bool net = c.flip("network"); std::vector<std::string> names; for (int i = 0; i < n; i++) names.push_back(v == 0 ? std::to_string(i) : v == 1 ? mc::fmt("a label %d ", n - i) : std::string(1 + i, 'a' + i % 26));
    Model M; Ten in = inputFor(n, 1, 1, 5); if (net) { M.addConnectedLayer(n); in = inputFor(2, 1, 1, 5); } M.setOutputLabels(names); M.forwardPropagation(toM<double>(in)); setAll(M, 0); c.note("%d labels", n); roundTrip(c, M, in, true, true, true); c.state(mc::Hash().i(n).i(v).i(net));
}
// models over other data and label types
template <class D, class L> void typed(Ctx& c, const std::vector<L>& names, const std::vector<SItem>& items, int pat, const std::string& desc) {
    typedef ModelDescription<D, L> T; T A, B, C; int x = 5, y = 4, z = 1; build(A, items, x, y, z); A.setOutputLabels(names); int n = (int)names.size();
    SimpleMatrix<D> in(dim3(5, 4, 1)); for (int i = 0; i < 20; i++) in[i] = (D)((i * 7 + 3) % 11);
    A.forwardPropagation(in); setAll(A, pat); std::string f = scratchFile("y1"), f2 = scratchFile("y2"), why; Quiet q; c.note("%s, %d labels", desc.c_str(), n);
    c.require(A.saveModel(f), "saving reports failure"); c.require(B.loadModel(f), "loading a saved model reports failure"); c.step(2);
    c.require(sameParams(A, B, 5.1e-7, why), "loaded model: %s", why.c_str()); c.require(B.saveModel(f2), "saving the loaded model reports failure");
    c.require(slurp(f) == slurp(f2), "saving the loaded model gives another file");
    // the file does not depend on the type of the data: it loads into a model over another one
    ModelDescription<long double, L> O; c.require(O.loadModel(f), "loading into a model over another data type reports failure"); c.require(sameParams(A, O, 5.1e-7, why), "model over another data type: %s", why.c_str());
    c.require(C.loadModel(f2), "loading again reports failure"); unlink(f.c_str()); unlink(f2.c_str());
    for (int k = 0; k < 2; k++) {
        auto a = A.forwardPropagation(in), b = B.forwardPropagation(in); c.step(2); c.require(a.label_idx == b.label_idx || pat, "another label is predicted");
        for (size_t i = 0; i < a.layer_inputs.size(); i++) { c.require(a.layer_inputs[i].dim() == b.layer_inputs[i].dim(), "output %zu has another shape", i); for (size_t j = 0; j < a.layer_inputs[i].size(); j++) { double p = a.layer_inputs[i][j], r = b.layer_inputs[i][j]; c.require(std::fabs(p - r) <= 1e-4 * std::max(1.0, std::fabs(p)), "entry %zu of output %zu is %.9g instead of %.9g", j, i, r, p); } }
        for (T* M : {&A, &B}) { for (auto& l : M->layers) l->setBatchSize(1); auto r = M->forwardPropagation(in); M->backwardsPropagation(r, names[n - 1], 0); c.require(r.true_label_idx == (size_t)n - 1, "the label has index %zu", r.true_label_idx); for (auto& l : M->layers) l->applyBatch(0.125); }
        c.require(sameParams(A, B, 2e-5, why), "after further training of the loaded model: %s", why.c_str()); c.step();
    }
}
static void types(Ctx& c) {
    static const std::vector<int> I{0, 1, -1, 7, 2147483647, -2147483647 - 1, 10, 100}; static const std::string CH = "a7 -(.S,"; static const std::vector<unsigned long> U{0, 18446744073709551615ul, 3, 1000000007ul, 12, 13, 14, 15};
    int kind = c.choose(7, "types"), n = c.range(1, 4, "labels"), first = c.choose(4, "first label"); c.shard_point();
    std::vector<SItem> items; std::string desc; int len = c.choose(3, "layers"), x = 5, y = 4, z = 1;
    for (int i = 0; i < len; i++) { SItem it = c.pick(smenu(), "layer"); if (!sfit(it, x, y, z)) c.discard(); items.push_back(it); desc += str(it) + ", "; }
    items.push_back({3, 0, 0, n, 0, 0, 0});
    auto cut = [&](const auto& v) { typedef typename std::decay_t<decltype(v)>::value_type V; std::vector<V> r; for (int i = 0; i < n; i++) r.push_back(v[(first + i * 3) % 8]); return r; };
    switch (kind) {
    case 0: typed<double, int>(c, cut(I), items, 0, desc + "double data, int labels"); break;
    case 1: typed<unsigned char, char>(c, cut(CH), items, 0, desc + "byte data, char labels"); break;
    case 5: typed<double, char>(c, cut(std::string("\t# 0(\x7f\xe9\\")), items, 0, desc + "double data, unusual char labels"); break;
    case 6: { std::vector<unsigned char> s{0, 255, 32, 9, 65, 128, 13, 48}; typed<float, unsigned char>(c, cut(s), items, 0, desc + "float data, byte labels"); break; }
    case 2: typed<int, unsigned long>(c, cut(U), items, 0, desc + "int data, unsigned long labels"); break;
    case 3: { std::vector<short> s; for (int i = 0; i < 8; i++) s.push_back((short)(i * 4679 - 16384)); typed<float, short>(c, cut(s), items, 0, desc + "float data, short labels"); break; }
    default: { std::vector<std::string> s{"zero", "one two", "3", " x", "Softmax", "y ", "10", "-"}; typed<unsigned char, std::string>(c, cut(s), items, 0, desc + "byte data, string labels"); }
    }
    c.state(mc::Hash().i(kind).i(n).i(first).s(desc));
}
// a saved file does not depend on what was there before, and saving does not change the model
static void overwriting(Ctx& c) {
    static const std::vector<std::vector<SItem>> NETS{{}, {smenu()[11]}, {smenu()[0], smenu()[6], smenu()[3]}, {smenu()[5], smenu()[2], smenu()[7], smenu()[11]}};
    auto make = [&](Model& M, int v, int pat) { int x = 5, y = 4, z = 1; build(M, NETS[v], x, y, z); if (NETS[v].empty() || z > 1 || y > 1) build(M, {smenu()[11]}, x, y, z); M.setOutputLabels({"a", "b", "c d"}); M.forwardPropagation(toM<double>(inputFor(5, 4, 1, 7))); setAll(M, pat); };
    int v = c.choose(4, "network"), pat = c.choose(2, "values"); c.shard_point(); int before = c.choose(8, "what the file held"), times = c.range(1, 3, "saves");
    std::string f = scratchFile("o1"), g = scratchFile("o2"), why; Quiet q; Model A; make(A, v, pat);
    c.require(A.saveModel(g), "saving fails"); std::string text = slurp(g); unlink(g.c_str());
    if (before < 4) { Model B; make(B, before, 1 - pat); c.require(B.saveModel(f), "saving fails"); }
    else if (before == 4) spit(f, ""); else if (before == 5) spit(f, std::string(text.size() + 5000, 'x')); else if (before == 6) spit(f, text); else spit(f, text + text);
    for (int i = 0; i < times; i++) { c.require(A.saveModel(f), "saving fails"); c.step(); c.require(slurp(f) == text, "saving over an existing file gives another file than saving into a new one"); }
    Model B; c.require(B.loadModel(f), "loading fails"); c.require(slurp(f) == text, "loading changes the file"); c.require(sameParams(A, B, 5.1e-7, why), "loaded model: %s", why.c_str());
    c.require(A.saveModel(f) && slurp(f) == text, "saving again gives another file"); unlink(f.c_str());
    Model C; make(C, v, pat); c.require(sameParams(A, C, 0, why), "saving changes the model: %s", why.c_str());
    c.note("network %d over %d, %d times", v, before, times); c.state(mc::Hash().i(v).i(pat).i(before).i(times));
}
// the text of one layer read into any other layer of its kind, in whatever state that is
static void reading(Ctx& c) {
    struct Cfg { SItem it; int x, y, z; };
    static std::vector<Cfg> M[4]; if (M[0].empty()) {
        for (int a = 1; a <= 2; a++) for (int b = 1; b <= 2; b++) for (int n = 1; n <= 2; n++) for (int t = 1; t <= 2; t++) M[0].push_back({{0, a, b, n, t, 0, 0}, 4, 3, n == 1 ? 2 : 1});
        for (int a = 1; a <= 2; a++) for (int b = 1; b <= 2; b++) for (int t = 1; t <= 2; t++) for (int m = 0; m < 3; m++) M[1].push_back({{1, a, b, 0, t, 3 - t, m}, 4, 3, 1 + m % 2});
        for (int m = 0; m < 5; m++) M[2].push_back({{2, 0, 0, 0, 0, 0, m}, 2, 3, 1});
        for (auto s : std::vector<std::array<int, 3>>{{2, 3, 1}, {6, 1, 1}, {1, 2, 3}, {2, 2, 1}, {1, 1, 5}}) for (int n = 1; n <= 2; n++) M[3].push_back({{3, 0, 0, n, 0, 0, 0}, s[0], s[1], s[2]});
    }
    int kind = c.choose(4, "kind"), i = c.choose((int)M[kind].size(), "layer"); c.shard_point(); int j = c.choose((int)M[kind].size(), "layer read"), state = c.choose(4, "state"); bool unused = kind == 3 && c.flip("text of an unused layer");
    const Cfg &a = M[kind][i], &b = M[kind][j]; Model A, B; int x = a.x, y = a.y, z = a.z; build(A, {a.it}, x, y, z); x = b.x; y = b.y; z = b.z; build(B, {b.it}, x, y, z); ModelLayer &P = *A.layers[0], &Q = *B.layers[0];
    auto use = [&](ModelLayer& L, const Cfg& k, int upto, SimpleMatrix<double>& out, SimpleMatrix<double>& grad) {
        Ten in = inputFor(k.x, k.y, k.z, 3); const SimpleMatrix<double> X = toM<double>(in); out = L.propagateForward(SimpleMatrix<double>(X), 0); if (upto < 2) return; L.setBatchSize(2); out = L.propagateForward(SimpleMatrix<double>(X), 1);
        SimpleMatrix<double> g(out.dim()); for (size_t e = 0; e < g.size(); e++) g[e] = (double)(e % 5) - 1.75; grad = L.propagateBackward(X, out, g, 1, false); if (upto > 2) L.applyBatch(0.5); };
    SimpleMatrix<double> o, d, o1, d1, o2, d2; if (state) use(P, a, state, o, d); int st = state; size_t k = 0;
    if (!unused) { use(Q, b, 1, o, d); for (double& w : Q.weights) w = paramValue(k++, 0); for (double& w : Q.biases) w = paramValue(k++, 0); }
    std::string t = Q.serialize(); std::istringstream is(t); bool ok = P.deserialize(is); c.step(); c.note("%s in state %d reads %s", str(a.it).c_str(), st, str(b.it).c_str());
    c.require(ok, "a layer does not read the text of another one of its kind"); if (!unused) c.require(P.serialize() == t, "a layer that was read has another text");
    use(P, b, 3, o1, d1); if (unused) { c.require(P.weights.dim() == dim3(b.it.n, b.x * b.y * b.z, 1) && o1.dim() == dim3(b.it.n, 1, 1) && d1.size() == (size_t)b.x * b.y * b.z, "a layer that was read before its first use has another shape"); c.state(mc::Hash().i(i).i(j).i(st)); return; }
    use(Q, b, 3, o2, d2); c.step(2);
    bool shaped = kind != 3 || !st || a.x * a.y * a.z != b.x * b.y * b.z;   // the text does not say which shape of this many elements is meant
    c.require(o1.dim() == o2.dim() && (shaped ? d1.dim() == d2.dim() : d1.size() == d2.size()), "a layer that was read has outputs or gradients of another shape"); for (size_t e = 0; e < o1.size(); e++) c.require(std::fabs(o1[e] - o2[e]) < 1e-9, "output %zu of a layer that was read is %g, expected %g", e, o1[e], o2[e]);
    for (size_t e = 0; e < d1.size(); e++) c.require(std::fabs(d1[e] - d2[e]) < 1e-9, "gradient %zu of a layer that was read is %g, expected %g", e, d1[e], d2[e]);
    std::string why; A.output_labels = B.output_labels; c.require(sameParams(A, B, 1e-9, why), "after training the layer that was read: %s", why.c_str()); c.state(mc::Hash().i(kind).i(i).i(j).i(st));
}
// programs in other locales: decimal commas, groups of digits, other names of the truth values
struct Punct : std::numpunct<char> { char d, t; std::string g; Punct(char d, char t, const char* g) : d(d), t(t), g(g) {} char do_decimal_point() const override { return d; } char do_thousands_sep() const override { return t; } std::string do_grouping() const override { return g; } std::string do_truename() const override { return "wahr"; } };
struct Global { std::locale old; Global() : old(std::locale()) {} ~Global() { std::locale::global(old); } };
template <typename T> static void matrixText(Ctx& c, const std::locale& a, const std::locale& b) {
    SimpleMatrix<T> m(dim3(2, 2, 1)), r; static const double V[] = {0, 1.5, 120, 100}; for (int i = 0; i < 4; i++) m[i] = (T)(std::is_floating_point_v<T> ? V[i] * 12345 : V[i]); if constexpr (sizeof(T) > 1) m[3] = (T)1234567;
    std::ostringstream o; o.imbue(a); m.serialize(o); std::istringstream i(o.str()); i.imbue(b); c.require(r.deserialize(i) && r.dim() == m.dim(), "a matrix written in another locale cannot be read"); for (int k = 0; k < 4; k++) c.require(r[k] == m[k], "element %d of a matrix read in another locale is %g, expected %g", k, (double)r[k], (double)m[k]); c.step(2);
}
static void locales(Ctx& c) {
    static const std::vector<std::locale> L{std::locale::classic(), std::locale(std::locale::classic(), new Punct(',', '.', "\3")), std::locale(std::locale::classic(), new Punct(',', ' ', "\3")), std::locale(std::locale::classic(), new Punct('.', ',', "\3")), std::locale(std::locale::classic(), new Punct(',', '\'', "\3\2"))};
    int a = c.choose((int)L.size(), "locale when saving"), b = c.choose((int)L.size(), "locale when loading"); c.shard_point(); int v = c.choose(3, "network"), pat = c.choose(3, "values"); Global restore; std::string f = scratchFile("loc"), why; c.note("network %d, values %d, saved in locale %d, loaded in locale %d", v, pat, a, b); Quiet q;
    auto go = [&](auto M, auto B, auto names) {
        Ten in = inputFor(4, 4, 1, 5); if (v == 0) { M.addKernel(dim3(2, 2, 1), 2); M.addPooling(dim2(1, 2), dim2(2, 1), AVG); } else if (v == 1) M.addActivation(LEAKY_RELU); M.addConnectedLayer((int)names.size()); M.setOutputLabels(names);
        M.forwardPropagation(toM<double>(in)); setAll(M, pat == 2 ? 4 : pat); std::locale::global(L[a]); bool s = M.saveModel(f); std::locale::global(L[b]); bool l = B.loadModel(f); c.require(s && l, "%s fails in another locale", s ? "loading" : "saving"); c.require(sameParams(M, B, 5.1e-7, why), "a model loaded in another locale: %s", why.c_str()); c.step(2);
        std::locale::global(L[a]); std::string t = M.layers[0]->serialize(); std::locale::global(L[b]); std::istringstream is(t); c.require(B.layers[0]->deserialize(is), "a layer does not read its text in another locale"); c.require(sameParams(M, B, 5.1e-7, why), "a layer read in another locale: %s", why.c_str());
        std::string g = slurp(f); c.require(B.saveModel(f), "saving fails"); c.require(slurp(f) == g, "the file depends on the locale"); };
    if (v < 2) { std::vector<std::string> n; for (int i = 0; i < (v ? 12 : 3); i++) n.push_back("n" + std::to_string(1000 * i)); go(Model(), Model(), n); } else { std::vector<int> n{100, -999, 0, 12}; go(ModelDescription<double, int>(), ModelDescription<double, int>(), n); }
    unlink(f.c_str()); matrixText<double>(c, L[a], L[b]); matrixText<int>(c, L[a], L[b]); matrixText<unsigned char>(c, L[a], L[b]); matrixText<float>(c, L[a], L[b]); c.state(mc::Hash().i(a).i(b).i(v).i(pat));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C13", {{"programs", programs}, {"configurations", configurations}, {"labels", labels}, {"label characters", characters}, {"values", values}, {"trained", trained}, {"large", large}, {"numbers", numbers}, {"deep", deep}, {"many labels", manyLabels}, {"types", types}, {"overwriting", overwriting}, {"reading", reading}, {"locales", locales}},
        "all networks of up to 3 (thorough 4) of 13 layers on 2 input shapes, unused or with up to 6 parameter patterns; all convolutions up to 3x3*3 with strides 1..3, poolings up to 3x3 with strides up to 3x3, 31 numbers up to 100000 in 6 places of the configuration, 1..12 outputs; all label sets of up to 3 of 12 labels, and labels with every byte but the line feed at every end; all pairs of 16 parameter values in 8 positions; up to 3 training steps and 3 save/load rounds; 3 large models; models of up to 257 layers and of up to 1001 labels; all networks of up to 2 of 13 layers and an output layer over 7 pairs of data and label types; 4 networks saved up to 3 times over 8 kinds of existing file; the text of every one of the layers of a kind read into every other, which is new, used, trained or in a batch; 3 networks saved and loaded under all pairs of 5 locales");
}

// Networks assembled from a menu of layers, in the code under test and in the reference model.
#pragma once
#include "mc.h"
#include "conv.h"
#include "cnn_from_scratch/ModelDescription.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;
using ref::Layer;

struct Item { Layer::Kind kind; int a, b, n, sx, sy, mode; };     // a,b filter or window; n filters or outputs
inline std::string str(const Item& i) {
    static const char* P[3] = {"max", "min", "mean"}; static const char* A[5] = {"relu", "sigmoid", "linear", "tanh", "leaky"};
    switch (i.kind) { case Layer::CONV: return mc::fmt("conv %dx%d*%d", i.a, i.b, i.n); case Layer::POOL: return mc::fmt("%s %dx%d/%dx%d", P[i.mode], i.a, i.b, i.sx, i.sy); case Layer::ACT: return A[i.mode]; case Layer::FC: return mc::fmt("fc %d", i.n); default: return "softmax"; }
}
inline const std::vector<Item>& menu() {
    static const std::vector<Item> M = {
        {Layer::CONV, 2, 2, 2, 1, 1, 0}, {Layer::CONV, 1, 2, 1, 1, 1, 0}, {Layer::CONV, 2, 1, 3, 1, 1, 0},
        {Layer::POOL, 2, 2, 0, 2, 2, 0}, {Layer::POOL, 2, 2, 0, 1, 1, 0}, {Layer::POOL, 1, 2, 0, 1, 1, 1}, {Layer::POOL, 2, 1, 0, 1, 2, 2},
        {Layer::ACT, 0, 0, 0, 0, 0, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 1}, {Layer::ACT, 0, 0, 0, 0, 0, 2}, {Layer::ACT, 0, 0, 0, 0, 0, 3}, {Layer::ACT, 0, 0, 0, 0, 0, 4},
        {Layer::FC, 0, 0, 4, 0, 0, 0}, {Layer::FC, 0, 0, 2, 0, 0, 0}};
    return M;
}
// shape after the layer; false if the input does not fit
inline bool shapeAfter(const Item& i, int& x, int& y, int& z) {
    switch (i.kind) {
    case Layer::CONV: if (x < i.a || y < i.b) return false; x -= i.a - 1; y -= i.b - 1; z = i.n; return true;
    case Layer::POOL: if (x < i.a || y < i.b) return false; x = (x - i.a) / i.sx + 1; y = (y - i.b) / i.sy + 1; return true;
    case Layer::FC: x = i.n; y = z = 1; return true;
    default: return true;
    }
}
inline void genericFill(std::vector<double>& v, int salt, double scale) { for (size_t i = 0; i < v.size(); i++) { uint32_t h = (uint32_t)(i * 2654435761u + salt * 40503u + 31); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; v[i] = scale * (((double)(h % 20011)) / 10005.5 - 1); } }

template <typename Model> struct TwinT {
    Model M; ref::Net N; int x, y, z, labels; std::string desc; std::vector<std::string> names;
    // items must fit; an output layer with `labels` labels is appended
    TwinT(const std::vector<Item>& items, int x, int y, int z, int labels) : x(x), y(y), z(z), labels(labels) {
        int cx = x, cy = y, cz = z, salt = 3;
        for (const Item& i : items) {
            Layer L; L.kind = i.kind; L.kx = i.a; L.ky = i.b; L.nf = i.n; L.sx = i.sx; L.sy = i.sy; L.mode = i.mode; L.out = i.n;
            switch (i.kind) {
            case Layer::CONV: M.addKernel(dim3(i.a, i.b, cz), i.n); L.w = Ten(i.a, i.b, cz * i.n); L.b.resize(i.n); genericFill(L.w.v, salt++, 0.9); genericFill(L.b, salt++, 0.5); break;
            case Layer::POOL: M.addPooling(dim2(i.a, i.b), dim2(i.sx, i.sy), i.mode == 0 ? MAX : i.mode == 1 ? MIN : AVG); break;
            case Layer::ACT: M.addActivation((ModelActivationFunction)i.mode); break;
            default: M.addConnectedLayer(i.n); L.w = Ten(i.n, cx * cy * cz, 1); L.b.resize(i.n); genericFill(L.w.v, salt++, 0.7); genericFill(L.b, salt++, 0.5); break;
            }
            shapeAfter(i, cx, cy, cz); N.l.push_back(L); desc += str(i) + ", ";
        }
        for (int i = 0; i < labels; i++) names.push_back(i < 26 ? mc::fmt("label %c", 'a' + i) : mc::fmt("label %d", i));
        M.setOutputLabels(names); Layer S; S.kind = Layer::SOFT; N.l.push_back(S);
        desc += mc::fmt("softmax %d on (%d,%d,%d)", labels, x, y, z);
    }
    // give the model the reference's parameters; fully connected layers need to have been used once
    void push() { for (size_t i = 0; i < N.l.size(); i++) if (N.l[i].w.size()) { ModelLayer& L = *M.layers[i]; const Ten& w = N.l[i].w; for (int k = 0; k < w.z; k++) for (int j = 0; j < w.y; j++) for (int a = 0; a < w.x; a++) L.weights(a, j, k) = w.at(a, j, k); for (size_t j = 0; j < N.l[i].b.size(); j++) L.biases[j] = N.l[i].b[j]; } }
    void compare(Ctx& c, double tol, const char* what) {
        for (size_t i = 0; i < N.l.size(); i++) if (N.l[i].w.size()) {
            Ten b((int)N.l[i].b.size(), 1, 1); b.v = N.l[i].b;
            expectTen(c, M.layers[i]->weights, N.l[i].w, tol, mc::fmt("%s: weights of layer %zu (%s)", what, i, desc.c_str()).c_str());
            expectTen(c, M.layers[i]->biases, b, tol, mc::fmt("%s: biases of layer %zu (%s)", what, i, desc.c_str()).c_str());
        }
    }
    Ten input(int salt, double scale = 1) { Ten t(x, y, z); genericFill(t.v, 100 + salt, scale); return t; }
    // reference: accumulate the gradients of a sample
    void accumulate(const Ten& in, int label, std::vector<Ten>& gw, std::vector<std::vector<double>>& gb) {
        N.forward(in); N.backward(label);
        if (gw.empty()) { gw.resize(N.l.size()); gb.resize(N.l.size()); }
        for (size_t i = 0; i < N.l.size(); i++) if (N.l[i].w.size()) {
            if (!gw[i].size()) { gw[i] = N.l[i].dw; gb[i] = N.l[i].db; }
            else { for (size_t j = 0; j < gw[i].v.size(); j++) gw[i].v[j] += N.l[i].dw.v[j]; for (size_t j = 0; j < gb[i].size(); j++) gb[i][j] += N.l[i].db[j]; }
        }
    }
    void apply(const std::vector<Ten>& gw, const std::vector<std::vector<double>>& gb, double f) {
        for (size_t i = 0; i < gw.size(); i++) if (gw[i].size()) { for (size_t j = 0; j < gw[i].v.size(); j++) N.l[i].w.v[j] -= f * gw[i].v[j]; for (size_t j = 0; j < gb[i].size(); j++) N.l[i].b[j] -= f * gb[i][j]; }
    }
};
// a network of many layers whose values neither vanish nor grow: fully connected layers close to a permutation, with activations in between
template <typename Twin> std::unique_ptr<Twin> deepNet(int layers, int variant) {
    static const int A[3][2] = {{2, 4}, {4, 3}, {1, 2}}; std::vector<Item> items; for (int i = 0; i < layers; i++) if (i % 2 == variant % 2) items.push_back({Layer::FC, 0, 0, 3, 0, 0, 0}); else items.push_back({Layer::ACT, 0, 0, 0, 0, 0, A[variant % 3][(i / 2) % 2]});
    auto T = std::make_unique<Twin>(items, 3, 1, 1, 3); int k = 0;
    for (auto& l : T->N.l) if (l.w.size()) { k++; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) l.w.at(i, j, 0) = 0.12 * l.w.at(i, j, 0) + ((i + k) % 3 == j ? (k % 2 ? 1.05 : -0.98) : 0); }
    return T;
}
inline const std::vector<int>& depths() { static const std::vector<int> D{8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}; return D; }
// sends std::cout nowhere while alive
struct Quiet { std::streambuf* old; std::ostringstream os; Quiet() : old(std::cout.rdbuf(os.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); std::cout.clear(); } };
template <typename T> struct Source : DataGenerator<T> {
    std::vector<Ten> in; std::vector<std::string> lab; size_t pos = 0; int fetched = 0, resets = 0;
    bool hasAvailableData() override { return pos < in.size(); }
    size_t size() override { return in.size(); }
    LabeledInput<T> getNextDataPoint() override { LabeledInput<T> d; d.data = toM<T>(in.at(pos)); d.label = lab.at(pos); pos++; fetched++; return d; }
    void reset() override { pos = 0; resets++; }
};

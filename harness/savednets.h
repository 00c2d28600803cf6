// Models with every kind of layer configuration, for saving and loading.
#pragma once
#include "nets.h"
#include "fixedrand.h"
#include <unistd.h>
typedef ModelDescription<double, std::string> Model;

struct SItem { int kind; int a, b, n, s, sy, mode; };            // 0 conv(a,b,n filters, stride s) 1 pool(a,b, stride s,sy, mode) 2 activation(mode) 3 fc(n)
inline std::string str(const SItem& i) {
    static const char* P[3] = {"max", "min", "mean"}; static const char* A[5] = {"relu", "sigmoid", "linear", "tanh", "leaky"};
    switch (i.kind) { case 0: return mc::fmt("conv %dx%d*%d/%d", i.a, i.b, i.n, i.s); case 1: return mc::fmt("%s %dx%d/%dx%d", P[i.mode], i.a, i.b, i.s, i.sy); case 2: return A[i.mode]; default: return mc::fmt("fc %d", i.n); }
}
inline const std::vector<SItem>& smenu() {
    static const std::vector<SItem> M = {{0, 2, 2, 2, 1, 0, 0}, {0, 1, 2, 1, 2, 0, 0}, {0, 2, 1, 3, 1, 0, 0},
        {1, 2, 2, 0, 2, 2, 0}, {1, 2, 1, 0, 1, 2, 1}, {1, 1, 2, 0, 2, 1, 2}, {2, 0, 0, 0, 0, 0, 0}, {2, 0, 0, 0, 0, 0, 1}, {2, 0, 0, 0, 0, 0, 2}, {2, 0, 0, 0, 0, 0, 3}, {2, 0, 0, 0, 0, 0, 4}, {3, 0, 0, 3, 0, 0, 0}, {3, 0, 0, 1, 0, 0, 0}};
    return M;
}
inline bool sfit(const SItem& i, int& x, int& y, int& z) {
    switch (i.kind) {
    case 0: if (x < i.a || y < i.b) return false; x = (x - i.a) / i.s + 1; y = (y - i.b) / i.s + 1; z = i.n; return true;
    case 1: if (x < i.a || y < i.b) return false; x = (x - i.a) / i.s + 1; y = (y - i.b) / i.sy + 1; return true;
    case 3: x = i.n; y = z = 1; return true;
    default: return true;
    }
}
// adds the layers; returns the shape of the result in x,y,z
template <class ModelT> void build(ModelT& M, const std::vector<SItem>& items, int& x, int& y, int& z) {
    for (auto& i : items) {
        switch (i.kind) {
        case 0: { Kernel& K = M.addKernel(dim3(i.a, i.b, z), i.n); K.stride = i.s; break; }
        case 1: M.addPooling(dim2(i.a, i.b), dim2(i.s, i.sy), i.mode == 0 ? MAX : i.mode == 1 ? MIN : AVG); break;
        case 2: M.addActivation((ModelActivationFunction)i.mode); break;
        default: M.addConnectedLayer(i.n);
        }
        sfit(i, x, y, z);
    }
}
// parameter values; all but patterns 2 and 3 are multiples of 1e-6
static const int NVALUES = 6;
inline double paramValue(size_t i, int pat) {
    uint32_t h = (uint32_t)(i * 2654435761u + 77); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
    switch (pat) {
    case 0: return ((int)(h % 2000001) - 1000000) / 1e6;
    case 1: return i % 4 == 0 ? 0.0 : i % 4 == 1 ? -0.5 : i % 4 == 2 ? 123456.789012 : -99999.000001;
    case 2: return i % 3 == 0 ? 1e-7 * (1 + i) : i % 3 == 1 ? -4.9e-7 : 0.33333333333333;      // rounded
    case 3: return (i % 2 ? -1 : 1) * 1.2345678901e9 * (1 + i % 5);                            // wider than a column
    case 4: return -(double)(h % 1000) - 1;
    default: return i % 2 ? 0.000001 : -0.000001;
    }
}
template <class ModelT> size_t setAll(ModelT& M, int pat) { size_t k = 0; for (auto& l : M.layers) { for (double& w : l->weights) w = paramValue(k++, pat); for (double& b : l->biases) b = paramValue(k++, pat); } return k; }
inline std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
inline void spit(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
inline std::string scratchFile(const char* tag) { const char* d = getenv("MC_SCRATCH"); return mc::fmt("%s/%s.%d", d ? d : ".", tag, (int)getpid()); }
template <class MA, class MB> bool sameParams(const MA& A, const MB& B, double tol, std::string& why) {
    if (A.layers.size() != B.layers.size()) { why = mc::fmt("%zu layers instead of %zu", B.layers.size(), A.layers.size()); return false; }
    for (size_t i = 0; i < A.layers.size(); i++) {
        const ModelLayer &a = *A.layers[i], &b = *B.layers[i];
        if (a.getType() != b.getType()) { why = mc::fmt("layer %zu is of another kind", i); return false; }
        if (!(a.weights.dim() == b.weights.dim()) || !(a.biases.dim() == b.biases.dim())) { why = mc::fmt("parameters of layer %zu have another shape", i); return false; }
        for (size_t j = 0; j < a.weights.size(); j++) if (!(std::fabs(a.weights[j] - b.weights[j]) <= tol + 1e-14 * std::fabs(a.weights[j]))) { why = mc::fmt("weight %zu of layer %zu is %.12g instead of %.12g", j, i, b.weights[j], a.weights[j]); return false; }
        for (size_t j = 0; j < a.biases.size(); j++) if (!(std::fabs(a.biases[j] - b.biases[j]) <= tol + 1e-14 * std::fabs(a.biases[j]))) { why = mc::fmt("bias %zu of layer %zu is %.12g instead of %.12g", j, i, b.biases[j], a.biases[j]); return false; }
    }
    if (A.output_labels != B.output_labels) { why = "the labels differ"; return false; }
    return true;
}

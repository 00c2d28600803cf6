// Configurations of a convolution layer, shared by C06 and C07.
#pragma once
#include "mc.h"
#include "conv.h"
#include "cnn_from_scratch/Layers/Kernel.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

struct ConvCfg { int kx, ky, ch, nf, s, x, y; };
inline std::string str(const ConvCfg& k) { return mc::fmt("%d filters (%d,%d,%d) stride %d on input (%d,%d,%d)", k.nf, k.kx, k.ky, k.ch, k.s, k.x, k.y, k.ch); }
// depth 0: up to 4x4 filters on 6x6 inputs; 1: 5x5 on 8x8; 2: 6x6 on 11x11
inline ConvCfg chooseCfg(Ctx& c, int depth) {
    ConvCfg k; static const int KM[3] = {4, 5, 6}, CM[3] = {3, 4, 4}, SM[3] = {3, 4, 5}, IM[3] = {6, 8, 11};
    int F = KM[depth], C = CM[depth], S = SM[depth], I = IM[depth];
    k.kx = c.range(1, F, "filter rows"); k.ky = c.range(1, F, "filter columns");
    k.ch = c.range(1, C, "channels"); k.nf = c.range(1, C, "filters"); c.shard_point();
    k.s = c.range(1, S, "stride");
    k.x = k.kx + c.choose(I - k.kx + 1, "input rows"); k.y = k.ky + c.choose(I - k.ky + 1, "input columns");
    return k;
}
// sizes that do not fit in a byte, image-like sizes, many channels or filters
inline ConvCfg chooseLarge(Ctx& c) {
    static const std::vector<ConvCfg> L = {
        {5, 5, 1, 2, 1, 28, 28}, {3, 3, 3, 4, 1, 13, 12}, {1, 1, 1, 1, 1, 300, 2}, {2, 1, 1, 1, 1, 2, 300}, {2, 2, 1, 1, 7, 290, 9}, {1, 2, 300, 1, 1, 2, 3},
        {2, 1, 2, 300, 1, 3, 2}, {1, 1, 20, 20, 1, 2, 2}, {270, 1, 1, 2, 1, 271, 2}, {1, 270, 2, 1, 3, 2, 290}, {2, 2, 1, 1, 280, 600, 3}, {3, 2, 17, 5, 2, 9, 11}, {10, 10, 1, 1, 1, 10, 10}};
    ConvCfg k = c.pick(L, "configuration"); c.shard_point(); return k;
}
// configurations of two layers that live side by side
inline const std::vector<ConvCfg>& pairMenu(bool all) {
    static std::vector<ConvCfg> v[2];
    if (!v[all].empty()) return v[all];
    for (int kx = 1; kx <= 3; kx++) for (int ky = 1; ky <= 3; ky++) for (int x = kx; x <= kx + (all ? 2 : 1); x++) for (int y = ky; y <= ky + (all ? 2 : 1); y++) for (int cf = 0; cf < (all ? 4 : 3); cf++)
        v[all].push_back({kx, ky, cf == 1 || cf == 3 ? 2 : 1, cf == 2 || cf == 3 ? 2 : 1, 1 + (all && (x + y) % 3 == 0), x, y});
    for (int s = 1; s <= 4; s++) for (auto k : {ConvCfg{1, 1, 1, 1, s, 6, 5}, ConvCfg{2, 2, 1, 1, s, 6, 5}, ConvCfg{2, 1, 1, 2, s, 6, 5}, ConvCfg{1, 1, 2, 1, s, 6, 5}, ConvCfg{3, 3, 1, 1, s, 7, 7}}) v[all].push_back(k);      // which only differ in their stride
    return v[all];
}
// operands are small integers times powers of two, so that every result is exact
inline const std::vector<int>& exponents() { static const std::vector<int> v{-300, -100, -40, -20, 0, 20, 40, 100, 300}; return v; }
inline void scaled(Ten& t, int e) { for (double& d : t.v) d = std::ldexp(d, e); }
inline const std::vector<ConvCfg>& scaledMenu() { static const std::vector<ConvCfg> v{{1, 1, 1, 1, 1, 1, 1}, {2, 2, 1, 1, 1, 3, 4}, {1, 3, 2, 2, 1, 3, 4}, {3, 1, 2, 2, 2, 5, 2}, {2, 3, 1, 3, 2, 4, 5}, {2, 2, 3, 2, 1, 3, 3}, {5, 5, 2, 2, 1, 9, 8}}; return v; }
static const int NPAT = 6;
// deterministic values; all but the last two give exact arithmetic
inline void fill(Ten& t, int pat, int salt) {
    for (size_t i = 0; i < t.v.size(); i++) {
        uint32_t h = (uint32_t)(i * 2654435761u + salt * 40503u + 12345); h ^= h >> 15; h *= 2246822519u; h ^= h >> 13;
        switch (pat) {
        case 0: t.v[i] = (double)(h % 19) - 9; break;
        case 1: t.v[i] = (double)(i + 1); break;
        case 2: t.v[i] = h % 3 == 0 ? 0 : h % 3 == 1 ? -1 : 1; break;
        case 3: t.v[i] = -(double)(h % 7) - 1; break;
        case 5: t.v[i] = 1 + (double)(h % 1000) / 1001; break;     // needs the whole precision of a double
        default: t.v[i] = std::ldexp((double)(h % 2001) - 1000, (int)(h >> 20) % 12 - 10); break;
        }
    }
}
inline void setParams(Ctx& c, Kernel& K, const Ten& w, const std::vector<double>& b) {
    expectShape(c, K.weights, w.x, w.y, w.z, "weights of a new layer");
    c.require(K.biases.size() == b.size(), "a new layer with %zu filters has %zu biases", b.size(), K.biases.size());
    for (double v : K.weights) c.require(std::isfinite(v), "weight of a new layer is %g", v);
    for (double v : K.biases) c.require(std::isfinite(v), "bias of a new layer is %g", v);
    for (int k = 0; k < w.z; k++) for (int j = 0; j < w.y; j++) for (int i = 0; i < w.x; i++) K.weights(i, j, k) = w.at(i, j, k);
    for (size_t i = 0; i < b.size(); i++) K.biases[i] = b[i];
}

// Reference model: dense tensors and layers written as plain loops, independent of the code under test.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>
#include "mc.h"

namespace ref {

struct Ten {
    int x = 0, y = 0, z = 0;
    std::vector<double> v;
    Ten() {}
    Ten(int x, int y, int z, double f = 0) : x(x), y(y), z(z), v((size_t)x * y * z, f) {}
    double& at(int i, int j, int k) { return v[((size_t)k * y + j) * x + i]; }
    double at(int i, int j, int k) const { return v[((size_t)k * y + j) * x + i]; }
    size_t size() const { return v.size(); }
    bool same(const Ten& o) const { return x == o.x && y == o.y && z == o.z; }
    uint64_t hash() const { mc::Hash h; h.i(x).i(y).i(z); for (double d : v) h.d(d); return h; }
    std::string dims() const { return mc::fmt("(%d,%d,%d)", x, y, z); }
};

// --- convolution: weights hold filter f's channels in channels [f*c, (f+1)*c) ---
inline Ten conv(const Ten& in, const Ten& w, const std::vector<double>& b, int nf, int s) {
    int c = in.z;
    Ten o((in.x - w.x) / s + 1, (in.y - w.y) / s + 1, nf);
    for (int f = 0; f < nf; f++) for (int i = 0; i < o.x; i++) for (int j = 0; j < o.y; j++) {
        double a = 0;
        for (int k = 0; k < c; k++) for (int u = 0; u < w.x; u++) for (int t = 0; t < w.y; t++)
            a += in.at(i * s + u, j * s + t, k) * w.at(u, t, f * c + k);
        o.at(i, j, f) = a + b[f];
    }
    return o;
}
inline void convGrad(const Ten& in, const Ten& w, int nf, int s, const Ten& g, Ten& dw, std::vector<double>& db, Ten& dx) {
    int c = in.z;
    dw = Ten(w.x, w.y, w.z); db.assign(nf, 0); dx = Ten(in.x, in.y, in.z);
    for (int f = 0; f < nf; f++) for (int i = 0; i < g.x; i++) for (int j = 0; j < g.y; j++) {
        double q = g.at(i, j, f); db[f] += q;
        for (int k = 0; k < c; k++) for (int u = 0; u < w.x; u++) for (int t = 0; t < w.y; t++) {
            dw.at(u, t, f * c + k) += q * in.at(i * s + u, j * s + t, k);
            dx.at(i * s + u, j * s + t, k) += q * w.at(u, t, f * c + k);
        }
    }
}

// --- pooling: kind 0 max, 1 min, 2 mean ---
inline Ten pool(const Ten& in, int px, int py, int sx, int sy, int kind) {
    Ten o((in.x - px) / sx + 1, (in.y - py) / sy + 1, in.z);
    for (int k = 0; k < o.z; k++) for (int j = 0; j < o.y; j++) for (int i = 0; i < o.x; i++) {
        double e = in.at(i * sx, j * sy, k), sum = 0;
        for (int u = 0; u < px; u++) for (int t = 0; t < py; t++) {
            double q = in.at(i * sx + u, j * sy + t, k);
            sum += q;
            if (kind == 0) e = std::max(e, q); else e = std::min(e, q);
        }
        o.at(i, j, k) = kind == 2 ? sum / (px * py) : e;
    }
    return o;
}
// Gradient; for max/min requires the extreme of every window to be unique (else *tie = true)
inline Ten poolGrad(const Ten& in, int px, int py, int sx, int sy, int kind, const Ten& g, bool* tie = nullptr) {
    Ten d(in.x, in.y, in.z);
    for (int k = 0; k < g.z; k++) for (int j = 0; j < g.y; j++) for (int i = 0; i < g.x; i++) {
        if (kind == 2) {
            for (int u = 0; u < px; u++) for (int t = 0; t < py; t++) d.at(i * sx + u, j * sy + t, k) += g.at(i, j, k) / (px * py);
        } else {
            int bu = 0, bt = 0; double e = in.at(i * sx, j * sy, k); int n = 0;
            for (int t = 0; t < py; t++) for (int u = 0; u < px; u++) {
                double q = in.at(i * sx + u, j * sy + t, k);
                if (kind == 0 ? q > e : q < e) { e = q; bu = u; bt = t; n = 0; }
                if (q == e) n++;
            }
            if (n > 1 && tie) *tie = true;
            d.at(i * sx + bu, j * sy + bt, k) += g.at(i, j, k);
        }
    }
    return d;
}

// --- activations, in enum order RELU, SIGMOID, LINEAR, TANGENT, LEAKY_RELU ---
inline double act(int kind, double v) {
    switch (kind) {
        case 0: return v > 0 ? v : 0;
        case 1: return 1 / (1 + std::exp(-v));
        case 2: return v;
        case 3: return std::tanh(v);
        default: return v > 0 ? v : 0.1 * v;
    }
}
inline double actGrad(int kind, double v) {
    switch (kind) {
        case 0: return v > 0 ? 1 : 0;
        case 1: { double s = act(1, v); return s * (1 - s); }
        case 2: return 1;
        case 3: { double t = std::tanh(v); return 1 - t * t; }
        default: return v > 0 ? 1 : 0.1;
    }
}
inline std::vector<double> softmax(const std::vector<double>& s) {
    double m = *std::max_element(s.begin(), s.end()), t = 0;
    std::vector<double> o(s.size());
    for (size_t i = 0; i < s.size(); i++) t += o[i] = std::exp(s[i] - m);
    for (double& d : o) d /= t;
    return o;
}

// --- networks ---
struct Layer {
    enum Kind { CONV, POOL, ACT, FC, SOFT } kind;
    int kx = 0, ky = 0, nf = 0;            // conv (kx,ky,nf); pool (kx,ky)
    int sx = 1, sy = 1, mode = 0;          // pool stride and kind; activation kind
    int out = 0;                           // fc
    Ten w; std::vector<double> b;          // parameters
    Ten in;                                // input of the last forward pass
    Ten dw; std::vector<double> db;        // gradients of the last backward pass
};
struct Net {
    std::vector<Layer> l;
    Ten out;
    // Runs forward; parameters must have been set
    const Ten& forward(const Ten& input) {
        Ten a = input;
        for (Layer& L : l) {
            L.in = a;
            switch (L.kind) {
                case Layer::CONV: a = conv(a, L.w, L.b, L.nf, 1); break;
                case Layer::POOL: a = pool(a, L.kx, L.ky, L.sx, L.sy, L.mode); break;
                case Layer::ACT: for (double& d : a.v) d = act(L.mode, d); break;
                case Layer::FC: {
                    Ten o(L.out, 1, 1);
                    for (int i = 0; i < L.out; i++) { double s = 0; for (size_t j = 0; j < a.v.size(); j++) s += L.w.at(i, (int)j, 0) * a.v[j]; o.v[i] = s + L.b[i]; }
                    a = o; break;
                }
                case Layer::SOFT: a.v = softmax(a.v); break;
            }
        }
        return out = a;
    }
    double loss(int label) const { return -std::log(out.v[label]); }
    // Gradient of -ln p[label] with respect to everything
    Ten backward(int label) {
        Ten g = out;
        for (int i = (int)l.size() - 1; i >= 0; i--) {
            Layer& L = l[i];
            switch (L.kind) {
                case Layer::SOFT: g.v[label] -= 1; break;
                case Layer::FC: {
                    L.dw = Ten(L.w.x, L.w.y, 1); L.db = g.v; Ten d(L.in.x, L.in.y, L.in.z);
                    for (int a = 0; a < L.out; a++) for (size_t j = 0; j < L.in.v.size(); j++) { L.dw.at(a, (int)j, 0) = g.v[a] * L.in.v[j]; d.v[j] += g.v[a] * L.w.at(a, (int)j, 0); }
                    g = d; break;
                }
                case Layer::ACT: for (size_t j = 0; j < g.v.size(); j++) g.v[j] *= actGrad(L.mode, L.in.v[j]); break;
                case Layer::POOL: g = poolGrad(L.in, L.kx, L.ky, L.sx, L.sy, L.mode, g); break;
                case Layer::CONV: { Ten d; convGrad(L.in, L.w, L.nf, 1, g, L.dw, L.db, d); g = d; break; }
            }
        }
        return g;
    }
};

inline bool close(double a, double b, double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

} // namespace ref

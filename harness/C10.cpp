// C10: activation layers apply their function and its exact derivative.
#include "mc.h"
#include "conv.h"
#include "cnn_from_scratch/Layers/Activation.h"
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

static const ModelActivationFunction KIND[5] = {RELU, SIGMOID, LINEAR, TANGENT, LEAKY_RELU};
static const char* NAME[5] = {"RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU"};
// 2e-8 covers the slope 0.1f of the leaky unit
// the logistic function of large negative values is tiny, but not zero
static bool nearF(int kind, double a, double b) { return a == b || std::fabs(a - b) <= 2e-8 * std::fabs(b) + (kind == 1 ? 5e-324 : 1e-15); }
static bool near(double a, double b) { return a == b || std::fabs(a - b) <= 2e-8 * std::fabs(b) + 1e-15; }
static void one(Ctx& c, int kind, const Ten& in, const Ten& g) {
    c.note("%s of %s, gradient %s", NAME[kind], show(in).c_str(), show(g).c_str());
    Activation A(KIND[kind]); const SimpleMatrix<double> X = toM<double>(in);
    SimpleMatrix<double> Z = A.propagateForward(SimpleMatrix<double>(X)); c.step();
    expectShape(c, Z, in.x, in.y, in.z, "activated output");
    for (size_t i = 0; i < in.v.size(); i++) { double e = ref::act(kind, in.v[i]); c.require(nearF(kind, Z[i], e), "%s(%.17g) at position %zu is %.17g, expected %.17g", NAME[kind], in.v[i], i, Z[i], e); }
    SimpleMatrix<double> d = A.propagateBackward(X, Z, toM<double>(g), 0, c.flip("first layer")); c.step();
    expectShape(c, d, in.x, in.y, in.z, "gradient");
    for (size_t i = 0; i < in.v.size(); i++) {
        double e = ref::actGrad(kind, in.v[i]) * g.v[i], alt = e;
        if (in.v[i] == 0 && (kind == 0 || kind == 4)) alt = g.v[i];              // no derivative at the kink: either side
        c.require(near(d[i], e) || near(d[i], alt) || std::fabs(d[i] - e) <= 4e-16 * std::fabs(g.v[i]), "derivative of %s at %.17g times %.17g (position %zu) is %.17g, expected %.17g", NAME[kind], in.v[i], g.v[i], i, d[i], e);
    }
    // the layer keeps no state
    SimpleMatrix<double> Z2 = static_cast<ModelLayer&>(A).propagateForward(SimpleMatrix<double>(X), 3); c.step();
    for (size_t i = 0; i < in.v.size(); i++) c.require(Z2[i] == Z[i], "second output differs at %zu", i);
    c.state(mc::Hash().i(kind).i(in.hash()).i(g.hash()));
}
static std::vector<double> grid() {
    std::vector<double> v{0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e-9, -1e-9, 20, -20, 36.7, -36.7, 50, -50, 200, -200, 709.5, -709.5, 710, -710, 746, -746, 1000, -1000, 1e6, -1e6, 1e300, -1e300, 1.7e308, -1.7e308};
    for (int i = -64; i <= 64; i++) v.push_back(i / 8.0);
    for (int i = -20; i <= 20; i++) v.push_back(i / 1000.0);
    return v;
}
// every value of a grid, by itself and with every kind of gradient
static void values(Ctx& c) {
    static const std::vector<double> V = grid(), G{1, -2.5, 0, 1e-5, 1e5};
    int kind = c.choose(5, "kind"); Ten in(1, 1, 1), g(1, 1, 1); in.v[0] = c.pick(V, "value"); c.shard_point(); g.v[0] = c.pick(G, "gradient");
    one(c, kind, in, g);
}
static void shapes(Ctx& c) {
    int m = c.thorough() ? 6 : 4; static const std::vector<double> V = grid();
    int kind = c.choose(5, "kind"), x = c.range(0, m, "rows"), y = c.range(0, m, "columns"), z = c.range(0, 3, "channels"); c.shard_point(); int p = c.choose(3, "values");
    Ten in(x, y, z), g(x, y, z); for (size_t i = 0; i < in.v.size(); i++) { in.v[i] = p == 0 ? (double)i / 4 - 2 : p == 1 ? V[(i * 31 + 7) % V.size()] : -1.0 - (double)i; g.v[i] = p == 0 ? 1 + (double)i : p == 1 ? (double)((i * 13) % 7) - 3 : 0.5; }
    one(c, kind, in, g);
}
static void large(Ctx& c) {
    static const std::vector<std::array<int, 3>> S{{300, 1, 1}, {1, 300, 2}, {2, 2, 300}, {28, 28, 2}};
    int kind = c.choose(5, "kind"); auto s = c.pick(S, "shape"); c.shard_point(); Ten in(s[0], s[1], s[2]), g(s[0], s[1], s[2]);
    for (size_t i = 0; i < in.v.size(); i++) { in.v[i] = (double)(i % 37) / 4 - 4.5; g.v[i] = (double)(i % 11) - 5; } one(c, kind, in, g);
}
static void names(Ctx& c) {
    c.shard_point();
    for (int k = 0; k < 5; k++) {
        std::string s = toString(KIND[k]); c.step(2);
        c.require(fromString(s) == KIND[k], "kind %s converts to the name %s and back to another kind", NAME[k], s.c_str());
        c.require(fromString(NAME[k]) == KIND[k], "name %s is another kind", NAME[k]);
        for (int j = 0; j < k; j++) c.require(toString(KIND[j]) != s, "two kinds have the name %s", s.c_str());
        c.state(k);
    }
    static const std::vector<std::string> bad{"", " ", "relu", "Relu", "RELU ", " RELU", "RELUX", "REL", "RELU\n", "RELU\r", "LEAKY", "LEAKY RELU", "LEAKY_REL", "LEAKY_RELU_", "TANH", "TANGEN", "SIGMOIDS", "SIGMOI", "LINEA", "LINEARR", "0", "1", "5", "SOFTMAX", std::string("RELU\0", 5), "XRELU"};
    static const char* PAD[] = {" ", "  ", "   ", "    ", "\t", "\n", "\r", "\r\n", "\v", "_", ".", "0", "x", "\xff"}; std::vector<std::string> pad; for (const char* n : NAME) for (const char* p : PAD) { pad.push_back(n + std::string(p)); pad.push_back(p + std::string(n)); pad.push_back(p + std::string(n) + p); }
    for (const char* n : NAME) { std::string s = n; for (size_t i = 0; i < s.size(); i++) { pad.push_back(s.substr(0, i)); pad.push_back(s.substr(i + 1)); pad.push_back(s.substr(0, i) + (char)tolower(s[i]) + s.substr(i + 1)); pad.push_back(s.substr(0, i) + '?' + s.substr(i + 1)); pad.push_back(s.substr(0, i) + s.substr(i + 1)); pad.push_back(s.substr(0, i) + " " + s.substr(i)); pad.push_back(s.substr(0, i) + s[i] + s.substr(i)); } for (const char* m : NAME) { pad.push_back(s + m); pad.push_back(s + "\n" + m); pad.push_back(s + " " + m); } }
    pad.insert(pad.end(), bad.begin(), bad.end()); for (const char* n : NAME) pad.erase(std::remove(pad.begin(), pad.end(), n), pad.end());
    for (auto& s : pad) { bool t = false; try { fromString(s); } catch (std::exception&) { t = true; } c.require(t, "\"%s\" is accepted as a kind", s.c_str()); c.step(); c.state(mc::Hash().s(s)); }
    for (int k = 5; k < 8; k++) { bool t = false; try { toString((ModelActivationFunction)k); } catch (std::exception&) { t = true; } c.require(t, "kind %d has a name", k); c.step(); }
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C10", {{"values", values}, {"shapes", shapes}, {"large shapes", large}, {"names", names}},
        "5 kinds x 200 values from subnormal to 1.7e308 x 5 gradients; all shapes up to 4x4x3 (thorough 6x6x3) including empty ones; 4 large shapes; all kinds and over 500 wrong names: every name padded, cut, joined to another and with any one character changed, removed, doubled or in lower case");
}

// Conversions between the code under test's matrices and reference tensors, and comparisons.
#pragma once
#include <sstream>
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "ref.h"

template <typename T> my_cnn::SimpleMatrix<T> toM(const ref::Ten& t) {
    my_cnn::SimpleMatrix<T> m(my_cnn::dim3(t.x, t.y, t.z));
    for (int k = 0; k < t.z; k++) for (int j = 0; j < t.y; j++) for (int i = 0; i < t.x; i++) m(i, j, k) = (T)t.at(i, j, k);
    return m;
}
template <typename T> ref::Ten fromM(const my_cnn::SimpleMatrix<T>& m) {
    ref::Ten t(m.dim().x, m.dim().y, m.dim().z);
    for (int k = 0; k < t.z; k++) for (int j = 0; j < t.y; j++) for (int i = 0; i < t.x; i++) t.at(i, j, k) = (double)m(i, j, k);
    return t;
}
inline std::string show(const ref::Ten& t) {
    std::string s = t.dims() + "[";
    for (size_t i = 0; i < t.v.size() && i < 40; i++) s += mc::fmt("%s%g", i ? " " : "", t.v[i]);
    return s + (t.v.size() > 40 ? " ...]" : "]");
}
template <typename T>
void expectShape(mc::Ctx& c, const my_cnn::SimpleMatrix<T>& m, int x, int y, int z, const char* what) {
    c.require(m.dim().x == x && m.dim().y == y && m.dim().z == z && m.size() == (size_t)x * y * z,
              "%s: shape is (%d,%d,%d) size %zu, expected (%d,%d,%d)", what, m.dim().x, m.dim().y, m.dim().z, m.size(), x, y, z);
}
// Compare within tol relative to the largest magnitude involved
template <typename T>
void expectTen(mc::Ctx& c, const my_cnn::SimpleMatrix<T>& m, const ref::Ten& t, double tol, const char* what) {
    expectShape(c, m, t.x, t.y, t.z, what);
    double scale = 1e-300;
    for (double d : t.v) scale = std::max(scale, std::fabs(d));
    if (scale < 1) scale = std::max(scale, 1e-3);
    for (int k = 0; k < t.z; k++) for (int j = 0; j < t.y; j++) for (int i = 0; i < t.x; i++) {
        double a = (double)m(i, j, k), b = t.at(i, j, k);
        if (!(std::fabs(a - b) <= tol * scale) && !(a == b))
            c.fail(mc::fmt("%s: entry (%d,%d,%d) is %.17g, expected %.17g", what, i, j, k, a, b));
    }
}

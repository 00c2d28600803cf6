// C15: matrices keep shape, storage and iteration consistent over any history.
#include "mc.h"
#include "conv.h"
#include <memory>
using namespace my_cnn;
using mc::Ctx;

template <typename T> struct Model { int x = 0, y = 0, z = 0; std::vector<T> v; };   // v in storage order

static size_t flat(int X, int Y, int i, int j, int k) { return ((size_t)k * Y + j) * X + i; }

template <typename T> uint64_t hashOf(const Model<T>& r) { mc::Hash h; h.i(r.x).i(r.y).i(r.z); for (auto e : r.v) h.d((double)e); return h; }

// Full observation of a matrix against the model
template <typename T> void observe(Ctx& c, SimpleMatrix<T>& m, const Model<T>& r, const char* when) {
    const SimpleMatrix<T>& cm = m;
    c.require(m.dim().x == r.x && m.dim().y == r.y && m.dim().z == r.z, "%s: dim is (%d,%d,%d), expected (%d,%d,%d)", when, m.dim().x, m.dim().y, m.dim().z, r.x, r.y, r.z);
    c.require((int)m.dim(0) == r.x && (int)m.dim(1) == r.y && (int)m.dim(2) == r.z && m.dims() == dim3(r.x, r.y, r.z), "%s: dim accessors disagree", when);
    c.require(m.size() == r.v.size(), "%s: size is %zu, expected %zu", when, m.size(), r.v.size());
    c.require(m.isSquare() == (r.x == r.y) && m.isFlat() == (r.z == 1) && m.isRow() == (r.z == 1 && r.x == 1) && m.isColumn() == (r.z == 1 && r.y == 1), "%s: shape predicates wrong", when);
    for (int k = 0; k < r.z; k++) for (int j = 0; j < r.y; j++) for (int i = 0; i < r.x; i++) {
        size_t f = flat(r.x, r.y, i, j, k);
        c.require(m.getIndex(i, j, k) == f && m.getIndex(dim3(i, j, k)) == f, "%s: getIndex(%d,%d,%d)=%zu expected %zu", when, i, j, k, m.getIndex(i, j, k), f);
        T e = r.v[f];
        c.require(m(i, j, k) == e && cm(i, j, k) == e && m(dim3(i, j, k)) == e && cm(dim3(i, j, k)) == e && m[f] == e && cm[f] == e,
                  "%s: element (%d,%d,%d) is %g, expected %g", when, i, j, k, (double)m(i, j, k), (double)e);
    }
    // iteration: every element once, in storage order, with its index
    size_t n = 0;
    for (auto it = m.begin(); it != m.end(); ++it, ++n) {
        c.require(n < r.v.size(), "%s: iteration visits more than %zu elements of a matrix (%d,%d,%d)", when, r.v.size(), r.x, r.y, r.z);
        int i = n % r.x, j = n / r.x % r.y, k = n / r.x / r.y;
        c.require(it.idx().x == i && it.idx().y == j && it.idx().z == k, "%s: iteration step %zu has index (%d,%d,%d)", when, n, it.idx().x, it.idx().y, it.idx().z);
        c.require(&*it == &m[n], "%s: iteration step %zu does not reference element %zu", when, n, n);
    }
    c.require(n == r.v.size(), "%s: iteration visits %zu of %zu elements", when, n, r.v.size());
    n = 0;
    for (auto it = cm.begin(); it != cm.end(); it++, ++n) {
        c.require(n < r.v.size(), "%s: const iteration visits too many elements", when);
        c.require(&*it == &cm[n], "%s: const iteration step %zu wrong", when, n);
        c.require((size_t)(it - cm.begin()) == n, "%s: iterator difference wrong at %zu", when, n);
    }
    c.require(n == r.v.size(), "%s: const iteration visits %zu of %zu", when, n, r.v.size());
    c.require((size_t)(m.end() - m.begin()) == r.v.size(), "%s: end-begin is %ld, expected %zu", when, (long)(m.end() - m.begin()), r.v.size());
    n = 0; for (auto& e : m) { c.require(n < r.v.size() && e == r.v[n], "%s: range-for element %zu wrong", when, n); n++; }
    c.require(n == r.v.size(), "%s: range-for visits %zu of %zu", when, n, r.v.size());
    // iterators can be created at any index and go on from there
    if (r.v.size() <= 64) for (n = 0; n < r.v.size(); n++) {
        dim3 at((int)(n % r.x), (int)(n / r.x % r.y), (int)(n / r.x / r.y)); MatrixIterator<SimpleMatrix<T>&> it(m, at); MatrixIterator<const SimpleMatrix<T>&> ct(cm, at);
        c.require(&*it == &m[n] && &*ct == &cm[n] && it.operator->() == &m[n] && it.idx() == at && (size_t)(it - m.begin()) == n && (size_t)(ct - cm.begin()) == n && (size_t)(m.end() - it) == r.v.size() - n, "%s: an iterator created at (%d,%d,%d) is elsewhere", when, at.x, at.y, at.z);
        auto old = it++; c.require(&*old == &m[n] && (n + 1 == r.v.size() ? it == m.end() : it != m.end() && &*it == &m[n + 1]), "%s: an iterator created at (%d,%d,%d) does not go on to the next element", when, at.x, at.y, at.z); size_t left = 0; for (; ct != cm.end(); ++ct) left++; c.require(left == r.v.size() - n, "%s: an iterator created at (%d,%d,%d) has %zu elements left", when, at.x, at.y, at.z, left);
    }
    if (!r.v.empty()) {
        size_t mi = std::min_element(r.v.begin(), r.v.end()) - r.v.begin(), ma = std::max_element(r.v.begin(), r.v.end()) - r.v.begin();
        c.require(m.minIndex() == mi, "%s: minIndex %zu expected %zu", when, m.minIndex(), mi);
        c.require(m.maxIndex() == ma, "%s: maxIndex %zu expected %zu", when, m.maxIndex(), ma);
    }
}

template <typename T> Model<T> filled(int x, int y, int z, int pat) {
    Model<T> r; r.x = x; r.y = y; r.z = z; r.v.resize((size_t)x * y * z);
    for (size_t n = 0; n < r.v.size(); n++) r.v[n] = pat == 0 ? (T)(n * 7 % 97 + 1) : pat == 1 ? (T)((n * 5 + 3) % 4) : (T)(int)(50 - (int)(n % 100));
    return r;
}
// the row-by-row listing of a model
template <typename T> std::vector<T> listing(const Model<T>& r) {
    std::vector<T> o;
    for (int k = 0; k < r.z; k++) for (int i = 0; i < r.x; i++) for (int j = 0; j < r.y; j++) o.push_back(r.v[flat(r.x, r.y, i, j, k)]);
    return o;
}
template <typename T> SimpleMatrix<T> build(const Model<T>& r) {
    SimpleMatrix<T> m(dim3(r.x, r.y, r.z));
    for (size_t n = 0; n < r.v.size(); n++) m[n] = r.v[n];
    return m;
}

template <typename F> void expectThrow(Ctx& c, F f, const char* what) {
    bool thrown = false;
    try { f(); } catch (std::exception&) { thrown = true; }
    c.require(thrown, "%s did not throw", what);
}

template <typename T, typename U> void convertTo(Ctx& c, SimpleMatrix<T>& m, const Model<T>& r) {
    Model<U> e; e.x = r.x; e.y = r.y; e.z = r.z; for (T t : r.v) e.v.push_back(static_cast<U>(t));
    { SimpleMatrix<U> o = m; observe(c, o, e, "converting copy construction"); }
    { const SimpleMatrix<T>& cm = m; SimpleMatrix<U> o(cm); observe(c, o, e, "converting construction from const"); }
    { SimpleMatrix<U> o(dim3(2, 1, 3), U(9)); o = m; observe(c, o, e, "converting assignment"); }
    { SimpleMatrix<U> o; o = SimpleMatrix<T>(m); observe(c, o, e, "converting assignment from temporary"); }
    observe(c, m, r, "source after conversion");
    // a matrix assigned from a larger or smaller one has exactly its own elements afterwards
    const SimpleMatrix<T>& cm = m;
    for (int big = 0; big < 4; big++) {
        SimpleMatrix<U> o(big & 1 ? dim3(r.x + 1, r.y + 2, r.z + 1) : dim3(1, 1, 1), U(9)); if (big & 2) o = cm; else o = m; Model<U> q = e; size_t n = q.v.size();
        std::vector<U> one(n + 1, U(3)); expectThrow(c, [&] { o = std::vector<U>(one); }, "assignment of one value too many after a converting assignment");
        expectThrow(c, [&] { o.setEntries(std::vector<U>(one)); }, "setEntries of one value too many after a converting assignment"); observe(c, o, q, "after rejected values");
        std::vector<U> v(n); for (size_t i = 0; i < n; i++) v[i] = q.v[i] = U((i * 3 + 1) % 50); o = std::move(v); observe(c, o, q, "values assigned after a converting assignment");
        o.setEntries(listing(e)); observe(c, o, e, "entries set after a converting assignment");
        o.resize(r.x, r.y, r.z + 1); q = e; q.z++; q.v.resize((size_t)q.x * q.y * q.z, U{}); observe(c, o, q, "resized after a converting assignment");
        if (big & 2) o = cm; else o = m; observe(c, o, e, "converting assignment after resize");
    }
    c.step(32);
}

template <typename T> void shapes(Ctx& c) {
    int hi = c.thorough() ? 6 : 4;
    int x = c.range(0, hi, "x"), y = c.range(0, hi, "y"), z = c.range(0, hi, "z");
    c.shard_point();
    int pat = c.choose(3, "pattern");
    c.note("shape (%d,%d,%d) pattern %d", x, y, z, pat);
    size_t n = (size_t)x * y * z;
    Model<T> zero; zero.x = x; zero.y = y; zero.z = z; zero.v.assign(n, T{});
    Model<T> r = filled<T>(x, y, z, pat);
    int what = c.choose(9, "operation");
    switch (what) {
    case 0: { SimpleMatrix<T> m(dim3(x, y, z)); observe(c, m, zero, "default value construction");
              SimpleMatrix<T> d; observe(c, d, Model<T>{}, "default construction");
              SimpleMatrix<T> i5(dim3(x, y, z), T(5)); Model<T> f = zero; f.v.assign(n, T(5)); observe(c, i5, f, "initial value construction"); c.step(3); break; }
    case 1: { SimpleMatrix<T> m(dim3(x, y, z), listing(r)); observe(c, m, r, "list construction");
              if (n) expectThrow(c, [&] { auto l = listing(r); l.pop_back(); SimpleMatrix<T> q(dim3(x, y, z), std::move(l)); }, "list construction with one value too few");
              expectThrow(c, [&] { auto l = listing(r); l.push_back(T(1)); SimpleMatrix<T> q(dim3(x, y, z), std::move(l)); }, "list construction with one value too many"); c.step(3); break; }
    case 2: { SimpleMatrix<T> m(dim3(x, y, z)); m.setEntries(listing(r)); observe(c, m, r, "setEntries");
              expectThrow(c, [&] { auto l = listing(r); l.push_back(T(1)); m.setEntries(std::move(l)); }, "setEntries with too many values"); observe(c, m, r, "after rejected setEntries");
              if (n) { expectThrow(c, [&] { auto l = listing(r); l.pop_back(); m.setEntries(std::move(l)); }, "setEntries with too few values"); observe(c, m, r, "after rejected setEntries"); } c.step(3); break; }
    case 3: { SimpleMatrix<T> m(dim3(x, y, z)); { auto v = r.v; m = std::move(v); } observe(c, m, r, "storage-order assignment");
              expectThrow(c, [&] { auto l = r.v; l.push_back(T(1)); m = std::move(l); }, "assignment of too many values"); observe(c, m, r, "after rejected assignment");
              if (n) { expectThrow(c, [&] { auto l = r.v; l.pop_back(); m = std::move(l); }, "assignment of too few values"); observe(c, m, r, "after rejected assignment"); } c.step(3); break; }
    case 4: { SimpleMatrix<T> m = build(r); SimpleMatrix<T> cp = m; observe(c, cp, r, "copy");
              const SimpleMatrix<T>& cr = m; SimpleMatrix<T> cp2(cr); observe(c, cp2, r, "const copy");
              SimpleMatrix<T> cp3(dim3(1, 2, 2)); cp3 = m; observe(c, cp3, r, "copy assignment"); SimpleMatrix<T> cp4; cp4 = cr; observe(c, cp4, r, "const copy assignment");
              if (n) { m(x - 1, y - 1, z - 1) = T(77); m[0] = T(66); }
              observe(c, cp, r, "copy after source changed"); observe(c, cp3, r, "assigned copy after source changed");
              SimpleMatrix<T> m2 = build(r); if (n) cp[0] = T(55); SimpleMatrix<T> q = build(r); observe(c, q, r, "rebuilt");
              m2 = *&m2; observe(c, m2, r, "self assignment"); c.step(6); break; }
    case 5: { SimpleMatrix<T> m = build(r); SimpleMatrix<T> mv(std::move(m)); observe(c, mv, r, "move construction");
              observe(c, m, Model<T>{}, "moved-from matrix");
              SimpleMatrix<T> t(dim3(2, 2, 2), T(3)); t = std::move(mv); observe(c, t, r, "move assignment"); observe(c, mv, Model<T>{}, "moved-from matrix");
              m = t; observe(c, m, r, "reassigning a moved-from matrix"); c.step(4); break; }
    case 6: { SimpleMatrix<T> m = build(r); convertTo<T, double>(c, m, r); convertTo<T, float>(c, m, r); convertTo<T, int>(c, m, r); convertTo<T, unsigned char>(c, m, r); convertTo<T, long>(c, m, r); break; }
    case 7: { // every reshape target with dimensions up to a bound
              SimpleMatrix<T> m0 = build(r);
              for (int a = 0; a <= hi * 2; a++) for (int b = 0; b <= hi * 2; b++) for (int d = 0; d <= hi; d++) {
                  SimpleMatrix<T> m = m0; bool ok = (size_t)a * b * d == n, thrown = false; c.step();
                  try { if ((a + b) & 1) m.reshape(a, b, d); else m.reshape(dim3(a, b, d)); } catch (std::exception&) { thrown = true; }
                  c.require(thrown == !ok, "reshape (%d,%d,%d)->(%d,%d,%d) %s", x, y, z, a, b, d, thrown ? "threw" : "did not throw");
                  Model<T> e = r; if (ok) { e.x = a; e.y = b; e.z = d; } observe(c, m, e, "after reshape");
              }
              if (n) { SimpleMatrix<T> m = m0; m.reshape((int)n, 1, 1); Model<T> e = r; e.x = (int)n; e.y = e.z = 1; observe(c, m, e, "after flattening"); m.reshape(x, y, z); observe(c, m, r, "after reshaping back"); }
              break; }
    case 8: { SimpleMatrix<T> m0 = build(r);
              for (int a = 0; a <= hi; a++) for (int b = 0; b <= hi; b++) for (int d = 0; d <= hi; d++) {
                  SimpleMatrix<T> m = m0; c.step(); if ((a + b) & 1) m.resize(a, b, d); else m.resize(dim3(a, b, d));
                  Model<T> e = r; e.x = a; e.y = b; e.z = d; e.v.resize((size_t)a * b * d, T{}); observe(c, m, e, "after resize");
              }
              break; }
    }
    c.state(mc::Hash().i(hashOf(r)).i(what).i(sizeof(T)));
}

// All histories of a small alphabet over two matrices of different element type
static void histories(Ctx& c) {
    int depth = c.thorough() ? 5 : 4;
    SimpleMatrix<double> A; SimpleMatrix<int> B; Model<double> a; Model<int> b;
    static const int D[5][3] = {{2, 3, 1}, {3, 2, 1}, {1, 2, 3}, {0, 2, 1}, {6, 1, 1}};
    for (int s = 0; s < depth; s++) {
        int op = c.choose(24, "op");
        if (s == 1) c.shard_point();
        c.note("op %d", op);
        switch (op) {
        case 0: case 1: case 2: case 3: { const int* d = D[op]; A = SimpleMatrix<double>(dim3(d[0], d[1], d[2]), 1.5); a.x = d[0]; a.y = d[1]; a.z = d[2]; a.v.assign(d[0] * d[1] * d[2], 1.5); break; }
        case 4: { auto m = filled<int>(2, 2, 2, 2); B = SimpleMatrix<int>(dim3(2, 2, 2), listing(m)); b = m; break; }
        case 5: { bool ok = a.v.size() == 6, t = false; std::vector<double> l{1, 2, 3, 4, 5, 6}; try { A.setEntries(std::vector<double>(l)); } catch (std::exception&) { t = true; }
                  c.require(t == !ok, "setEntries of 6 values into %zu elements %s", a.v.size(), t ? "threw" : "accepted");
                  if (ok) { size_t n = 0; for (int k = 0; k < a.z; k++) for (int i = 0; i < a.x; i++) for (int j = 0; j < a.y; j++) a.v[flat(a.x, a.y, i, j, k)] = l[n++]; } break; }
        case 6: { bool ok = a.v.size() == 6, t = false; std::vector<double> l{6, -5, 4.25, 3, 2, 1}; try { A = std::vector<double>(l); } catch (std::exception&) { t = true; }
                  c.require(t == !ok, "assignment of 6 values to %zu elements %s", a.v.size(), t ? "threw" : "accepted"); if (ok) a.v = l; break; }
        case 7: case 8: case 9: { const int* d = D[op - 7]; A.resize(d[0], d[1], d[2]); a.x = d[0]; a.y = d[1]; a.z = d[2]; a.v.resize(d[0] * d[1] * d[2], 0.0); break; }
        case 10: case 11: case 12: { const int* d = op == 12 ? D[4] : D[op - 10]; bool ok = (int)a.v.size() == d[0] * d[1] * d[2], t = false; try { A.reshape(d[0], d[1], d[2]); } catch (std::exception&) { t = true; }
                  c.require(t == !ok, "reshape of %zu elements to (%d,%d,%d) %s", a.v.size(), d[0], d[1], d[2], t ? "threw" : "accepted"); if (ok) { a.x = d[0]; a.y = d[1]; a.z = d[2]; } break; }
        case 13: A = B; a.x = b.x; a.y = b.y; a.z = b.z; a.v.assign(b.v.begin(), b.v.end()); break;
        case 14: B = A; b.x = a.x; b.y = a.y; b.z = a.z; b.v.clear(); for (double v : a.v) b.v.push_back((int)v); break;
        case 15: { SimpleMatrix<double> t(A); A = std::move(t); c.require(t.size() == 0, "moved-from size %zu", t.size()); break; }
        case 16: { SimpleMatrix<double> t(std::move(A)); observe(c, A, Model<double>{}, "moved-from"); A = t; break; }
        case 17: A = A; break;
        case 18: if (!a.v.empty()) { A(a.x - 1, a.y - 1, a.z - 1) = -2.5; a.v.back() = -2.5; } else { A = SimpleMatrix<double>(); a = Model<double>{}; } break;
        case 19: A = A + 1.0; for (double& v : a.v) v += 1; break;
        case 20: std::swap(A, *&A); { SimpleMatrix<double> t(dim3(1, 1, 1), 4.0); std::swap(A, t); std::swap(A, t); } break;
        case 21: for (auto& e : A) e = e * 2; for (double& v : a.v) v *= 2; break;
        case 22: if (a.z > 1) { int zz = a.z - 1; A = A.slice(zz); a.v.erase(a.v.begin(), a.v.begin() + (size_t)a.x * a.y * zz); a.z = 1; } else { B.resize(a.x, a.y, a.z); b.x = a.x; b.y = a.y; b.z = a.z; b.v.resize((size_t)a.x * a.y * a.z, 0); } break;
        case 23: if (!b.v.empty()) { B[0] = 9; b.v[0] = 9; for (auto it = B.begin(); it != B.end(); it++) *it -= 1; for (int& v : b.v) v -= 1; } else { B = SimpleMatrix<int>(dim3(1, 1, 2), 3); b.x = b.y = 1; b.z = 2; b.v = {3, 3}; } break;
        }
        c.step();
        observe(c, A, a, "history A"); observe(c, B, b, "history B");
        c.state(mc::Hash().i(hashOf(a)).i(hashOf(b)));
    }
}

// larger and elongated shapes
static void large(Ctx& c) {
    static const std::vector<std::vector<int>> S = {{28, 28, 1}, {24, 24, 2}, {12, 12, 8}, {1, 1, 300}, {1, 300, 1}, {300, 1, 1}, {17, 33, 3}, {33, 17, 2}, {64, 64, 1}, {100, 10, 1}, {10, 100, 1}, {2, 129, 5}, {129, 2, 5}, {16, 16, 16}, {0, 40, 2}, {40, 0, 2}, {255, 3, 1}, {256, 2, 1}, {257, 1, 2}, {300, 300, 1}, {41, 40, 41}};
    auto& s = c.pick(S, "shape"); c.shard_point(); int pat = c.choose(3, "pattern");
    c.note("large (%d,%d,%d)", s[0], s[1], s[2]);
    auto r = filled<float>(s[0], s[1], s[2], pat);
    SimpleMatrix<float> m(dim3(s[0], s[1], s[2]), listing(r)); observe(c, m, r, "large list construction");
    SimpleMatrix<double> d = m; Model<double> e; e.x = r.x; e.y = r.y; e.z = r.z; e.v.assign(r.v.begin(), r.v.end()); observe(c, d, e, "large conversion");
    SimpleMatrix<float> cp = m; cp.reshape((int)r.v.size(), 1, 1); Model<float> f = r; f.x = (int)r.v.size(); f.y = f.z = 1; observe(c, cp, f, "large flatten");
    observe(c, m, r, "large source"); c.step(3);
    c.state(mc::Hash().i(hashOf(r)).i(99));
}

// text serialization of matrices: written entries come back in place
template <typename T> void text(Ctx& c) {
    int hi = c.thorough() ? 5 : 3;
    int x = c.range(0, hi, "x"), y = c.range(0, hi, "y"), z = c.range(0, hi, "z"); c.shard_point(); int pat = c.choose(3, "pattern");
    c.note("text (%d,%d,%d)", x, y, z);
    auto r = filled<T>(x, y, z, pat); if (std::is_floating_point_v<T>) for (T& v : r.v) v = v / 8;
    SimpleMatrix<T> m = build(r); std::stringstream ss; m.serialize(ss); ss << "marker\n";
    SimpleMatrix<T> o(dim3(2, 2, 1), T(1)); c.require(o.deserialize(ss), "deserialize failed"); observe(c, o, r, "deserialized");
    std::string w; ss >> w; c.require(w == "marker", "deserialization of (%d,%d,%d) leaves the stream at \"%s\"", x, y, z, w.c_str());
    c.step(2); c.state(mc::Hash().i(hashOf(r)).i(1234 + sizeof(T)));
}

// text that does not hold a whole matrix is reported
static bool intToken(const std::string& s, long& v) { char* e; v = strtol(s.c_str(), &e, 10); return !s.empty() && e != s.c_str() && !*e; }
template <typename T> void malformed(Ctx& c) {
    int x = c.range(0, 3, "x"), y = c.range(0, 3, "y"), z = c.range(0, 3, "z"), how = c.choose(3, "damage"); c.shard_point();
    auto r = filled<T>(x, y, z, 2); SimpleMatrix<T> m = build(r); std::stringstream ss; m.serialize(ss); std::string t = ss.str(), u; size_t at = c.choose((int)t.size(), "position"); bool ok;
    if (how == 0) { // cut off: readable only if all numbers are there
        u = t.substr(0, at); std::istringstream q(u); std::string w; std::vector<std::string> W; while (q >> w) W.push_back(w); long d[3] = {0, 0, 0}; ok = W.size() >= 3; for (int i = 0; i < 3 && ok; i++) ok = intToken(W[i], d[i]); ok = ok && W.size() >= 3 + (size_t)(d[0] * d[1] * d[2]); if (ok && W.back() == "-") ok = false;
    } else {
        if (!isdigit((unsigned char)t[at])) c.discard(); u = t; if (how == 1) { u[at] = 'q'; ok = false; if (at && t[at - 1] != ' ' && t[at - 1] != '\n' && t[at - 1] != '-') c.discard(); }
        else { size_t line = t.find('\n'); if (at > line) c.discard(); static const char* B[] = {"-1", "-2147483648", "2147483647", "99999999999", "x", "-"}; int b = c.choose(6, "dimension"); u.replace(at, 1, B[b]); ok = false; if (b == 2 && (x == 0) + (y == 0) + (z == 0) > (t[at] == '0')) c.discard(); if (b == 2 && (at == 0 ? y * z : at == 2 ? x * z : x * y) <= 1) c.discard(); }
    }
    c.note("(%d,%d,%d) damage %d at %zu", x, y, z, how, at); std::istringstream is(u); SimpleMatrix<T> o(dim3(1, 2, 1)); bool g = o.deserialize(is); c.step(); c.require(ok || !g, "text of a matrix (%d,%d,%d) %s at byte %zu is read as a matrix", x, y, z, how ? "damaged" : "cut off", at);
    c.require(o.size() == (size_t)o.dim().x * o.dim().y * o.dim().z, "size %zu does not fit the dimensions", o.size()); SimpleMatrix<T> e = build(r); std::istringstream again(t); c.require(o.deserialize(again), "a matrix into which damaged text was read cannot be read again"); observe(c, o, r, "read after damaged text"); c.state(mc::Hash().i(x).i(y).i(z).i(how).s(u).i(sizeof(T)));
}

// dimensions that no matrix can have: nothing is created or changed
template <typename T> static void impossible(Ctx& c) {
    static const std::vector<int> D{INT_MIN, -65536, -3, -2, -1, 0, 1, 2, 3, 46341, 65536, 2097152, 1 << 30, INT_MAX};
    int x = c.choose(3, "x"), y = c.choose(3, "y"), z = c.choose(3, "z"), op = c.choose(7, "operation"); c.shard_point();
    int a = c.pick(D, "rows"), b = c.pick(D, "columns"), d = c.pick(D, "channels"); auto r = filled<T>(x, y, z, 0); bool neg = a < 0 || b < 0 || d < 0; __int128 n = (__int128)a * b * d, cells = (__int128)r.v.size(); bool tooMany = !neg && n > INT_MAX;
    c.note("(%d,%d,%d) and (%d,%d,%d), operation %d", x, y, z, a, b, d, op); c.step();
    SimpleMatrix<T> m = build(r); bool thrown = false, ok;
    if (op != 3 && op != 6 && !neg && !tooMany && n > 64) c.discard();   // possible, but large
    if (op == 1 && n == 0 && (a > 3 || b > 3 || d > 3)) c.discard();   // walks through the rows of nothing
    if (op == 6 && (a != 2 && a != 46341 && a != 65536 || b != a)) c.discard();
    try {
        switch (op) {
        case 0: { ok = !neg && !tooMany; SimpleMatrix<T> q(dim3(a, b, d)); c.require(ok, "a matrix of dimensions (%d,%d,%d) is created, with %zu elements", a, b, d, q.size()); break; }
        case 1: { ok = !neg && n == cells; SimpleMatrix<T> q(dim3(a, b, d), listing(r)); c.require(ok, "a matrix of dimensions (%d,%d,%d) is created from %zu values", a, b, d, r.v.size()); break; }
        case 2: { ok = !neg && !tooMany; m.resize(a, b, d); c.require(ok, "resizing to (%d,%d,%d) did not throw", a, b, d); r.x = a; r.y = b; r.z = d; r.v.resize((size_t)n, T{}); break; }
        case 3: { ok = !neg && n == cells; if (x & 1) m.reshape(a, b, d); else m.reshape(dim3(a, b, d)); c.require(ok, "reshaping %zu elements to (%d,%d,%d) did not throw", r.v.size(), a, b, d); r.x = a; r.y = b; r.z = d; break; }
        case 4: { ok = !neg && !tooMany; SimpleMatrix<T> q(dim3(a, b, d), T(3)); c.require(ok, "a matrix of dimensions (%d,%d,%d) is created with a value", a, b, d); break; }
        case 5: { ok = !neg && !tooMany; m.resize(dim3(a, b, d)); c.require(ok, "resizing to dimensions (%d,%d,%d) did not throw", a, b, d); r.x = a; r.y = b; r.z = d; r.v.resize((size_t)n, T{}); break; }
        default: { // the product of a column and a row
            if (d < 0 || d > 1 || x + y + z) c.discard(); ok = a == 2; SimpleMatrix<T> col(dim3(a, 1, d), T(1)), row(dim3(1, a, d), T(1)); if (!d) ok = true;
            if (c.flip("assigned")) { m = matrixMultiply(col, row); r.x = r.y = a; r.z = d; r.v.assign(ok ? (size_t)a * a * d : 0, T(1)); } else { SimpleMatrix<T> q(matrixMultiply(col, row)); c.require(q.size() == (size_t)a * a * d, "%zu elements", q.size()); }
            c.require(ok, "a product of dimensions (%d,%d,%d) is stored", a, a, d); break; }
        }
    } catch (std::exception& e) { thrown = true; c.require(!ok, "(%d,%d,%d) is rejected: %s", a, b, d, e.what()); }
    if (thrown || op < 6) { if (r.v.empty() && !thrown && op != 0 && op != 1 && op != 4) { c.require(m.size() == 0 && m.dim() == dim3(r.x, r.y, r.z), "dimensions of an empty matrix"); } else observe(c, m, r, "afterwards"); }
    c.state(mc::Hash().i(hashOf(r)).i(op).i(a).i(b).i(d).i(sizeof(T)));
}
// every value of the small element types
template <typename T> static void textValues(Ctx& c) {
    int lo = std::max<long>(std::numeric_limits<T>::min(), -300), hi = std::min<long>(std::numeric_limits<T>::max(), 300); int n = c.range(lo, hi, "value"), shape = c.choose(3, "shape"); c.shard_point();
    Model<T> r; r.x = shape == 1 ? 2 : 1; r.y = shape == 2 ? 2 : 1; r.z = 1; r.v.assign(shape ? 2 : 1, T(n)); if (shape && c.flip("limit")) r.v[c.flip("first") ? 0 : 1] = c.flip("largest") ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    c.note("%d shape %d", n, shape); SimpleMatrix<T> m = build(r); std::stringstream ss; m.serialize(ss); ss << "marker\n"; SimpleMatrix<T> o; c.require(o.deserialize(ss), "the text of a matrix of %d cannot be read", n); observe(c, o, r, "read back"); std::string w; ss >> w; c.require(w == "marker", "the stream is left at \"%s\"", w.c_str());
    // values the type does not hold
    if (sizeof(T) < 4 && shape == 0) for (long bad : {(long)std::numeric_limits<T>::max() + 1, (long)std::numeric_limits<T>::max() + 1 + n - lo, 99999999999L, (long)std::numeric_limits<T>::min() - 1}) { if (std::is_unsigned_v<T> && sizeof(T) > 1 && bad < 0) continue; std::stringstream q; q << "1 1 1\n" << bad << " \n\n"; SimpleMatrix<T> p; c.require(!p.deserialize(q), "%ld is read as an element of a matrix of %zu-byte numbers", bad, sizeof(T)); }
    c.step(); c.state(mc::Hash().i(n).i(shape).i(sizeof(T)).i(hashOf(r)));
}

int main(int argc, char** argv) {
    return mc::run(argc, argv, "C15", {
        {"impossible<double>", impossible<double>}, {"impossible<uchar>", impossible<unsigned char>}, {"text<uchar>", text<unsigned char>}, {"text<schar>", text<signed char>}, {"text<short>", text<short>}, {"values<uchar>", textValues<unsigned char>}, {"values<schar>", textValues<signed char>}, {"values<char>", textValues<char>}, {"values<short>", textValues<short>}, {"values<ushort>", textValues<unsigned short>}, {"values<long>", textValues<long>}, {"malformed<uchar>", malformed<unsigned char>},
        {"shapes<double>", shapes<double>}, {"shapes<int>", shapes<int>}, {"shapes<float>", shapes<float>}, {"shapes<uchar>", shapes<unsigned char>}, {"shapes<size_t>", shapes<size_t>},
        {"histories", histories}, {"large", large}, {"text<double>", text<double>}, {"text<int>", text<int>}, {"text<float>", text<float>}, {"malformed<double>", malformed<double>}, {"malformed<int>", malformed<int>}},
        "all shapes with each dimension 0..4 (thorough 0..6) x 5 element types x 3 value patterns x 9 operation groups incl. every reshape/resize target; all histories of 24 operations over two matrices to depth 4 (thorough 5); 21 large shapes of up to 90000 elements; text round trip for all shapes 0..3 (5) and all values of the small types; all triples of 14 extreme dimensions with 7 operations; that text cut off at every byte and damaged at every digit");
}

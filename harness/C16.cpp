// C16: sub-matrix views address exactly their region and reject all others.
#include "mc.h"
#include "conv.h"
#include <climits>
using namespace my_cnn;
using mc::Ctx;
using ref::Ten;

static Ten pattern(int x, int y, int z, int p = 0) {
    Ten t(x, y, z); for (size_t i = 0; i < t.v.size(); i++) t.v[i] = p == 0 ? (double)(i + 1) : p == 1 ? -100.0 - 3 * (double)i : (double)((i * 7) % 5 + 1);
    return t;
}
struct Box { int s[3], d[3]; };
static bool inside(const Box& b, const int* P) { for (int i = 0; i < 3; i++) if (b.s[i] < 0 || b.d[i] < 0 || (long)b.s[i] + b.d[i] > P[i]) return false; return true; }
static std::string str(const Box& b) { return mc::fmt("start (%d,%d,%d) size (%d,%d,%d)", b.s[0], b.s[1], b.s[2], b.d[0], b.d[1], b.d[2]); }
static dim3 S(const Box& b) { return dim3(b.s[0], b.s[1], b.s[2]); }
static dim3 D(const Box& b) { return dim3(b.d[0], b.d[1], b.d[2]); }

template <typename F> bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
template <typename T> void whole(Ctx& c, const SimpleMatrix<T>& m, const Ten& t, const char* what) {
    expectShape(c, m, t.x, t.y, t.z, what);
    for (size_t i = 0; i < t.v.size(); i++) c.require((double)m[i] == t.v[i], "%s: element %zu of the matrix is %g, expected %g", what, i, (double)m[i], t.v[i]);
}
// reading through a view
template <typename V> void readView(Ctx& c, V& v, const Ten& t, const Box& b, const char* what, bool fullAt) {
    c.require(v.dim().x == b.d[0] && v.dim().y == b.d[1] && v.dim().z == b.d[2] && v.size() == (size_t)b.d[0] * b.d[1] * b.d[2], "%s: view has dim (%d,%d,%d)", what, v.dim().x, v.dim().y, v.dim().z);
    auto e = [&](int i, int j, int k) { return t.at(b.s[0] + i, b.s[1] + j, b.s[2] + k); };
    for (int k = -1; k <= b.d[2]; k++) for (int j = -1; j <= b.d[1]; j++) for (int i = -1; i <= b.d[0]; i++) {
        bool in = i >= 0 && j >= 0 && k >= 0 && i < b.d[0] && j < b.d[1] && k < b.d[2];
        if (in) {
            c.require((double)v(i, j, k) == e(i, j, k), "%s: v(%d,%d,%d) is %g, expected %g", what, i, j, k, (double)v(i, j, k), e(i, j, k));
            c.require((double)v(dim3(i, j, k)) == e(i, j, k), "%s: v(dim3) wrong", what);
            c.require((double)v.at(dim3(i, j, k)) == e(i, j, k), "%s: at(%d,%d,%d) wrong", what, i, j, k);
        } else if (fullAt) {
            bool th = false; try { (void)v.at(dim3(i, j, k)); } catch (std::out_of_range&) { th = true; }
            c.require(th, "%s: at(%d,%d,%d) outside a view of size (%d,%d,%d) did not throw", what, i, j, k, b.d[0], b.d[1], b.d[2]);
        }
    }
    size_t n = 0, N = (size_t)b.d[0] * b.d[1] * b.d[2];
    for (auto it = v.begin(); it != v.end(); ++it, ++n) {
        c.require(n < N, "%s: iteration over a view of size (%d,%d,%d) visits too many elements", what, b.d[0], b.d[1], b.d[2]);
        int i = n % b.d[0], j = n / b.d[0] % b.d[1], k = (int)(n / b.d[0] / b.d[1]);
        c.require(it.idx().x == i && it.idx().y == j && it.idx().z == k, "%s: iteration step %zu has index (%d,%d,%d)", what, n, it.idx().x, it.idx().y, it.idx().z);
        c.require((double)*it == e(i, j, k), "%s: iteration step %zu is %g, expected %g", what, n, (double)*it, e(i, j, k));
        c.require((size_t)(it - v.begin()) == n && (size_t)(v.end() - it) == N - n, "%s: iterator difference wrong at step %zu", what, n); decltype(v.begin()) at(v, dim3(i, j, k)); c.require(at == it && (double)*at == e(i, j, k), "%s: an iterator created at (%d,%d,%d) is elsewhere", what, i, j, k);
    }
    c.require(n == N, "%s: iteration visits %zu of %zu elements", what, n, N);
}
static void put(Ten& t, const Box& b, const std::function<double(double, int, int, int)>& f) {
    for (int k = 0; k < b.d[2]; k++) for (int j = 0; j < b.d[1]; j++) for (int i = 0; i < b.d[0]; i++) { double& q = t.at(b.s[0] + i, b.s[1] + j, b.s[2] + k); q = f(q, i, j, k); }
}

static const int NW = 24;
// one way of writing to the region; `v` is an lvalue view, `again` makes a fresh temporary one
template <typename V, typename F> void writeView(Ctx& c, V& v, F again, Ten& t, const Box& b, int op) {
    Ten src = pattern(b.d[0], b.d[1], b.d[2], 1); SimpleMatrix<double> M = toM<double>(src);
    // a larger host whose inner region holds the source values
    SimpleMatrix<double> host(dim3(b.d[0] + 2, b.d[1] + 1, b.d[2] + 1), 999.0);
    for (int k = 0; k < src.z; k++) for (int j = 0; j < src.y; j++) for (int i = 0; i < src.x; i++) host(i + 1, j, k + 1) = src.at(i, j, k);
    auto hv = host.subMatView(dim3(1, 0, 1), D(b)); const SimpleMatrix<double>& ch = host; auto chv = ch.subMatView(dim3(1, 0, 1), D(b));
    SimpleMatrix<int> MI = toM<int>(src); SimpleMatrix<float> MF = toM<float>(src);
    auto s = [&](int i, int j, int k) { return src.at(i, j, k); };
    auto setsrc = [&] { put(t, b, [&](double, int i, int j, int k) { return s(i, j, k); }); };
    c.step();
    switch (op) {
    case 0: v = 7.1; put(t, b, [](double, int, int, int) { return 7.1; }); break;
    case 1: again() = 3; put(t, b, [](double, int, int, int) { return 3.0; }); break;
    case 2: v = M; setsrc(); break;
    case 3: v = static_cast<const SimpleMatrix<double>&>(M); setsrc(); break;
    case 4: again() = SimpleMatrix<double>(M); setsrc(); break;
    case 5: v = M + 1.0; put(t, b, [&](double, int i, int j, int k) { return s(i, j, k) + 1; }); break;
    case 6: v = hv; setsrc(); break;                      // same view type
    case 7: again() = host.subMatView(dim3(1, 0, 1), D(b)); setsrc(); break;
    case 8: v = chv; setsrc(); break;                     // const view
    case 9: v = MI; setsrc(); break;
    case 10: v = hv * 2.0 - M; setsrc(); break;
    case 11: v += 2.0; put(t, b, [](double q, int, int, int) { return q + 2; }); break;
    case 12: again() -= 0.1; put(t, b, [](double q, int, int, int) { return q - 0.1; }); break;
    case 13: v *= 3; put(t, b, [](double q, int, int, int) { return q * 3; }); break;
    case 14: v /= 4.0; put(t, b, [](double q, int, int, int) { return q / 4; }); break;
    case 15: v += M; put(t, b, [&](double q, int i, int j, int k) { return q + s(i, j, k); }); break;
    case 16: again() -= hv; put(t, b, [&](double q, int i, int j, int k) { return q - s(i, j, k); }); break;
    case 17: v *= (M + 1.0); put(t, b, [&](double q, int i, int j, int k) { return q * (s(i, j, k) + 1); }); break;
    case 18: v /= chv; put(t, b, [&](double q, int i, int j, int k) { return q / s(i, j, k); }); break;
    case 19: { double n = 0; for (auto& e : v) e = ++n; n = 0; put(t, b, [&](double, int, int, int) { return ++n; }); break; }   // put runs in storage order
    case 20: for (int k = 0; k < b.d[2]; k++) for (int j = 0; j < b.d[1]; j++) for (int i = 0; i < b.d[0]; i++) { if ((i + j + k) % 3 == 0) v(i, j, k) = 40 + i; else if ((i + j + k) % 3 == 1) v.at(dim3(i, j, k)) = 50 + j; else v(dim3(i, j, k)) = 60 + k; }
             put(t, b, [](double, int i, int j, int k) { int q = (i + j + k) % 3; return q == 0 ? 40.0 + i : q == 1 ? 50.0 + j : 60.0 + k; }); break;
    case 22: { const auto kv = host.subMatView(dim3(1, 0, 1), D(b)); v = kv; setsrc(); break; }   // constant view of a changeable matrix
    case 23: { const SubMatrixView<double> kv(hv); again() += kv; put(t, b, [&](double q, int i, int j, int k) { return q + s(i, j, k); }); break; }
    case 21: v += transpose(transpose(MF)) / 2.0f; put(t, b, [&](double q, int i, int j, int k) { return q + s(i, j, k) / 2; }); break;
    }
    whole(c, host, [&] { Ten h(b.d[0] + 2, b.d[1] + 1, b.d[2] + 1, 999); for (int k = 0; k < src.z; k++) for (int j = 0; j < src.y; j++) for (int i = 0; i < src.x; i++) h.at(i + 1, j, k + 1) = s(i, j, k); return h; }(), "source after the write");
}
template <typename V, typename F> void wrongSizes(Ctx& c, SimpleMatrix<double>& P, const Ten& t, V& v, F again, const Box& b) {
    for (int ax = 0; ax < 3; ax++) for (int dl = -1; dl <= 1; dl += 2) {
        int d[3] = {b.d[0], b.d[1], b.d[2]}; d[ax] += dl; if (d[ax] < 0) continue;
        SimpleMatrix<double> W(dim3(d[0], d[1], d[2]), 5.0); SimpleMatrix<int> WI(dim3(d[0], d[1], d[2]), 5);
        c.step(9);
        c.require(throws([&] { v = W; }), "assigning a matrix of size (%d,%d,%d) to a view of size (%d,%d,%d) did not throw", d[0], d[1], d[2], b.d[0], b.d[1], b.d[2]);
        c.require(throws([&] { again() = W + 1.0; }), "assigning an expression of another size did not throw");
        c.require(throws([&] { v = WI; }), "assigning an int matrix of another size did not throw");
        c.require(throws([&] { v = W.subMatView(dim3(0, 0, 0), W.dim()); }), "assigning a view of another size did not throw");
        c.require(throws([&] { const auto& CW = W; v = CW.subMatView(dim3(0, 0, 0), W.dim()); }), "assigning a const view of another size did not throw");
        c.require(throws([&] { v += W; }) && throws([&] { again() -= W; }) && throws([&] { v *= W; }) && throws([&] { v /= W; }), "in-place arithmetic with another size did not throw");
    }
    // same element count, other shape
    if (b.d[0] != b.d[1]) { SimpleMatrix<double> W(dim3(b.d[1], b.d[0], b.d[2]), 5.0); c.require(throws([&] { v = W; }) && throws([&] { v += W; }) && throws([&] { v = W.subMatView(dim3(0, 0, 0), W.dim()); }), "assigning the transposed size did not throw"); }
    whole(c, P, t, "after rejected assignments");
}

static Box pickBox(Ctx& c, const int* P, int lo, int over) {
    Box b; for (int i = 0; i < 3; i++) { b.s[i] = c.range(lo, P[i] + over, "start"); b.d[i] = c.range(lo, P[i] + over, "size"); }
    return b;
}
static void regions(Ctx& c) {
    int hi = c.thorough() ? 3 : 2;
    int P[3] = {c.range(0, hi + 1, "X"), c.range(0, hi, "Y"), c.range(0, hi, "Z")};
    c.shard_point();
    Box b = pickBox(c, P, -1, c.thorough() ? 1 : 1);
    bool ok = inside(b, P);
    Ten t = pattern(P[0], P[1], P[2]); SimpleMatrix<double> M = toM<double>(t); const SimpleMatrix<double>& CM = M;
    c.note("matrix (%d,%d,%d) %s", P[0], P[1], P[2], str(b).c_str());
    if (!ok) {
        c.require(throws([&] { M.subMatView(S(b), D(b)); }), "view %s of a matrix (%d,%d,%d) was accepted", str(b).c_str(), P[0], P[1], P[2]);
        c.require(throws([&] { CM.subMatView(S(b), D(b)); }), "const view %s was accepted", str(b).c_str());
        c.require(throws([&] { M.subMatCopy(S(b), D(b)); }), "copy of region %s was accepted", str(b).c_str());
        c.require(throws([&] { SubMatrixView<double> q(M, S(b), D(b)); }), "constructed view %s was accepted", str(b).c_str());
        whole(c, M, t, "after rejected view"); c.step(4); c.state(mc::Hash().i(t.hash()).raw(&b, sizeof b)); return;
    }
    auto v = M.subMatView(S(b), D(b)); readView(c, v, t, b, "view", true);
    const auto cv = M.subMatView(S(b), D(b)); readView(c, cv, t, b, "constant view object", true);
    auto vc = CM.subMatView(S(b), D(b)); readView(c, vc, t, b, "view of a constant matrix", true);
    SimpleMatrix<double> cp = M.subMatCopy(S(b), D(b)); SimpleMatrix<double> cp2 = v; SimpleMatrix<int> cp3 = vc; SimpleMatrix<double> cp4(dim3(1, 1, 5)); cp4 = cv;
    Ten e(b.d[0], b.d[1], b.d[2]); for (int k = 0; k < e.z; k++) for (int j = 0; j < e.y; j++) for (int i = 0; i < e.x; i++) e.at(i, j, k) = t.at(i + b.s[0], j + b.s[1], k + b.s[2]);
    whole(c, cp, e, "region copy"); whole(c, cp2, e, "matrix from view"); whole(c, cp3, e, "int matrix from view"); whole(c, cp4, e, "matrix assigned from view");
    for (auto& q : cp) q = -1; whole(c, M, t, "matrix after its copy was changed");
    c.step(8);
    auto again = [&] { return M.subMatView(S(b), D(b)); };
    wrongSizes(c, M, t, v, again, b);
    for (int op = 0; op < NW; op++) {
        SimpleMatrix<double> save = M; Ten ts = t;
        writeView(c, v, again, t, b, op); whole(c, M, t, mc::fmt("after write %d through view %s", op, str(b).c_str()).c_str());
        readView(c, v, t, b, "view after write", false);
        // a second view of the same region sees it, then everything is restored through the matrix
        for (size_t i = 0; i < ts.v.size(); i++) M[i] = ts.v[i]; t = ts; readView(c, v, t, b, "view after the matrix was written", false);
    }
    c.state(mc::Hash().i(t.hash()).raw(&b, sizeof b));
}

// extreme starts and sizes, which must be rejected without wrapping around
static void extremes(Ctx& c) {
    static const std::vector<int> V = {INT_MIN, INT_MIN + 1, -65536, -2, -1, 0, 1, 2, 3, 65536, INT_MAX - 2, INT_MAX - 1, INT_MAX};
    int ax = c.choose(3, "axis"); int s = c.pick(V, "start"); c.shard_point(); int d = c.pick(V, "size");
    Box b{{0, 0, 0}, {1, 1, 1}}; b.s[ax] = s; b.d[ax] = d; int P[3] = {2, 2, 2};
    c.note("axis %d start %d size %d", ax, s, d);
    Ten t = pattern(2, 2, 2); SimpleMatrix<double> M = toM<double>(t); const auto& CM = M; bool ok = inside(b, P);
    c.require(throws([&] { M.subMatView(S(b), D(b)); }) == !ok, "view start %d size %d on axis %d %s", s, d, ax, ok ? "rejected" : "accepted");
    c.require(throws([&] { CM.subMatView(S(b), D(b)); }) == !ok, "const view start %d size %d %s", s, d, ok ? "rejected" : "accepted");
    auto outer = M.subMatView(dim3(0, 0, 0), dim3(2, 2, 2));
    c.require(throws([&] { SubMatrixView<double>(outer, S(b), D(b)); }) == !ok, "inner view start %d size %d on axis %d %s", s, d, ax, ok ? "rejected" : "accepted");
    auto small = M.subMatView(dim3(1, 1, 1), dim3(1, 1, 1)); int Q[3] = {1, 1, 1};
    c.require(throws([&] { SubMatrixView<double>(small, S(b), D(b)); }) == !inside(b, Q), "inner view start %d size %d on axis %d of a unit view %s", s, d, ax, inside(b, Q) ? "rejected" : "accepted");
    if (ax == 2) {
        c.require(throws([&] { M.slices(s, d); }) == !ok && throws([&] { CM.slices(s, d); }) == !ok, "slices(%d,%d) %s", s, d, ok ? "rejected" : "accepted");
        c.require(throws([&] { outer.slices(s, d); }) == !ok, "view slices(%d,%d) %s", s, d, ok ? "rejected" : "accepted");
        bool one = s >= 0 && s < 2; c.require(throws([&] { M.slice(s); }) == !one && throws([&] { CM.slice(s); }) == !one && throws([&] { outer.slice(s); }) == !one, "slice(%d) %s", s, one ? "rejected" : "accepted");
    }
    for (int i : V) { dim3 q(0, 0, 0); q.data[ax] = i; bool in = i == 0; bool th = throws([&] { (void)small.at(q); }); const auto& cs = small; bool th2 = throws([&] { (void)cs.at(q); }); c.require(th == !in && th2 == !in, "at(%d) on axis %d of a unit view %s", i, ax, in ? "threw" : "did not throw"); }
    whole(c, M, t, "after"); c.step(8); c.state(mc::Hash().i(ax).i(s).i(d));
}

// views of views and slices
static void nested(Ctx& c) {
    int P[3] = {c.thorough() ? 3 : 2, 2, 3};
    Box o; for (int i = 0; i < 3; i++) { o.s[i] = c.range(0, P[i], "outer start"); o.d[i] = c.range(0, P[i] - o.s[i], "outer size"); }
    c.shard_point();
    Ten t = pattern(P[0], P[1], P[2]); SimpleMatrix<double> M = toM<double>(t); const auto& CM = M;
    auto ov = M.subMatView(S(o), D(o)); auto oc = CM.subMatView(S(o), D(o));
    int kind = c.choose(2, "nested view / slices");
    Box b;
    if (kind == 0) b = pickBox(c, o.d, -1, 1);
    else { b.s[0] = b.s[1] = 0; b.d[0] = o.d[0]; b.d[1] = o.d[1]; b.s[2] = c.range(-1, o.d[2] + 1, "slice"); b.d[2] = c.range(-1, o.d[2] + 1, "count"); }
    bool ok = inside(b, o.d);
    c.note("outer %s inner %s", str(o).c_str(), str(b).c_str());
    auto again = [&] { return kind == 0 ? SubMatrixView<double>(ov, S(b), D(b)) : b.d[2] == 1 ? ov.slice(b.s[2]) : ov.slices(b.s[2], b.d[2]); };
    auto againC = [&] { return kind == 0 ? SubMatrixView<const double>(oc, S(b), D(b)) : b.d[2] == 1 ? oc.slice(b.s[2]) : oc.slices(b.s[2], b.d[2]); };
    c.step(2);
    if (!ok) {
        c.require(throws(again) && throws(againC), "inner view %s of outer view %s was accepted", str(b).c_str(), str(o).c_str()); whole(c, M, t, "after rejection");
        c.state(mc::Hash().raw(&o, sizeof o).raw(&b, sizeof b).i(kind)); return;
    }
    Box a; for (int i = 0; i < 3; i++) { a.s[i] = o.s[i] + b.s[i]; a.d[i] = b.d[i]; }
    auto v = again(); readView(c, v, t, a, "nested view", true); auto vc = againC(); readView(c, vc, t, a, "nested const view", true);
    auto copy = v; readView(c, copy, t, a, "copied view", false);
    int op = c.choose(c.thorough() ? NW : 6, "write"); static const int pick[6] = {0, 2, 6, 11, 15, 20}; if (!c.thorough()) op = pick[op];
    writeView(c, v, again, t, a, op); whole(c, M, t, "after write through nested view"); readView(c, copy, t, a, "copied view after write", false); readView(c, vc, t, a, "const view after write", false);
    readView(c, ov, t, o, "outer view after write", false);
    c.state(mc::Hash().raw(&o, sizeof o).raw(&b, sizeof b).i(kind).i(op));
}

// slices of matrices: all indices and counts
static void slices(Ctx& c) {
    int P[3] = {c.range(1, 3), c.range(1, 3), c.range(0, 4)}; c.shard_point();
    int s = c.range(-2, 6, "slice"), n = c.range(-2, 6, "count");
    Ten t = pattern(P[0], P[1], P[2], 2); SimpleMatrix<double> M = toM<double>(t); const auto& CM = M; Box b{{0, 0, s}, {P[0], P[1], n}};
    c.note("matrix (%d,%d,%d) slices(%d,%d)", P[0], P[1], P[2], s, n); bool ok = inside(b, P); c.step(2);
    c.require(throws([&] { M.slices(s, n); }) == !ok && throws([&] { CM.slices(s, n); }) == !ok, "slices(%d,%d) of %d channels %s", s, n, P[2], ok ? "rejected" : "accepted");
    if (ok) { auto v = M.slices(s, n); readView(c, v, t, b, "slices", true); auto vc = CM.slices(s, n); readView(c, vc, t, b, "const slices", true); v += 10.0; put(t, b, [](double q, int, int, int) { return q + 10; }); whole(c, M, t, "after slices += 10"); }
    if (n == 1) { c.require(throws([&] { M.slice(s); }) == !ok && throws([&] { CM.slice(s); }) == !ok, "slice(%d) of %d channels %s", s, P[2], ok ? "rejected" : "accepted");
        if (ok) { auto v = M.slice(s); readView(c, v, t, b, "slice", true); auto vc = CM.slice(s); readView(c, vc, t, b, "const slice", true); M.slice(s) = 4.0; put(t, b, [](double, int, int, int) { return 4.0; }); whole(c, M, t, "after slice = 4"); } }
    c.state(mc::Hash().i(t.hash()).i(s).i(n));
}

// histories of writes through long-lived views of one matrix (also while the matrix itself is written)
static void histories(Ctx& c) {
    Ten t = pattern(4, 3, 2); SimpleMatrix<double> M = toM<double>(t);
    const Box B[5] = {{{0, 0, 0}, {2, 2, 1}}, {{2, 1, 0}, {2, 2, 1}}, {{1, 1, 1}, {2, 2, 1}}, {{0, 0, 1}, {4, 3, 1}}, {{3, 0, 0}, {1, 3, 2}}};
    SubMatrixView<double> V[5] = {M.subMatView(S(B[0]), D(B[0])), M.subMatView(S(B[1]), D(B[1])), M.subMatView(S(B[2]), D(B[2])), M.slice(1), M.subMatView(S(B[4]), D(B[4]))};
    int depth = c.thorough() ? 5 : 4;
    for (int s = 0; s < depth; s++) {
        int op = c.choose(13, "op"); if (s == 0) c.shard_point(); c.note("op %d", op);
        auto region = [&](const Box& b) { Ten e(b.d[0], b.d[1], b.d[2]); for (int k = 0; k < e.z; k++) for (int j = 0; j < e.y; j++) for (int i = 0; i < e.x; i++) e.at(i, j, k) = t.at(i + b.s[0], j + b.s[1], k + b.s[2]); return e; };
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: V[op] += op + 1; put(t, B[op], [&](double q, int, int, int) { return q + op + 1; }); break;
        case 5: { V[0] = V[2]; Ten e = region(B[2]); put(t, B[0], [&](double, int i, int j, int k) { return e.at(i, j, k); }); break; }
        case 6: { V[2] = V[0]; Ten e = region(B[0]); put(t, B[2], [&](double, int i, int j, int k) { return e.at(i, j, k); }); break; }
        case 7: { V[0] = V[1] * 2.0; Ten e = region(B[1]); put(t, B[0], [&](double, int i, int j, int k) { return e.at(i, j, k) * 2; }); break; }
        case 8: { M.slice(0) = V[3]; Ten e = region(B[3]); Box z{{0, 0, 0}, {4, 3, 1}}; put(t, z, [&](double, int i, int j, int k) { return e.at(i, j, k); }); break; }
        case 9: { V[1] -= V[2]; Ten e = region(B[2]); put(t, B[1], [&](double q, int i, int j, int k) { return q - e.at(i, j, k); }); break; }
        case 10: M(3, 2, 1) = 100; t.at(3, 2, 1) = 100; break;
        case 11: c.require(throws([&] { V[0] = V[4]; }) && throws([&] { V[3] += V[0]; }), "assignment between views of different size did not throw"); break;
        case 12: { M = M + 1.0; for (double& q : t.v) q += 1; break; }   // same shape: views stay valid
        }
        c.step(); whole(c, M, t, "history"); for (int i = 0; i < 5; i++) readView(c, V[i], t, B[i], "history view", false);
        c.state(t.hash());
    }
}
// other element types
template <typename T> void typed(Ctx& c) {
    int P[3] = {3, 3, 2}; Box b; for (int i = 0; i < 3; i++) { b.s[i] = c.range(0, P[i], "start"); b.d[i] = c.range(0, P[i] - b.s[i], "size"); } c.shard_point();
    c.note("typed %s", str(b).c_str()); Ten t = pattern(3, 3, 2); SimpleMatrix<T> M = toM<T>(t); auto v = M.subMatView(S(b), D(b)); readView(c, v, t, b, "typed view", true);
    v = T(9); put(t, b, [](double, int, int, int) { return 9.0; }); whole(c, M, t, "typed fill");
    v -= T(2); put(t, b, [](double q, int, int, int) { return q - 2; }); whole(c, M, t, "typed -=");
    Ten s = pattern(b.d[0], b.d[1], b.d[2], 2); SimpleMatrix<T> Q = toM<T>(s); v = Q; put(t, b, [&](double, int i, int j, int k) { return s.at(i, j, k); }); whole(c, M, t, "typed assignment");
    SimpleMatrix<double> DQ = toM<double>(s); v = DQ + 0.25; put(t, b, [&](double, int i, int j, int k) { return (double)(T)(s.at(i, j, k) + 0.25); }); whole(c, M, t, "typed assignment of doubles");
    c.step(5); c.state(mc::Hash().raw(&b, sizeof b).i(sizeof(T)));
}

// source and target share elements: the values before the operation count
static void overlaps(Ctx& c) {
    int P[3] = {c.thorough() ? 4 : 3, 3, 3}; Box a, b; for (int i = 0; i < 3; i++) { a.s[i] = c.range(0, P[i] - 1, "target start"); a.d[i] = b.d[i] = c.range(1, P[i] - a.s[i], "size"); } c.shard_point();
    for (int i = 0; i < 3; i++) b.s[i] = c.range(0, P[i] - b.d[i], "source start");
    bool square = a.d[0] == a.d[1]; c.note("target %s source %s", str(a).c_str(), str(b).c_str());
    for (int op = 0; op < 24; op++) {
        Ten t = pattern(P[0], P[1], P[2], 2), o = t; SimpleMatrix<double> M = toM<double>(t); const auto& CM = M; auto v = M.subMatView(S(a), D(a)); auto w = M.subMatView(S(b), D(b)); const auto kw = M.subMatView(S(b), D(b)); auto cw = CM.subMatView(S(b), D(b));
        auto q = [&](int i, int j, int k) { return o.at(b.s[0] + i, b.s[1] + j, b.s[2] + k); }; auto set = [&](auto f) { put(t, a, f); };
        switch (op) {
        case 0: v = w; set([&](double, int i, int j, int k) { return q(i, j, k); }); break;
        case 1: v = cw; set([&](double, int i, int j, int k) { return q(i, j, k); }); break;
        case 2: M.subMatView(S(a), D(a)) = M.subMatView(S(b), D(b)); set([&](double, int i, int j, int k) { return q(i, j, k); }); break;
        case 3: v = w + 1.0; set([&](double, int i, int j, int k) { return q(i, j, k) + 1; }); break;
        case 4: v = w * v; set([&](double e, int i, int j, int k) { return q(i, j, k) * e; }); break;
        case 5: v += w; set([&](double e, int i, int j, int k) { return e + q(i, j, k); }); break;
        case 6: v -= cw; set([&](double e, int i, int j, int k) { return e - q(i, j, k); }); break;
        case 7: v *= w; set([&](double e, int i, int j, int k) { return e * q(i, j, k); }); break;
        case 8: v /= w; set([&](double e, int i, int j, int k) { return e / q(i, j, k); }); break;
        case 9: M.subMatView(S(a), D(a)) += cw - 2.0; set([&](double e, int i, int j, int k) { return e + (q(i, j, k) - 2); }); break;
        case 10: v -= w + v; set([&](double e, int i, int j, int k) { return e - (q(i, j, k) + e); }); break;
        case 11: v *= w * 2.0; set([&](double e, int i, int j, int k) { return e * (q(i, j, k) * 2); }); break;
        case 12: v /= 1.0 + cw; set([&](double e, int i, int j, int k) { return e / (1 + q(i, j, k)); }); break;
        case 13: v = rotate<2>(w); set([&](double, int i, int j, int k) { return q(a.d[0] - 1 - i, a.d[1] - 1 - j, k); }); break;
        case 14: v += rotate<2>(w); set([&](double e, int i, int j, int k) { return e + q(a.d[0] - 1 - i, a.d[1] - 1 - j, k); }); break;
        case 15: if (!square) continue; v = transpose(w); set([&](double, int i, int j, int k) { return q(j, i, k); }); break;
        case 16: if (!square) continue; v -= transpose(cw); set([&](double e, int i, int j, int k) { return e - q(j, i, k); }); break;
        case 17: if (!square) continue; v = matrixMultiply(v, w); set([&](double, int i, int j, int k) { double r = 0; for (int u = 0; u < a.d[0]; u++) r += o.at(a.s[0] + i, a.s[1] + u, a.s[2] + k) * q(u, j, k); return r; }); break;
        case 18: if (!square) continue; v *= rotate<1>(w); { SimpleMatrix<double> R = rotate<1>(SimpleMatrix<double>(toM<double>(o).subMatView(S(b), D(b)))); set([&](double e, int i, int j, int k) { return e * R(i, j, k); }); } break;
        case 19: { auto ex = w + 1.0; v = ex; set([&](double, int i, int j, int k) { return q(i, j, k) + 1; }); break; }
        case 20: v = SimpleMatrix<double>(w); set([&](double, int i, int j, int k) { return q(i, j, k); }); break;
        case 22: v = kw; set([&](double, int i, int j, int k) { return q(i, j, k); }); break;
        case 23: v *= kw; set([&](double e, int i, int j, int k) { return e * q(i, j, k); }); break;
        case 21: { auto ex = w * 3.0; v += ex; set([&](double e, int i, int j, int k) { return e + q(i, j, k) * 3; }); break; }
        }
        c.step(); whole(c, M, t, mc::fmt("operation %d from an overlapping region", op).c_str());
    }
    c.state(mc::Hash().raw(&a, sizeof a).raw(&b, sizeof b).i(31));
}
// regions of different size of one matrix are rejected as sources, wherever they lie
static void mismatched(Ctx& c) {
    int P[3] = {3, c.thorough() ? 3 : 2, 2}; Box a, b; for (int i = 0; i < 3; i++) { a.s[i] = c.range(0, P[i] - 1, "target start"); a.d[i] = c.range(1, P[i] - a.s[i], "target size"); } c.shard_point();
    Ten t = pattern(P[0], P[1], P[2], 2); SimpleMatrix<double> M = toM<double>(t); const auto& CM = M; auto v = M.subMatView(S(a), D(a));
    for (b.s[0] = 0; b.s[0] < P[0]; b.s[0]++) for (b.s[1] = 0; b.s[1] < P[1]; b.s[1]++) for (b.s[2] = 0; b.s[2] < P[2]; b.s[2]++)
        for (b.d[0] = 1; b.s[0] + b.d[0] <= P[0]; b.d[0]++) for (b.d[1] = 1; b.s[1] + b.d[1] <= P[1]; b.d[1]++) for (b.d[2] = 1; b.s[2] + b.d[2] <= P[2]; b.d[2]++) {
            if (D(a) == D(b)) continue;
            auto w = M.subMatView(S(b), D(b)); const auto kw = M.subMatView(S(b), D(b)); auto cw = CM.subMatView(S(b), D(b)); c.step(11);
            bool ok[] = {throws([&] { v = w; }), throws([&] { v = cw; }), throws([&] { v = M.subMatView(S(b), D(b)); }), throws([&] { M.subMatView(S(a), D(a)) = w; }), throws([&] { v = w + 1.0; }),
                throws([&] { v = kw; }), throws([&] { v += kw; }), throws([&] { v += w; }), throws([&] { v -= cw; }), throws([&] { v *= w; }), throws([&] { v /= cw; })};
            for (int i = 0; i < 11; i++) c.require(ok[i], "operation %d from region %s to region %s of the same matrix did not throw", i, str(b).c_str(), str(a).c_str());
            whole(c, M, t, "after rejected assignments");
        }
    c.note("target %s", str(a).c_str()); c.state(mc::Hash().raw(&a, sizeof a).i(32));
}
// regions of large matrices
static void large(Ctx& c) {
    static const int P[][3] = {{40, 300, 2}, {300, 1, 1}, {1, 1, 300}, {17, 16, 33}, {65, 70, 2}, {1, 300, 3}};
    int p = c.choose(6, "matrix"); Box b; Ten t = pattern(P[p][0], P[p][1], P[p][2]); SimpleMatrix<double> M = toM<double>(t); const SimpleMatrix<double>& CM = M;
    for (int i = 0; i < 3; i++) { // starts at either end and in the middle; sizes from one element to all that is left, and one more
        int n = P[p][i]; int s[4] = {0, 1, n / 2, n - 1}; int k = n == 1 ? 0 : n == 2 ? c.choose(2, "start") : c.choose(4, "start"); b.s[i] = s[k]; int left = n - b.s[i]; int d[4] = {left, left + 1, (left + 1) / 2, 1};
        b.d[i] = d[c.choose(left == 1 ? 2 : left == 2 ? 3 : 4, "size")]; if (i == 0) c.shard_point(); }
    c.note("matrix (%d,%d,%d) %s", P[p][0], P[p][1], P[p][2], str(b).c_str());
    if (!inside(b, P[p])) { c.require(throws([&] { M.subMatView(S(b), D(b)); }) && throws([&] { CM.subMatView(S(b), D(b)); }) && throws([&] { M.subMatCopy(S(b), D(b)); }), "a region outside the matrix was accepted"); whole(c, M, t, "after rejected view"); c.step(3); c.state(mc::Hash().i(77).i(p).raw(&b, sizeof b)); return; }
    auto v = M.subMatView(S(b), D(b)); readView(c, v, t, b, "view", false); auto vc = CM.subMatView(S(b), D(b)); readView(c, vc, t, b, "view of a constant matrix", false); SimpleMatrix<double> cp = M.subMatCopy(S(b), D(b));
    Ten e(b.d[0], b.d[1], b.d[2]); for (int k = 0; k < e.z; k++) for (int j = 0; j < e.y; j++) for (int i = 0; i < e.x; i++) e.at(i, j, k) = t.at(i + b.s[0], j + b.s[1], k + b.s[2]); whole(c, cp, e, "region copy");
    auto again = [&] { return M.subMatView(S(b), D(b)); }; c.step(4);
    for (int op : {0, 2, 5, 6, 8, 13, 15, 18, 19, 20, 22}) { writeView(c, v, again, t, b, op); whole(c, M, t, mc::fmt("after write %d through view %s", op, str(b).c_str()).c_str()); }
    readView(c, v, t, b, "view after the writes", false); c.state(mc::Hash().i(77).i(p).raw(&b, sizeof b));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C16", {{"regions", regions}, {"extremes", extremes}, {"nested", nested}, {"slices", slices}, {"histories", histories}, {"overlaps", overlaps}, {"mismatched", mismatched}, {"large", large},
        {"typed<int>", typed<int>}, {"typed<float>", typed<float>}, {"typed<uchar>", typed<unsigned char>}},
        "all starts and sizes from -1 to one past every axis for all parents up to (3,2,2) (thorough (4,3,3)) x 24 ways of writing x 6 wrong sizes; 13x13 extreme starts/sizes per axis up to INT_MAX; all views of all views of a (2,2,3) (thorough (3,2,3)) matrix; all slices; all histories of 13 operations on 5 live views to depth 4 (thorough 5); 24 operations between all pairs of equally large regions of one (3,3,3) (thorough (4,3,3)) matrix; 11 assignments between all pairs of differently large regions of one (3,2,2) (thorough (3,3,2)) matrix; 3 more element types; regions at the borders and in the middle of 6 matrices of up to 24000 elements");
}

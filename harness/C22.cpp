// C22: displaying matrices, images and progress shows everything and leaves the streams alone.
#include "mc.h"
#include "cnn_from_scratch/Matrix/SimpleMatrix.h"
#include "cnn_from_scratch/imageUtil.h"
#include "cnn_from_scratch/LoadingBar.h"
#include <sys/resource.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace my_cnn;
using mc::Ctx;

// everything that is written to standard output, by printf or std::cout, while alive
// output without end exceeds the limit on the size of files and ends the process
struct Capture {
    int fd, old; rlimit lim; Capture() { std::cout.flush(); fflush(stdout); getrlimit(RLIMIT_FSIZE, &lim); rlimit l = lim; l.rlim_cur = 64 << 20; setrlimit(RLIMIT_FSIZE, &l); fd = memfd_create("out", 0); old = dup(1); dup2(fd, 1); }
    std::string stop() { std::cout.flush(); fflush(stdout); std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); if (n) { ssize_t k = pread(fd, &s[0], n, 0); (void)k; } if (old >= 0) { setrlimit(RLIMIT_FSIZE, &lim); dup2(old, 1); close(old); close(fd); old = -1; } return s; }
    ~Capture() { if (old >= 0) stop(); }
};
static void fmtState(std::ostream& o, int k) {
    o.flags(std::ios_base::dec | std::ios_base::skipws); o.precision(6); o.fill(' ');
    switch (k) { case 1: o.precision(12); break; case 2: o << std::scientific << std::setprecision(3); break; case 3: o << std::fixed << std::setprecision(5); break; case 4: o << std::left; break; case 5: o << std::fixed << std::setprecision(0) << std::boolalpha; break; case 6: o.fill('*'); break; case 7: o << std::showpos << std::uppercase << std::internal << std::showbase; o.fill('_'); break; }
}
struct St { std::ios_base::fmtflags f; std::streamsize p; char fill; St(std::ostream& o) : f(o.flags()), p(o.precision()), fill(o.fill()) {} bool operator==(const St& s) const { return f == s.f && p == s.p && fill == s.fill; } };

template <typename T> static T value(int pat, size_t i) {
    uint32_t h = (uint32_t)(i * 2654435761u + pat * 977u + 5); h ^= h >> 13; h *= 2246822519u; h ^= h >> 16;
    switch (pat) {
    case 0: return (T)(i + 1);
    case 1: return std::is_floating_point_v<T> ? (T)((double)(h % 2000) / 16 - 60) : (T)(int)(h % 120);
    case 2: return std::is_signed_v<T> ? (T)-(double)(i % 100 + 1) : (T)(200 - i % 7);
    case 3: return (T)0;
    case 4: return std::is_floating_point_v<T> ? (T)(i % 2 ? -0.001 : 123456.789) : (T)(i % 2 ? 99 : std::is_signed_v<T> ? -7 : 7);
    case 6: return std::is_floating_point_v<T> ? (T)(i % 3 == 0 ? 1e30 : i % 3 == 1 ? -1e30 : 1e-30) : i % 3 == 0 ? std::numeric_limits<T>::min() : i % 3 == 1 ? std::numeric_limits<T>::max() : (T)(std::numeric_limits<T>::min() + 1);
    default: return std::is_floating_point_v<T> ? (T)(i % 3 == 0 ? 1e9 : i % 3 == 1 ? -9999.996 : 0.004) : (T)(sizeof(T) > 1 ? 1000000 + (int)i : 250 - (int)i);
    }
}
template <typename T> static std::string entry(T v) { char b[400]; if (std::is_floating_point_v<T>) snprintf(b, sizeof b, "%.2f", std::fabs((double)v)); else snprintf(b, sizeof b, "%llu", v < 0 ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v); return (v < 0 ? "-" : "") + std::string(b); }

// the lines of a printed matrix: one per row, "[a,b,..]" for each channel
template <typename T> static void expectPrinted(Ctx& c, const std::string& s, int x, int y, int z, const std::vector<T>& v) {
    std::vector<std::string> lines; std::string l; std::istringstream is(s); 
    while (std::getline(is, l)) lines.push_back(l);
    std::vector<std::string> rows; for (auto& q : lines) if (q.find('[') != std::string::npos) rows.push_back(q);
    if (!x || !y || !z) { for (auto& q : s) c.require(!isdigit((unsigned char)q), "a matrix without elements prints '%s'", s.c_str()); return; }
    c.require((int)rows.size() == x, "%zu rows are printed, %d expected: %s", rows.size(), x, s.c_str());
    for (int i = 0; i < x; i++) {
        std::string t; for (char ch : rows[i]) if (ch != ' ' && ch != '*' && ch != '_') t += ch;
        std::string e; for (int k = 0; k < z; k++) { e += "["; for (int j = 0; j < y; j++) { e += entry(v[i + x * (j + (size_t)y * k)]); e += j == y - 1 ? "]" : ","; } }
        c.require(t == e, "row %d is printed as %s, expected %s", i, t.c_str(), e.c_str());
        // neighbours do not run into each other: every entry is as wide as the others or has its own separator
        c.require(rows[i].find("][") == std::string::npos, "channels are not separated: %s", rows[i].c_str());
    }
}
template <typename T> static void printType(Ctx& c, int lim) {
    int x = c.range(0, lim, "rows"), y = c.range(0, lim, "columns"), z = c.range(0, 3, "channels"); c.shard_point();
    int pat = c.choose(7, "values"), kind = c.choose(5, "kind"), own = c.choose(8, "format"), other = c.choose(8, "format of cout"); 
    if (!c.thorough() && own && other && own != other) c.discard();
    c.note("matrix (%d,%d,%d) of %s values %d, kind %d, format %d/%d", x, y, z, std::is_floating_point_v<T> ? "floating" : "integer", pat, kind, own, other);
    SimpleMatrix<T> M(dim3(x, y, z)); std::vector<T> v(M.size()); for (size_t i = 0; i < v.size(); i++) M[i] = v[i] = value<T>(pat, i);
    SimpleMatrix<T> B(dim3(x + 1, y + 2, z + 1), (T)77); if (kind == 1 || kind == 2) for (int k = 0; k < z; k++) for (int j = 0; j < y; j++) for (int i = 0; i < x; i++) B(i + 1, j + 1, k + 1) = M(i, j, k);
    std::ostringstream os; fmtState(os, own); fmtState(std::cout, other); St a(os), b(std::cout); std::string text, leak;
    { Capture cap; const SimpleMatrix<T>& CM = M; const SimpleMatrix<T>& CB = B;
      if (kind == 0) os << CM; else if (kind == 1) os << B.subMatView({1, 1, 1}, {x, y, z}); else if (kind == 2) os << CB.subMatView({1, 1, 1}, {x, y, z}); else if (kind == 3) os << (CM + (T)0); else { fmtState(std::cout, own); b = St(std::cout); std::cout << CM; }
      leak = cap.stop(); }
    St a2(os), b2(std::cout); fmtState(std::cout, 0); c.step();
    text = kind == 4 ? leak : os.str();
    if (kind != 4) c.require(leak.empty(), "printing to another stream writes to standard output: %s", leak.c_str());
    if (kind == 3 && !std::is_same_v<decltype(T() + T()), T>) c.discard();
    expectPrinted<T>(c, text, x, y, z, v);
    c.require(a == a2, "the format of the stream is changed by printing"); c.require(b == b2, "the format of std::cout is changed by printing");
    mc::Hash h; h.s(text).i(own).i(other).i(kind).i(sizeof(T)); c.state(h);
}
static void print(Ctx& c) {
    int lim = c.thorough() ? 4 : 3;
    switch (c.choose(7, "type")) { case 0: printType<int>(c, lim); break; case 1: printType<float>(c, lim); break; case 2: printType<double>(c, lim); break; case 3: printType<unsigned char>(c, lim); break; case 4: printType<unsigned>(c, lim); break; case 5: printType<long>(c, lim); break; default: printType<size_t>(c, lim); }
}
static void printLarge(Ctx& c) {
    static const std::vector<std::array<int, 3>> S{{28, 28, 1}, {5, 5, 8}, {1, 300, 1}, {300, 1, 1}, {2, 3, 40}}; auto s = c.pick(S, "shape"); int pat = c.choose(6, "values"); c.shard_point();
    SimpleMatrix<double> M(dim3(s[0], s[1], s[2])); std::vector<double> v(M.size()); for (size_t i = 0; i < v.size(); i++) M[i] = v[i] = value<double>(pat, i);
    std::ostringstream os; os << M; c.step(); expectPrinted<double>(c, os.str(), s[0], s[1], s[2], v); c.state(mc::Hash().s(os.str()));
}
// ---- images
struct Cell { int r, g, b; };
static std::vector<std::vector<Cell>> parse(Ctx& c, const std::string& s) {
    std::vector<std::vector<Cell>> out; std::vector<Cell> row; size_t p = 0;
    while (p < s.size()) {
        Cell q; int n = 0;
        if (s.compare(p, 4, "\033[0m") == 0) { p += 4; }
        else if (sscanf(s.c_str() + p, "\033[48;2;%d;%d;%dm%n", &q.r, &q.g, &q.b, &n) == 3 && n) { row.push_back(q); p += n; }
        else if (s[p] == '\n') { out.push_back(row); row.clear(); p++; }
        else if (s[p] == ' ') p++;
        else c.require(false, "unexpected character %d in the image", s[p]);
    }
    c.require(row.empty(), "the last row of the image is not ended");
    return out;
}
template <typename T> static T pixel(int pat, size_t i, size_t n) {
    bool f = std::is_floating_point_v<T>; uint32_t h = (uint32_t)(i * 2654435761u + pat * 977u + 5); h ^= h >> 13; h *= 2246822519u; h ^= h >> 16;
    switch (pat) {
    case 0: return (T)(f ? (double)i / n : (double)(i * 255 / n));
    case 1: return (T)(f ? (h % 1001) / 500.0 : h % 256);
    case 2: return (T)(f ? 0.5 : 255);
    case 3: return (T)0;
    case 4: return (T)(f ? 3.25 : 17);
    case 7: return (T)(f ? 1000 + (double)((i * 7) % 11) * 6.103515625e-5 : 200 + (double)(i % 3));   // a small range far from zero
    case 8: return (T)(f ? 1e6 + (double)((i * 5) % 7) : 254 + (double)(i % 2));
    case 9: return (T)(f ? 1.0 - (double)(i % 9) / 1048576 : 128 - (double)(i % 2));
    case 10: if (f) return (T)(((double)(h % 4001) - 2000) / 10); if (std::is_signed_v<T>) return (T)((long)(h % 255) - 127); return (T)(h % (sizeof(T) == 1 ? 256 : 60000));   // as wide as the type, or wider than a byte
    case 11: if (f) return (T)(-1.0 - (double)(i % 5)); return (T)(sizeof(T) == 1 ? std::is_signed_v<T> ? -(int)(i % 100) : (int)(i % 100) : 300 + (long)(i % 7) * 100);                   // nothing above zero, nothing within a byte
    case 12: if (f) return (T)(i % 2 ? 1e-3 : -1e-3); return i % 3 == 0 ? std::numeric_limits<T>::min() : i % 3 == 1 ? std::numeric_limits<T>::max() : (T)1;
    case 5: return (T)(f ? 1000.0 * (i % 5) : (i % 2) * 255);
    default: return std::is_signed_v<T> ? (T)(f ? (double)(h % 256) / 255 - 0.5 : (double)(h % 300) - 50) : (T)(h % 128);
    }
}
template <typename T> static void imageType(Ctx& c) {
    int x = c.range(1, c.thorough() ? 5 : 4, "rows"), y = c.range(1, c.thorough() ? 5 : 4, "columns"), z = c.range(1, 4, "channels"); c.shard_point(); int pat = c.choose(13, "pixels"), kind = c.choose(3, "kind");
    SimpleMatrix<T> M(dim3(x, y, z)); for (size_t i = 0; i < M.size(); i++) M[i] = pixel<T>(pat, i, M.size());
    SimpleMatrix<T> B(dim3(x + 1, y + 1, z + 1), (T)99); for (int k = 0; k < z; k++) for (int j = 0; j < y; j++) for (int i = 0; i < x; i++) B(i + 1, j, k + 1) = M(i, j, k);
    c.note("image (%d,%d,%d) of %s pixels %d, kind %d", x, y, z, std::is_floating_point_v<T> ? "floating" : "integer", pat, kind);
    if (kind == 0) { const SimpleMatrix<T> keep = M; for (size_t i = 0; i < M.size(); i++) M[i] = pixel<T>((pat + 1) % 13, i, M.size()); Capture cap; printImage(M); cap.stop(); for (size_t i = 0; i < M.size(); i++) M[i] = keep[i]; }     // the same matrix with other values before
    fmtState(std::cout, 0); std::string s; { Capture cap; const SimpleMatrix<T>& CM = M; if (kind == 0) printImage(M); else if (kind == 1) printImage(B.subMatView({1, 0, 1}, {x, y, z})); else printImage(CM); s = cap.stop(); }
    c.step(); auto g = parse(c, s); double mn = 1e300, mx = -1e300; for (size_t i = 0; i < M.size(); i++) mn = std::min(mn, (double)M[i]), mx = std::max(mx, (double)M[i]);
    double top = std::is_floating_point_v<T> ? std::max(mx, 1.0) : 255;
    c.require((int)g.size() == x, "%zu rows of the image are displayed, %d expected", g.size(), x);
    for (int i = 0; i < x; i++) { c.require((int)g[i].size() == y, "%zu pixels are displayed in row %d, %d expected", g[i].size(), i, y);
        for (int j = 0; j < y; j++) for (int k = 0; k < 3; k++) {
            int got = k == 0 ? g[i][j].r : k == 1 ? g[i][j].g : g[i][j].b; double v = M(i, j, z == 3 ? k : 0), e = z == 3 ? std::max(255 * v / top, 0.0) : top <= mn ? 255 : 255 * (v - mn) / (top - mn);
            c.require(std::fabs(got - std::floor(std::min(e, 255.0))) <= 1 && got >= 0 && got <= 255, "pixel (%d,%d) of value %g is displayed with %s level %d, expected %d", i, j, v, z == 3 ? "colour" : "grey", got, (int)e);
        } }
    c.state(mc::Hash().s(s).i(kind).i(sizeof(T)));
}
static void image(Ctx& c) {
    switch (c.choose(10, "type")) {
    case 0: imageType<float>(c); break; case 1: imageType<double>(c); break; case 2: imageType<unsigned char>(c); break; case 3: imageType<signed char>(c); break; case 4: imageType<short>(c); break; case 5: imageType<unsigned short>(c); break;
    case 6: imageType<unsigned>(c); break; case 7: imageType<long long>(c); break; case 8: imageType<size_t>(c); break; default: imageType<int>(c); }
}
static void imageLarge(Ctx& c) {
    int pat = c.choose(13, "pixels"), z = c.flip("colour") ? 3 : 1; c.shard_point(); SimpleMatrix<float> M(dim3(28, 30, z)); for (size_t i = 0; i < M.size(); i++) M[i] = pixel<float>(pat, i, M.size());
    std::string s; { Capture cap; printImage(M); s = cap.stop(); } auto g = parse(c, s); c.require(g.size() == 28, "%zu rows of 28 are displayed", g.size()); for (auto& r : g) c.require(r.size() == 30, "%zu of 30 pixels are displayed", r.size()); c.step(); c.state(mc::Hash().s(s));
}
// ---- progress
static void bar(Ctx& c) {
    static const std::vector<int> T{1, 2, 3, 5, 7, 10, 33, 64, 100, 101, 999, 1000, 1875, 60000, 16777217, 40000000, 1000000000, 2147483647}; int total = c.pick(T, "total"), width = c.pick(std::vector<int>{1, 2, 5, 10, 49, 50, 60, 99, 100, 101, 200, 1000}, "width"); c.shard_point();
    int val = total <= 101 ? c.choose(total, "done") : c.choose(100, "done") * (total / 100); if (c.flip("last")) { if (val != 0) c.discard(); val = total - 1; }
    fmtState(std::cout, 0); std::string s; { Capture cap; if (width == 50) loadingBar(val, total); else loadingBar(val, total, width); s = cap.stop(); } c.step();
    std::string t; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\033') { while (i < s.size() && !isalpha((unsigned char)s[i])) i++; continue; } t += s[i]; }
    size_t a = t.find('['), b = t.find(']'); c.require(t.size() && t[0] == '\r' && a != t.npos && b != t.npos && b > a, "no bar in %s", t.c_str());
    std::string in = t.substr(a + 1, b - a - 1); int eq = (int)std::count(in.begin(), in.end(), '='); c.require(in == std::string(eq, '=') + std::string(in.size() - eq, ' '), "the bar is [%s]", in.c_str());
    c.require((int)in.size() == std::max(width - 1, 0), "the bar is %zu wide, %d expected", in.size(), width - 1);
    c.require(std::abs(eq - (int)((double)val / total * width)) <= 1, "%d of %d cells are filled after %d of %d", eq, width, val, total);
    int pc = -1; char sign = 0; c.require(sscanf(t.c_str() + b + 1, " %d%c", &pc, &sign) == 2 && sign == '%', "no percentage in %s", t.c_str()); c.require(std::abs(pc - (int)(100.0 * val / total + 1)) <= 1 && pc >= 0 && pc <= 100, "%d%% are reported after %d of %d", pc, val, total);
    c.state(mc::Hash().s(t).i(width));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C22", {{"print", print}, {"print large", printLarge}, {"image", image}, {"large image", imageLarge}, {"progress", bar}},
        "matrices, views, constant views and expressions of 7 element types with all shapes up to 3x3x3 (thorough 4x4x3) including empty ones, 7 value patterns, 8 formats of the stream and of std::cout; 5 large shapes; images of 10 pixel types up to 4x4x4 (5x5x4) in 13 patterns as matrix and view; 28x30 images; progress at up to 100 points of 18 totals up to 2^31 in 12 widths");
}

// C19: the image reader returns exactly the stored image for any access order.
#include "mc.h"
#include "cnn_from_scratch/MNISTReader.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <signal.h>
using namespace my_cnn;
using mc::Ctx;

struct Quiet { std::streambuf *o, *e; std::ostringstream os; Quiet() : o(std::cout.rdbuf(os.rdbuf())), e(std::cerr.rdbuf(os.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); std::cout.clear(); } };
struct Files {
    int n, h, w, pat; std::string img, lab;
    Files(int n, int h, int w, int pat) : n(n), h(h), w(w), pat(pat) { const char* d = getenv("MC_SCRATCH"); img = mc::fmt("%s/img.%d", d ? d : ".", (int)getpid()); lab = mc::fmt("%s/lab.%d", d ? d : ".", (int)getpid()); }
    ~Files() { unlink(img.c_str()); unlink(lab.c_str()); }
    unsigned char pix(int i, int r, int c) const { uint32_t k = (uint32_t)((i * h + r) * w + c); return pat == 0 ? (unsigned char)(k * 7 + 3) : pat == 1 ? (unsigned char)(255 - k) : pat == 2 ? (k % 3 == 0 ? 0 : k % 3 == 1 ? 255 : 128) : (unsigned char)(10 + i); }
    unsigned char label(int i) const { return pat == 2 ? (unsigned char)(255 - i) : (unsigned char)((i * 3 + 1) % 10); }
    static std::string be(uint32_t v) { std::string s; for (int b = 24; b >= 0; b -= 8) s += (char)(v >> b & 255); return s; }
    std::string images(uint32_t magic = 2051, int count = -1) const { std::string s = be(magic) + be(count < 0 ? n : count) + be(h) + be(w); for (int i = 0; i < n; i++) for (int r = 0; r < h; r++) for (int c = 0; c < w; c++) s += (char)pix(i, r, c); return s; }
    std::string labels(uint32_t magic = 2049, int count = -1) const { std::string s = be(magic) + be(count < 0 ? n : count); for (int i = 0; i < n; i++) s += (char)label(i); return s; }
    static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
    void write() const { put(img, images()); put(lab, labels()); }
    std::string diff(const Image& g, int i) const {
        if (g.data.dim().x != h || g.data.dim().y != w || g.data.dim().z != 1) return mc::fmt("image %d has shape (%d,%d,%d)", i, g.data.dim().x, g.data.dim().y, g.data.dim().z);
        for (int r = 0; r < h; r++) for (int c = 0; c < w; c++) { double e = (pix(i, r, c) - 128) / 255.0; if (!(std::fabs(g.data(r, c, 0) - e) <= 1e-6)) return mc::fmt("pixel (%d,%d) of image %d is %g, expected %g (stored %d)", r, c, i, (double)g.data(r, c, 0), e, pix(i, r, c)); }
        if (g.label != label(i)) return mc::fmt("label of image %d is %d, expected %d", i, g.label, label(i));
        return "";
    }
};
// all sequences of requests
static void sequences(Ctx& c) {
    static const std::vector<std::array<int, 3>> S{{3, 2, 3}, {2, 3, 2}, {1, 1, 1}, {0, 2, 2}, {4, 1, 2}};
    auto s = c.pick(S, "files"); int pat = c.choose(3, "pixels"); Files F(s[0], s[1], s[2], pat); F.write(); Quiet q; MNISTReader R(F.img, F.lab); c.note("%d images of %dx%d", F.n, F.h, F.w);
    c.require(R.numImages() == (size_t)F.n, "number of images is %zu, expected %d", R.numImages(), F.n); c.require(R.imageIndex() == 0, "a new reader is at %zu", R.imageIndex());
    size_t pos = 0; int depth = c.thorough() ? 6 : 4;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(1 + 1 + F.n + 3, "request"); if (d == 0) c.shard_point(); if (op == 0) break; bool threw = false; Image g; int want;
        if (op == 1) { want = (int)pos; c.note("next"); try { g = R.nextImage(); } catch (std::exception&) { threw = true; } }
        else { size_t i = op - 2 < F.n ? (size_t)(op - 2) : op - 2 == F.n ? (size_t)F.n : op - 2 == F.n + 1 ? (size_t)F.n + 100000 : (size_t)-1; want = op - 2 < F.n ? op - 2 : F.n; c.note("get %zu", i); try { g = R.getImage(i); } catch (std::exception&) { threw = true; } }
        c.step(); bool past = want >= F.n;
        c.require(threw == past, "request for image %d of %d %s", want, F.n, threw ? "raises an error" : "returns an image");
        if (!past) { std::string m = F.diff(g, want); c.require(m.empty(), "%s", m.c_str()); pos = want + 1; }
        c.require(R.imageIndex() == pos, "position is %zu, expected %zu", R.imageIndex(), pos); c.require(R.numImages() == (size_t)F.n, "number of images changed"); c.state(mc::Hash().i(s[0]).i(s[1]).i(pat).i(pos).i(op));
    }
    // sequential reading goes on to the end from here
    for (; pos < (size_t)F.n; pos++) { Image g = R.nextImage(); c.step(); std::string m = F.diff(g, (int)pos); c.require(m.empty(), "afterwards: %s", m.c_str()); }
    bool threw = false; try { R.nextImage(); } catch (std::exception&) { threw = true; } c.require(threw, "an image is returned past the end");
}
// every image size, every pixel value
static void sizes(Ctx& c) {
    int m = c.thorough() ? 12 : 6; int h = c.range(1, m, "rows"), w = c.range(1, m, "columns"); c.shard_point(); int n = c.range(1, 4, "images"), pat = c.choose(3, "pixels"); Files F(n, h, w, pat); F.write(); Quiet q; MNISTReader R(F.img, F.lab); c.note("%d images of %dx%d", n, h, w);
    for (int i = n - 1; i >= 0; i--) { Image g = R.getImage(i); c.step(); std::string d = F.diff(g, i); c.require(d.empty(), "%s", d.c_str()); } c.state(mc::Hash().i(h).i(w).i(n).i(pat));
}
static void pixelValues(Ctx& c) { int v = c.choose(256, "value"); c.shard_point(); Files F(1, 1, 1, 0); Files::put(F.img, Files::be(2051) + Files::be(1) + Files::be(1) + Files::be(1) + (char)v); Files::put(F.lab, Files::be(2049) + Files::be(1) + (char)v); Quiet q; MNISTReader R(F.img, F.lab); Image g = R.nextImage(); c.step(); c.note("pixel %d", v);
    c.require(std::fabs(g.data(0, 0, 0) - (v - 128) / 255.0) <= 1e-6, "stored pixel %d reads as %g", v, (double)g.data(0, 0, 0)); c.require(g.label == v, "stored label %d reads as %d", v, g.label); c.state(v); }
static void many(Ctx& c) {
    int k = c.choose(5, "files"); c.shard_point();
    if (k != 3) { static const int S[5][3] = {{300, 2, 1}, {70, 28, 28}, {3, 300, 260}, {}, {65541, 1, 2}}; Files F(S[k][0], S[k][1], S[k][2], k == 2 ? 3 : k); F.write(); Quiet q; MNISTReader R(F.img, F.lab); c.note("%d images of %dx%d", F.n, F.h, F.w);
        for (int i : {0, F.n - 1, F.n / 2, 1}) { std::string d = F.diff(R.getImage(i), i); c.step(); c.require(d.empty(), "%s", d.c_str()); if (i + 1 < F.n) { d = F.diff(R.nextImage(), i + 1); c.require(d.empty(), "next: %s", d.c_str()); } } }
    else { // more than 2^32 bytes of pixels (a sparse file)
        const int N = 4400, H = 1000, W = 1000; Files F(N, H, W, 3); int idx[4] = {5, 2200, 4296, 4399}; int fd = open(F.img.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); std::string hd = Files::be(2051) + Files::be(N) + Files::be(H) + Files::be(W); bool ok = write(fd, hd.data(), hd.size()) == (ssize_t)hd.size();
        for (int i : idx) { std::string s; for (int r = 0; r < H; r++) for (int x = 0; x < W; x++) s += (char)F.pix(i, r, x); ok &= pwrite(fd, s.data(), s.size(), 16 + (off_t)i * H * W) == (ssize_t)s.size(); } close(fd);
        if (!ok) c.discard();                                    // the file system has no sparse files
        Files::put(F.lab, F.labels()); Quiet q; MNISTReader R(F.img, F.lab); c.note("%d images of %dx%d", N, H, W);
        for (int i : idx) { std::string d = F.diff(R.getImage(i), i); c.step(); c.require(d.empty(), "%s", d.c_str()); c.require(R.imageIndex() == (size_t)i + 1, "position is %zu", R.imageIndex()); } }
    c.state(k);
}
// runs f in a child process; 0 ended normally, 1 reported by exception or assertion; message on misbehaviour
template <typename F> int isolated(Ctx& c, F f, std::string& msg) {
    int p[2]; if (pipe(p)) c.fail("pipe"); fflush(stdout); pid_t pid = fork();
    if (pid == 0) { close(p[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); signal(SIGABRT, SIG_DFL); std::string m; int rc = 0; try { m = f(); } catch (std::exception&) { rc = 1; } if (!m.empty()) { if (write(p[1], m.data(), m.size())) {} rc = 3; } _exit(rc); }
    close(p[1]); char b[512]; ssize_t r; while ((r = read(p[0], b, sizeof b)) > 0) msg.append(b, r); close(p[0]); int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGABRT) return 1; msg = mc::fmt("crash: signal %d", WTERMSIG(st)); return 3; }
    if (WEXITSTATUS(st) == 99) msg = "memory error (AddressSanitizer)"; else if (WEXITSTATUS(st) > 1 && msg.empty()) msg = mc::fmt("exit %d", WEXITSTATUS(st));
    return WEXITSTATUS(st);
}
// either file cut off at every byte
static void truncated(Ctx& c) {
    static const std::vector<std::array<int, 3>> S{{3, 2, 3}, {2, 1, 1}, {1, 3, 2}};
    auto s = c.pick(S, "files"); Files F(s[0], s[1], s[2], 1); bool which = c.flip("label file"); std::string I = F.images(), L = F.labels(); int cut = c.choose((int)(which ? L : I).size(), "length"); c.shard_point(); int how = c.choose(3, "access");
    Files::put(F.img, which ? I : I.substr(0, cut)); Files::put(F.lab, which ? L.substr(0, cut) : L); c.note("%s file cut at %d, access %d", which ? "label" : "image", cut, how);
    int whole = which ? std::max(0, cut - 8) : std::max(0, cut - 16) / (F.h * F.w); std::string msg; c.step();
    int rc = isolated(c, [&]() -> std::string {
        MNISTReader R(F.img, F.lab);
        for (int k = 0; k < F.n; k++) {
            int i = how == 0 ? k : how == 1 ? F.n - 1 - k : k; Image g; bool threw = false;
            try { g = how == 2 ? R.nextImage() : R.getImage(i); } catch (std::exception&) { threw = true; }
            if (!threw && i >= whole) return mc::fmt("image %d is returned although it is cut off", i);
            if (!threw) { std::string d = F.diff(g, i); if (!d.empty()) return d; }
            if (threw && how == 2) { try { R.nextImage(); return "reading goes on after an error with a fabricated image"; } catch (std::exception&) {} break; }
        }
        return ""; }, msg);
    c.require(rc <= 1 && msg.empty(), "%s file cut after %d bytes: %s", which ? "label" : "image", cut, msg.c_str()); c.state(mc::Hash().i(s[0]).i(which).i(cut).i(how));
}
// wrong type numbers and counts that differ
static void headers(Ctx& c) {
    static const std::vector<uint32_t> M{0, 2049, 2050, 2051, 2052, 0x03080000u, 0x01080000u, 0xFFFFFFFFu, 0x10803u, 0x801u << 8}; Files F(2, 2, 2, 0); int how = c.choose(3, "field"); uint32_t v; std::string I = F.images(), L = F.labels();
    if (how == 0) { v = c.pick(M, "image type"); if (v == 2051) c.discard(); I = F.images(v); } else if (how == 1) { v = c.pick(M, "label type"); if (v == 2049) c.discard(); L = F.labels(v); } else { int a = c.range(0, 4, "images"), b = c.range(0, 4, "labels"); if (a == b) c.discard(); I = F.images(2051, a); L = F.labels(2049, b); v = a * 10 + b; }
    c.shard_point(); Files::put(F.img, I); Files::put(F.lab, L); std::string msg; c.note("header field %d value %u", how, v); c.step();
    int rc = isolated(c, [&]() -> std::string { MNISTReader R(F.img, F.lab); for (int i = 0; i < 2; i++) { try { R.getImage(i); return "an image is returned"; } catch (std::exception&) {} } return ""; }, msg);
    c.require(rc <= 1 && msg.empty(), "wrong header (field %d, value %u): %s", how, v, msg.c_str()); c.state(mc::Hash().i(how).i(v));
}
static void missing(Ctx& c) {
    int how = c.choose(4, "missing"); c.shard_point(); Files F(2, 2, 2, 0); if (how == 0 || how == 3) Files::put(F.lab, how == 3 ? "" : F.labels()); if (how == 1 || how == 3) Files::put(F.img, how == 3 ? "" : F.images()); std::string msg; c.step();
    int rc = isolated(c, [&]() -> std::string { MNISTReader R(F.img, F.lab); try { R.nextImage(); return "an image is returned"; } catch (std::exception&) {} return ""; }, msg); c.require(rc <= 1 && msg.empty(), "missing file: %s", msg.c_str()); c.state(how); c.note("missing files %d", how);
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C19", {{"sequences", sequences}, {"sizes", sizes}, {"pixel values", pixelValues}, {"many", many}, {"truncated", truncated}, {"headers", headers}, {"missing", missing}},
        "all request sequences of up to 4 (thorough 6) requests on 5 file pairs of 0..4 images including three kinds of requests past the end, followed by reading to the end; all image sizes up to 6x6 (12x12); all pixel and label values; up to 65541 images and 4.4 GB; every truncation point of either file of 3 pairs with 3 access orders; 10 type numbers per file; all pairs of counts up to 4");
}

// C14: incomplete or failed model files are never taken for a model.
#include "savednets.h"
#include "alloc.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>

struct Case { std::vector<SItem> items; int x, y, z; std::vector<std::string> labels; };
static const std::vector<Case>& cases() {
    static const std::vector<Case> C{
        {{smenu()[0], smenu()[6], smenu()[3], smenu()[11]}, 5, 5, 1, {"cat", "dog", "a cow"}},
        {{smenu()[4], smenu()[10], smenu()[12], smenu()[11]}, 3, 2, 1, {"x", "y", "zz"}},
        {{}, 3, 1, 1, {"one", "two", "three"}},
        {{smenu()[1], smenu()[5], smenu()[11]}, 4, 7, 2, {"1", "2", "3"}},
        {{smenu()[8], smenu()[6], smenu()[12], smenu()[7], smenu()[9], smenu()[10], smenu()[8], smenu()[6], smenu()[12], smenu()[7], smenu()[9], smenu()[11]}, 2, 1, 1, {"x", "y", "x y"}}};
    return C;
}
static void make(Model& M, const Case& k, int pat) { int x = k.x, y = k.y, z = k.z; build(M, k.items, x, y, z); M.setOutputLabels(k.labels); Ten in(k.x, k.y, k.z); genericFill(in.v, 5, 1); M.forwardPropagation(toM<double>(in)); setAll(M, pat); }
// the saved text of every case, made once per process
static const std::string& text(int k) {
    static std::map<int, std::string> T; auto it = T.find(k); if (it != T.end()) return it->second;
    Model M; make(M, cases()[k], 0); std::string f = scratchFile("ref"); M.saveModel(f); std::string s = slurp(f); unlink(f.c_str()); return T[k] = s;
}
// end of the last label's text: a shorter file cannot be complete
static size_t lastLabelEnd(int k) { const std::string& t = text(k); size_t p = t.find("Output labels"); for (auto& l : cases()[k].labels) p = t.find("\n" + l + "\n", p == std::string::npos ? 0 : p) + 0; return p + 1 + cases()[k].labels.back().size(); }
static bool load(Ctx& c, const std::string& content, Model& B) { std::string f = scratchFile("load"); spit(f, content); Quiet q; bool r = B.loadModel(f); unlink(f.c_str()); c.step(); return r; }

// cut off at every byte
static void truncated(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); const std::string& t = text(k); c.require(t.size() > 20 && lastLabelEnd(k) <= t.size(), "saved file has no labels");
    int cut = c.choose((int)t.size(), "length"); c.shard_point(); c.note("model %d cut at %d of %zu", k, cut, t.size());
    Model A, B; make(A, cases()[k], 0); bool r = load(c, t.substr(0, cut), B); std::string why;
    if ((size_t)cut < lastLabelEnd(k)) c.require(!r, "a file of %zu bytes cut after %d bytes loads successfully", t.size(), cut);
    else if (r) c.require(sameParams(A, B, 5.1e-7, why), "a file cut after its last label loads as another model: %s", why.c_str());
    c.state(mc::Hash().i(k).i(cut));
}
// the tail of the file was allocated but never written: zero bytes, blanks or other filler from every position on
static void torn(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); const std::string& t = text(k); size_t from = c.choose((int)lastLabelEnd(k), "start"); c.shard_point(); int fillc = c.choose(3, "filler");
    std::string s = t; char f = fillc == 0 ? 0 : fillc == 1 ? ' ' : 'x'; for (size_t i = from; i < s.size(); i++) s[i] = f;
    c.note("model %d bytes from %zu on are %d", k, from, f); Model B; bool r = load(c, s, B);
    c.require(!r, "a file whose end from byte %zu on was never written loads successfully", from); c.state(mc::Hash().i(k).i(from).i(f));
}
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; std::string s; for (char ch : t) { s += ch; if (ch == '\n') { v.push_back(s); s.clear(); } } if (!s.empty()) v.push_back(s); return v; }
// one line missing, unreadable or with a wrong field
static void fields(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); auto v = lines(text(k)); int i = c.choose((int)v.size(), "line"); c.shard_point(); int how = c.choose(15, "change");
    std::string l = v[i]; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (l.empty()) c.discard();
    // what kind of line
    size_t lab = 0; for (size_t j = 0; j < v.size(); j++) if (v[j].rfind("Output labels", 0) == 0) lab = j; bool isLabel = (size_t)i > lab, sep = l[0] == '(';
    bool number = l.find_first_not_of("-0123456789. ") == std::string::npos; bool word = !number && !isLabel && !sep; bool field = word && l.find_first_of("0123456789") != std::string::npos; bool matrixRow = number && !isLabel; bool shape = matrixRow && i > 0 && (v[i - 1] == "weights\n" || v[i - 1] == "biases\n");
    std::string s; bool mustFail = true;
    switch (how) {
    case 0: s = ""; if (sep) c.discard(); break;                                                             // missing
    case 1: if (isLabel || sep) c.discard(); s = "garbage\n"; break;                                          // unreadable
    case 2: if (!word) c.discard(); s = v[i]; s[0] ^= 1; break;                                               // another word
    case 3: if (!field) c.discard(); { size_t p = l.find_last_of(' '); s = l.substr(0, p + 1) + "oops\n"; } break;   // field without a number
    case 4: if (!matrixRow) c.discard(); { s = v[i]; size_t p = s.find_first_of("0123456789"); s.replace(p, 1, "?"); } break;
    case 6: case 7: case 8: if (!field || l.rfind("Output", 0) == 0) c.discard(); s = l.substr(0, l.find_last_of(' ') + 1) + (how == 6 ? "0\n" : how == 7 ? "-1\n" : "-2147483648\n"); break;   // no size and no stride is below one
    case 9: if (!matrixRow) c.discard(); { size_t a = l.find_first_not_of(' '), b = l.find(' ', a); s = b == std::string::npos ? "\n" : l.substr(0, a) + l.substr(b) + "\n"; } break;   // a number is missing
    case 10: case 11: case 12: case 13: case 14: if (!shape) c.discard(); { int d[3]; sscanf(l.c_str(), "%d %d %d", d, d + 1, d + 2);      // matrices of another shape than announced
        if (how < 13) d[how - 10]++; else if (d[0] == d[how - 12]) c.discard(); else std::swap(d[0], d[how - 12]); s = mc::fmt("%d %d %d\n", d[0], d[1], d[2]); } break;
    default: if (!field || l.rfind("Output", 0) == 0) c.discard(); { // one more than was saved, for the sizes that are repeated in the parameters
        size_t p = l.find_last_of(' '); s = l.substr(0, p + 1) + std::to_string(std::stoi(l.substr(p + 1)) + 1) + "\n";
        bool inKernelOrFc = false; for (int j = i; j >= 0; j--) { if (v[j].rfind("Kernel", 0) == 0 || v[j].rfind("Connected", 0) == 0) { inKernelOrFc = true; break; } if (v[j].rfind("Pooling", 0) == 0) break; } if (!inKernelOrFc || l.rfind("stride", 0) == 0) c.discard(); break; }
    }
    v[i] = s; std::string t; for (auto& q : v) t += q; c.note("model %d line %d \"%s\" change %d", k, i, l.c_str(), how);
    Model B; bool r = load(c, t, B);
    // a kernel without a stride line is one of an earlier version
    if (how == 0 && l.rfind("stride ", 0) == 0) mustFail = false;
    if (mustFail) c.require(!r, "a file with line %d (\"%s\") %s loads successfully", i, l.c_str(), how == 0 ? "missing" : how == 1 ? "replaced by garbage" : "changed");
    c.state(mc::Hash().i(k).i(i).i(how));
}
// one letter of one word of the format (the names of layers and fields) is another one
static void letters(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); auto v = lines(text(k)); int i = c.choose((int)v.size(), "line"); c.shard_point();
    size_t lab = 0; for (size_t j = 0; j < v.size(); j++) if (v[j].rfind("Output labels", 0) == 0) lab = j; if ((size_t)i > lab) c.discard();
    int p = c.choose((int)v[i].size(), "position"); if (!isalpha((unsigned char)v[i][p])) c.discard(); int how = c.choose(5, "change"); std::string old = v[i];
    switch (how) { case 0: v[i][p] ^= 1; break; case 1: v[i][p] ^= 32; break; case 2: v[i][p] = ' '; break; case 3: v[i].erase(p, 1); break; default: v[i].insert(p, 1, v[i][p] == 'z' ? 'y' : 'z'); }
    std::string t; for (auto& q : v) t += q; c.note("model %d line %d \"%s\" letter %d change %d", k, i, old.c_str(), p, how); Model B; bool r = load(c, t, B);
    c.require(!r, "a file with \"%s\" in place of \"%s\" (line %d) loads successfully", v[i].c_str(), old.c_str(), i); c.state(mc::Hash().i(k).i(i).i(p).i(how).i(77));
}
// a complete file after a failed one, into new models: failures leave nothing behind
static void missing(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"), how = c.choose(6, "path"); c.shard_point(); const char* d = getenv("MC_SCRATCH"); std::string dir = mc::fmt("%s/d%d", d ? d : ".", (int)getpid()), p; Model B; Quiet q;
    mkdir(dir.c_str(), 0700);
    switch (how) { case 0: p = dir + "/nothing"; break; case 1: p = dir + "/no/such/dir/file"; break; case 2: p = dir; break; case 3: p = ""; break; case 4: p = dir + "/empty"; spit(p, ""); break; default: p = dir + "/text"; spit(p, "hello\nworld\n"); }
    bool r = B.loadModel(p); c.step(); c.note("loading from path kind %d", how);
    Model C; bool r2 = true; std::string why; if (how == 4 || how == 5) { spit(p, text(k)); r2 = C.loadModel(p); } if (how >= 4) unlink(p.c_str()); 
    // saving where no file can be created
    Model A; make(A, cases()[k], 0); bool w = false; if (how <= 3 && how > 0) w = A.saveModel(p); c.step(); rmdir(dir.c_str());
    c.require(!r, "loading from a file that %s reports success", how <= 3 ? "does not exist" : "is not a model"); c.require(r2, "a model file is not loaded"); c.require(!w, "saving to a place where no file can be created reports success"); c.state(mc::Hash().i(k).i(how));
}
// the device is full after every number of bytes
static void full(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); const std::string& t = text(k); int lim = c.choose((int)t.size() + 3, "bytes that fit"); c.shard_point();
    Model A; make(A, cases()[k], 0); std::string f = scratchFile("full"); Quiet q; unlink(f.c_str()); c.note("model %d, %d of %zu bytes fit", k, lim, t.size());
    signal(SIGXFSZ, SIG_IGN); rlimit old, lo; getrlimit(RLIMIT_FSIZE, &old); lo = old; lo.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &lo);
    bool r = false; try { r = A.saveModel(f); } catch (...) { setrlimit(RLIMIT_FSIZE, &old); throw; } setrlimit(RLIMIT_FSIZE, &old); c.step();
    std::string s = slurp(f); bool complete = s == t; unlink(f.c_str());
    c.require(r == complete, "saving %s although %zu of %zu bytes were written", r ? "reports success" : "reports failure", s.size(), t.size()); c.state(mc::Hash().i(k).i(lim));
}
static void devfull(Ctx& c) { int k = c.choose((int)cases().size(), "model"); c.shard_point(); Model A; make(A, cases()[k], 0); Quiet q; bool r = A.saveModel("/dev/full"); c.step(); c.require(!r, "saving to a full device reports success"); c.note("model %d to a full device", k); c.state(k); }
// memory runs out at every allocation of saving or loading
static void memory(Ctx& c) {
    int k = c.choose((int)cases().size(), "model"); bool loading = c.flip("loading"); const std::string& t = text(k); std::string f = scratchFile("mem"), why; Quiet q; Model A; make(A, cases()[k], 0);
    long n = mc::alloc::count([&] { if (loading) { spit(f, t); Model B; B.loadModel(f); } else A.saveModel(f); }); unlink(f.c_str());
    int i = c.choose((int)std::min(n, 4000L), "failing allocation"); c.shard_point(); bool all = c.flip("all later ones too"); bool r = false, lost = false; Model B; if (loading) spit(f, t); c.note("model %d, %s, allocation %d of %ld fails%s", k, loading ? "loading" : "saving", i, n, all ? " and all later ones" : "");
    { mc::alloc::Fail fail(i, all); try { r = loading ? B.loadModel(f) : A.saveModel(f); } catch (std::bad_alloc&) { lost = true; } } bool hit = mc::alloc::hit; std::string s = slurp(f); unlink(f.c_str()); c.step();
    if (loading) { c.require(!r || sameParams(A, B, 5.1e-7, why), "memory ran out while a model was loaded, and another one is reported as loaded: %s", why.c_str()); c.require(r || hit, "a model file is not loaded"); }
    else { c.require(!r || s == t, "memory ran out while a model was saved, and success is reported with %zu of %zu bytes", s.size(), t.size()); c.require(r || hit, "a model is not saved"); Model C; bool again = A.saveModel(f) && C.loadModel(f); unlink(f.c_str()); c.require(again && sameParams(A, C, 5.1e-7, why), "the model cannot be saved after memory ran out: %s", why.c_str()); }
    c.state(mc::Hash().i(k).i(loading).i(i).i(all).i(lost).i(91));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C14", {{"truncated", truncated}, {"torn", torn}, {"fields", fields}, {"letters", letters}, {"missing", missing}, {"full", full}, {"full device", devfull}, {"memory", memory}},
        "5 models of up to 13 layers with every kind of layer; every truncation point; the end of the file from every byte on replaced by NUL, blank or letter; 15 changes of every line; 5 changes of every letter of every name in the format; every allocation of saving and loading failing, alone or with all later ones; 6 kinds of bad paths; every number of bytes after which writing fails; a full device");
}

// C21: the training program trains on every training image and validates on every test image.
#include "threads.h"
#include "mnistfiles.h"
#include <fcntl.h>
#include <sys/stat.h>
#undef DATA_DIR
#define DATA_DIR "."                    // every worker runs in a directory of its own
#define main repo_main
#include "src/main.cpp"
#undef main
namespace sched = mc::sched;
static int processors = 2;
extern "C" int get_nprocs() { return processors; }
// own directory, used as the data directory
static void home() {
    static bool done = false; if (done) return; done = true;
    const char* d = getenv("MC_SCRATCH"); std::string p = mc::fmt("%s/w%d", d ? d : ".", (int)getpid()); mkdir(p.c_str(), 0700); if (chdir(p.c_str())) abort();
}
static const char *TI = "./MNIST Train Images.ubyte-img", *TL = "./MNIST Train Labels.ubyte-label", *VI = "./MNIST Test Images.ubyte-img", *VL = "./MNIST Test Labels.ubyte-label";
static std::vector<double> numbersAfter(const std::string& text, const char* key) { std::vector<double> v; size_t p = 0; while ((p = text.find(key, p)) != std::string::npos) { p += strlen(key); v.push_back(std::strtod(text.c_str() + p, nullptr)); } return v; }

// the data source of the program under every sequence of requests
static void source(Ctx& c) {
    home(); int n = c.range(1, 4, "images"); c.shard_point();
    static const int LAB[2][4] = {{7, 0, 3, 6}, {10, 137, 9, 255}}; int set = c.choose(2, "labels"); MnistFiles F(2, 3); for (int i = 0; i < n; i++) F.add(10 + i, LAB[set][i]); F.write(TI, TL);
    MNistGenerator G(TI, TL); int pos = 0, depth = c.thorough() ? 9 : 7;
    c.require(G.size() == (size_t)n, "the data source of %d images has size %zu", n, G.size());
    for (int d = 0; d < depth; d++) {
        c.require(G.hasAvailableData() == (pos < n), "data is %savailable after %d of %d images", G.hasAvailableData() ? "" : "not ", pos, n);
        int op = c.choose(3, "request"); c.step(); if (op == 0) break;
        if (op == 1) { G.reset(); pos = 0; c.note("reset"); }
        else if (pos < n) {
            c.note("next"); auto P = G.getNextDataPoint();
            c.require(P.data.dim().x == 2 && P.data.dim().y == 3 && P.data.dim().z == 1, "image %d has another shape", pos);
            for (int r = 0; r < 2; r++) for (int k = 0; k < 3; k++) c.require(std::fabs(P.data(r, k, 0) - (F.images[pos][r * 3 + k] - 128) / 255.0) < 1e-6, "image %d expected, pixel (%d,%d) is %g", pos, r, k, (double)P.data(r, k, 0));
            c.require(P.label == std::to_string(F.labels[pos]), "label of image %d is %s", pos, P.label.c_str()); pos++;
        } else c.discard();
        c.require(G.size() == (size_t)n, "size changed"); c.state(mc::Hash().i(n).i(set).i(pos).i(d));
    }
}
// validation with a model that predicts what the scenario says
struct Oracle {
    struct Hyperparameters { double learning_rate = 0; int batch_size = 1, num_threads = 1, num_epochs = 1; };
    std::vector<std::string> output_labels{"3", "1", "0", "2"}; std::vector<int> says; std::vector<int> seen; int calls = 0, strange = 0; std::vector<int> order; std::vector<std::shared_ptr<ModelLayer>> layers;
    int index(int label) const { static const int at[] = {2, 1, 3, 0}; return at[label]; }
    ModelResults<std::string> forwardPropagation(SimpleMatrix<float> in, size_t = 0) {
        ModelResults<std::string> r;
        { sched::Ignore i; int id = (int)std::lround(in[0] * 255.0 + 128); calls++; if (id < 0 || id >= (int)says.size()) { strange++; id = 0; } else seen[id]++; order.push_back(id); r.label_idx = index(says[id]); r.confidence = 0.5f; }
        sched::point("prediction"); return r;
    }
};
static void validation(Ctx& c, int n, int threads, int wrong, const sched::Options& o, const std::vector<int>& rnd) {
    home(); MnistFiles F(1, 2); Oracle M; Oracle::Hyperparameters h; h.num_threads = threads;
    for (int i = 0; i < n; i++) { int lab = (i * 3 + 1) % 4; F.add(i, lab); M.says.push_back((wrong >> i & 1) ? (lab + 1) % 4 : lab); M.seen.push_back(0); }
    F.write(VI, VL); c.note("%d test images, %d threads, wrong predictions %d", n, threads, wrong);
    std::string text; { Sink s; sched::seed(3); sched::rands(rnd); sched::run(c, o, [&] { validate(M, h); }); sched::seed(3); text = s.text; }
    c.require(!M.strange, "something is predicted that is not a test image");
    c.require(M.calls >= n, "only %d predictions for %d test images", M.calls, n);
    std::vector<int> first(n, 0); for (int i = 0; i < n; i++) first[M.order[i]]++;
    for (int i = 0; i < n; i++) c.require(first[i] == 1, "test image %d is predicted %d times during validation", i, first[i]);
    int right = 0; for (int i = 0; i < n; i++) right += !(wrong >> i & 1);
    auto acc = numbersAfter(text, "accuracy was "); c.require(acc.size() == 1, "%zu validation accuracies are reported", acc.size());
    c.require(std::fabs(acc[0] - 100.0 * right / n) <= 5e-5 * std::max(1.0, 100.0 * right / n), "the reported accuracy is %g%%, %d of %d predictions were right", acc[0], right, n);
    // the printed samples belong to one image each
    size_t p = 0; int k = n;
    while ((p = text.find("This image is a ", p)) != std::string::npos) { p += 16; size_t q = text.find(" (actual label ", p); c.require(q != std::string::npos && k < (int)M.order.size(), "sample %d is incomplete", k - n); int id = M.order[k++]; std::string said = text.substr(p, q - p); int act = atoi(text.c_str() + q + 15); c.require(said == std::to_string(M.says[id]) && act == F.labels[id], "sample %d: image %d is printed as %s with label %d, predicted %d with label %d", k - n, id, said.c_str(), act, M.says[id], F.labels[id]); }
    c.state(mc::Hash().i(n).i(threads).i(wrong).i((int64_t)sched::trace()));
}
static const std::vector<std::vector<int>>& draws() { static const std::vector<std::vector<int>> R = {{}, {0, RAND_MAX, RAND_MAX - 1, 1, RAND_MAX / 2}, {RAND_MAX, RAND_MAX, RAND_MAX, RAND_MAX, RAND_MAX}, {0, 0, 0, 0, 0}}; return R; }
static void validations(Ctx& c) {
    bool th = c.thorough(); int n = c.range(1, th ? 7 : 5, "images"), t = c.range(1, th ? 7 : 5, "threads"); c.shard_point(); int w = c.choose(1 << n, "wrong predictions"); int d = c.choose((int)draws().size(), "random numbers");
    if (d && w != 1) c.discard();
    sched::Options o; o.preemptions = 0; o.orders = t <= 3 ? 1 : 0; validation(c, n, t, w, o, draws()[d]);
}
static void validationLarge(Ctx& c) { static const std::vector<int> N{8, 9, 16, 17, 31, 64}; int n = c.pick(N, "images"); c.shard_point(); int t = c.range(1, 9, "threads"); sched::Options o; o.preemptions = 0; o.orders = 0; validation(c, n, t, 0x5a5, o, {}); }
static void validationSchedules(Ctx& c) {
    struct S { int n, t, w, pre, tpre, split; }; static const S C[] = {{2, 2, 1, 4, 6, 20}, {3, 2, 0, 3, 5, 30}, {3, 3, 2, 2, 3, 30}, {4, 3, 5, 2, 3, 40}, {2, 4, 0, 2, 3, 30}};
    int k = c.choose(5, "configuration"); sched::Options o; o.preemptions = c.thorough() ? C[k].tpre : C[k].pre; o.split = C[k].split; o.orders = C[k].t > 2 ? 2 : 99; validation(c, C[k].n, C[k].t, C[k].w, o, {});
}
// the whole program
static void program(Ctx& c) {
    home(); int tr = c.range(1, 3, "training images"), te = c.range(1, 3, "test images"); processors = c.range(0, 3, "processors"); int name = c.choose(4, "model name"); c.shard_point(); int form = name == 1 ? c.choose(8, "form of the name") : 0; if (form && te > 1) c.discard();
    static const char* FORM[] = {"trained", "a.b.c", "trained.model_data", "two words", "-o", "sub/trained", "trained", "12"}; int more = form == 6 ? 2 : 0;     // the last form: with arguments that follow
    MnistFiles F(28, 28), V(28, 28); for (int i = 0; i < tr; i++) F.add(20 + i, (i * 7 + 3) % 10); for (int i = 0; i < te; i++) V.add(70 + 9 * i, (i * 7 + 3) % 10, 5); F.write(TI, TL); V.write(VI, VL);
    c.note("%d training and %d test images, %d processors, %s", tr, te, processors, name == 0 ? "not saved" : name == 1 ? "saved" : name == 2 ? "saved into a directory that does not exist" : "saved to a full device");
    char a0[] = "main", a1[32], a2[] = "nodir/trained", a3[] = "full", a4[] = "other", a5[] = "--quiet"; strcpy(a1, FORM[form]); char* av[5] = {a0, name == 1 ? a1 : name == 2 ? a2 : a3, nullptr, nullptr, nullptr}; if (more) { av[2] = a4; av[3] = a5; } mkdir("./sub", 0700); const std::string saved = mc::fmt("./%s.model_data", FORM[form]); int r = -1; unlink("./full.model_data"); if (name == 3) c.require(symlink("/dev/full", "./full.model_data") == 0, "no symbolic link can be made"); unlink(saved.c_str());
    sched::Options o; o.preemptions = 0; o.orders = 0; std::string text; std::vector<Ten> dummy;
    { Sink s; sched::seed(5); sched::run(c, o, [&] { r = repo_main(name ? 2 + more : 1, av); }); text = s.text; }
    unlink("./full.model_data"); if (name >= 2) c.require(r != 0, "the program succeeds although the model could not be saved"); else c.require(r == 0, "the program ends with %d", r);
    auto ep = numbersAfter(text, ": Accuracy was "), va = numbersAfter(text, "Validation accuracy was ");
    c.require(!ep.empty(), "no epoch is reported"); for (double e : ep) { double k = e * tr / 100; c.require(e >= 0 && e <= 100.0001 && std::fabs(k - std::round(k)) < 1e-3, "an accuracy of %g%% is reported for %d images", e, tr); }
    c.require(va.size() == 1, "%zu validation accuracies are reported", va.size());
    struct stat st; c.require((stat(saved.c_str(), &st) == 0) == (name == 1), "the model is %ssaved", name == 1 ? "not " : "");
    if (name == 1) {
        Model L; bool ok; { Quiet q; ok = L.loadModel(saved); } c.require(ok, "the saved model cannot be loaded");
        int right = 0; double margin = 1;
        for (int i = 0; i < te; i++) { SimpleMatrix<float> in(dim3(28, 28, 1)); for (int a = 0; a < 28; a++) for (int b = 0; b < 28; b++) in(a, b, 0) = (float)((V.images[i][a * 28 + b] - 128) / 255.0);
            auto res = L.forwardPropagation(in); right += L.output_labels[res.label_idx] == std::to_string(V.labels[i]); std::vector<double> p; auto& q = res.layer_inputs.back(); for (size_t k = 0; k < 10; k++) p.push_back(q[k]); std::sort(p.rbegin(), p.rend()); margin = std::min(margin, p[0] - p[1]); }
        if (margin > 1e-4) c.require(std::fabs(va[0] - 100.0 * right / te) < 1e-3, "the reported validation accuracy is %g%%, the saved model classifies %d of %d images correctly", va[0], right, te);
        unlink(saved.c_str());
    }
    c.require(stat("./other.model_data", &st) != 0, "a model is saved under the name of a later argument"); c.step(sched::operations()); c.state(mc::Hash().i(tr).i(te).i(processors).i(name).i(form));
}
// every training image and every training label has an influence on the trained model
static std::string trained(Ctx& c, int n, int image, int label) {
    MnistFiles F(28, 28), V(28, 28); for (int i = 0; i < n; i++) { F.add(20 + i, (i * 7 + 3) % 10); if (i == image) for (auto& p : F.images[i]) p = 255 - p; if (i == label) F.labels[i] = (F.labels[i] + 1) % 10; }
    V.add(70, 3, 5); F.write(TI, TL); V.write(VI, VL); char a0[] = "main", a1[] = "trained"; char* av[3] = {a0, a1, nullptr}; int r = -1; unlink("./trained.model_data");
    sched::Options o; o.preemptions = 0; o.orders = 0; { Sink s; sched::seed(5); sched::run(c, o, [&] { r = repo_main(2, av); }); }
    c.require(r == 0, "the program ends with %d", r); c.step(sched::operations()); std::ifstream f("./trained.model_data", std::ios::binary); std::ostringstream t; t << f.rdbuf(); unlink("./trained.model_data"); return t.str();
}
static void influence(Ctx& c) {
    static const std::vector<int> N{1, 2, 3, 33}, NT{1, 2, 3, 4, 5, 31, 32, 33, 35, 65}; home(); int n = c.pick(c.thorough() ? NT : N, "training images"); processors = c.thorough() ? c.range(1, 4, "processors") : n % 3 + 1; int i = c.choose(n, "changed image"); if (!c.thorough() && n > 3 && i > 0 && i < n - 2) c.discard(); c.shard_point(); bool lab = c.flip("its label");
    static std::map<std::pair<int, int>, std::string> base; auto& b = base[{n, processors}]; if (b.empty()) b = trained(c, n, -1, -1); c.require(!b.empty(), "no model is saved");
    std::string t = lab ? trained(c, n, -1, i) : trained(c, n, i, -1); c.note("%d training images, %d processors, %s of image %d changed", n, processors, lab ? "label" : "pixels", i);
    c.require(t != b, "the %s of training image %d of %d %s no influence on the trained model", lab ? "label" : "pixels", i, n, lab ? "has" : "have"); c.state(mc::Hash().i(n).i(processors).i(i).i(lab));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C21", {{"source", source}, {"validations", validations}, {"validation, large", validationLarge}, {"validation schedules", validationSchedules}, {"program", program}, {"influence", influence}},
        "the program's data source over 1-4 images under all request sequences up to length 7 (thorough 9); validation of 1-5 (7) images with 1-5 (7) threads and every pattern of right and wrong predictions, extreme values of rand(), up to 64 images and 9 threads, and all schedules with 2-4 (3-6) preemptions for 5 configurations; the whole program on 1-3 training and test images, 0-3 processors, without saving, saving under 8 names (dots, blanks, a subdirectory, further arguments) and failing to save in two ways; every single training image or label of training sets of 1-3 images, of 33 images the first and the last two (thorough: every one of 10 sets of up to 65 images) changed");
}

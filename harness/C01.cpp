// C01: multi-threaded training equals single-threaded training.
#include "threads.h"
namespace sched = mc::sched;
struct Job { int net, threads, batch, samples, epochs; double rate; bool ready; };
static Source<float> source(Twin& T, int samples) {
    Source<float> s; for (int i = 0; i < samples; i++) { s.in.push_back(T.input(i, 1)); s.lab.push_back(T.names[(i * 2 + 1) % T.labels]); for (double& d : s.in.back().v) d = (float)d; }
    return s;
}
static Model::Hyperparameters hyper(const Job& j, int threads) { Model::Hyperparameters h; h.learning_rate = j.rate; h.batch_size = j.batch; h.num_threads = threads; h.num_epochs = j.epochs; return h; }
// the layers' parameters as the code under test stores them
static std::vector<Ten> params(Model& M) { std::vector<Ten> p; for (auto& l : M.layers) { p.push_back(fromM(l->weights)); p.push_back(fromM(l->biases)); } return p; }
struct Outcome { std::vector<Ten> p; int correct = 0; std::vector<double> acc; int resets = 0, fetched = 0; };
static void prepare(Twin& T, const Job& j) {
    sched::seed(7);
    if (j.ready) { Model* M = &T.M; SimpleMatrix<float> in = toM<float>(T.input(50)); M->forwardPropagation(in); T.push(); }
}
static Outcome perform(Twin& T, Source<float>& S, const Job& j, int threads, bool whole) {
    Outcome o; Sink sink;
    if (whole) T.M.train(S, hyper(j, threads));
    else { for (auto& l : T.M.layers) l->setBatchSize(j.batch); for (int e = 0; e < j.epochs; e++) { o.correct += T.M.runEpoch(S, hyper(j, threads)); S.reset(); } }
    o.acc = accuracies(sink.text); o.p = params(T.M); o.resets = S.resets; o.fetched = S.fetched;
    return o;
}
static void check(Ctx& c, const Job& j, bool whole, const sched::Options& opt) {
    const NetSpec& n = j.net < 100 ? nets()[j.net] : bigNets()[j.net - 100];
    Twin T(n.items, n.x, n.y, n.z, n.labels); Source<float> S = source(T, j.samples);
    c.note("%s, %d threads, batch %d, %d samples, %d epochs%s", T.desc.c_str(), j.threads, j.batch, j.samples, j.epochs, j.ready ? "" : ", first use");
    // the same training on one thread, of the code under test
    Outcome single; { Twin U(n.items, n.x, n.y, n.z, n.labels); sched::seed(7); for (size_t i = 0; i < T.M.layers.size(); i++) { U.M.layers[i]->weights = T.M.layers[i]->weights; U.M.layers[i]->biases = T.M.layers[i]->biases; } prepare(U, j); Source<float> Q = source(U, j.samples); single = perform(U, Q, j, 1, whole); }
    prepare(T, j);
    Outcome o;
    sched::run(c, opt, [&] { o = perform(T, S, j, j.threads, whole); });
    c.require(o.fetched == j.samples * j.epochs, "%d data points were used in %d epochs of %d", o.fetched, j.epochs, j.samples);
    auto same = [&](const std::vector<Ten>& a, const std::vector<Ten>& b, const char* what) {
        for (size_t i = 0; i < a.size(); i++) { c.require(a[i].same(b[i]), "%s: layer %zu has parameters of shape %s, %s expected", what, i / 2, a[i].dims().c_str(), b[i].dims().c_str());
            for (size_t k = 0; k < a[i].v.size(); k++) c.require(std::fabs(a[i].v[k] - b[i].v[k]) <= 1e-9 * std::max(1.0, std::fabs(b[i].v[k])), "%s: %s %zu of layer %zu is %.12g, %.12g expected (%d threads)", what, i % 2 ? "bias" : "weight", k, i / 2, a[i].v[k], b[i].v[k], j.threads); } };
    same(o.p, single.p, "compared with one thread");
    if (!whole) c.require(o.correct == single.correct, "%d correct classifications are reported with %d threads, %d with one", o.correct, j.threads, single.correct);
    else c.require(o.acc == single.acc, "another accuracy is reported with %d threads than with one", j.threads);
    if (j.ready) {
        // the reference network, batch by batch
        int correct = 0; std::vector<int> ec(j.epochs, 0);
        for (int e = 0; e < j.epochs; e++) for (int b = 0; b < j.samples; b += j.batch) {
            std::vector<Ten> gw; std::vector<std::vector<double>> gb; int m = std::min(j.batch, j.samples - b);
            for (int i = b; i < b + m; i++) { int lab = (i * 2 + 1) % T.labels; T.accumulate(S.in[i], lab, gw, gb); auto& q = T.N.out.v; bool ok = (std::max_element(q.begin(), q.end()) - q.begin()) == lab; correct += ok; ec[e] += ok; }
            T.apply(gw, gb, j.rate / m);
        }
        T.compare(c, 2e-5, "compared with the reference");
        if (!whole) c.require(o.correct == correct, "%d correct classifications are reported, %d expected", o.correct, correct);
        else for (size_t e = 0; e < o.acc.size() && o.acc.size() == ec.size(); e++) c.require(std::fabs(o.acc[e] - 100.0 * ec[e] / j.samples) < 0.01, "epoch %zu reports an accuracy of %g%%, %d of %d were right", e, o.acc[e], ec[e], j.samples);
    }
    mc::Hash h; h.i(j.net).i(j.threads).i(j.batch).i(j.samples).i(j.ready).i((int64_t)sched::trace()); c.state(h);
}
// all schedules within the preemption bound
static void schedules(Ctx& c) {
    bool th = c.thorough();
    struct Cfg { int net, threads, batch, samples, epochs; bool ready; int pre, tpre, split, orders; };
    static const Cfg C[] = {
        {1, 2, 2, 2, 1, false, 4, 6, 24, 99}, {1, 2, 2, 3, 1, false, 3, 4, 40, 99}, {2, 2, 2, 2, 1, false, 4, 5, 30, 99}, {1, 2, 3, 4, 1, true, 2, 3, 50, 99},
        {1, 3, 3, 3, 1, false, 2, 3, 40, 99}, {3, 3, 4, 5, 1, true, 1, 2, 60, 3}, {0, 3, 3, 3, 1, false, 2, 3, 30, 99}, {0, 4, 4, 4, 1, false, 1, 2, 30, 99},
        {0, 2, 2, 4, 2, false, 1, 3, 40, 99}, {0, 4, 2, 3, 1, true, 1, 2, 30, 1}, {2, 3, 5, 3, 1, false, 2, 3, 50, 99}};
    int k = c.choose((int)(sizeof C / sizeof *C), "configuration"); const Cfg& q = C[k];
    Job j{q.net, q.threads, q.batch, q.samples, q.epochs, 0.4, q.ready};
    sched::Options o; o.preemptions = th ? q.tpre : q.pre; o.split = q.split; o.orders = q.orders + (th ? 1 : 0);
    check(c, j, true, o);
}
// all splits, without preemptions (every order in which threads can be started and finish)
static void splits(Ctx& c) {
    bool th = c.thorough(); int net = c.choose(3, "network"), t = c.range(1, th ? 4 : 3, "threads"), b = c.range(1, 5, "batch"); c.shard_point();
    int n = c.range(1, th ? 7 : 6, "samples"), e = c.range(1, 2, "epochs"); bool ready = c.flip("parameters known"), whole = c.flip("train"); 
    if (e == 2 && (t > 2 || n > 4)) c.discard();
    Job j{net, t, b, n, e, 0.3, ready};
    sched::Options o; o.preemptions = 0; o.orders = th ? 3 : 1; check(c, j, whole, o);
}
// image-sized batches and many threads, on the default schedule
static void large(Ctx& c) {
    static const std::vector<int> B{8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300};
    static const std::vector<int> TH{1, 2, 3, 4, 5, 7, 8, 9, 12, 15}; bool th = c.thorough();
    int b = c.pick(B, "batch"), t = c.pick(TH, "threads"), net = c.choose(th ? 4 : 2, "network"); c.shard_point(); static const double F[] = {0.6, 1, 1.4, 2.1};
    int n = std::max(1, (int)(b * F[c.choose(th ? 4 : 3, "samples")])); bool ready = c.flip("parameters known"), whole = c.flip("train");
    if (!th && ready != whole) c.discard();
    Job j{net, t, b, n, b < 40 ? 2 : 1, 0.3, ready}; sched::Options o; o.preemptions = 0; o.orders = 0; check(c, j, whole, o);
}
static void images(Ctx& c) {
    bool th = c.thorough(); int net = c.choose(3, "network"), t = c.range(2, th ? 4 : 3, "threads"), b = c.range(t, th ? 6 : t + 1, "batch"); c.shard_point(); int n = c.range(b, b + (th ? 2 : 1), "samples"); bool ready = c.flip("parameters known");
    Job j{100 + net, t, b, n, 1, 0.1, ready}; sched::Options o; o.preemptions = 0; o.orders = th ? 1 : 0; check(c, j, true, o);
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C01", {{"schedules", schedules}, {"splits", splits}, {"large", large}, {"images", images}},
        "all schedules of 2-4 worker threads with up to 4 preemptions (1-2 for the larger of 11 configurations; thorough 2-6) at every lock, join and atomic operation, over 4 networks, first use or known parameters; all network/thread (up to 3, thorough 4)/batch (1-5)/sample (1-6, thorough 7) splits without preemption and up to 1 (3) deviations from the default thread order; 19 batch sizes from 8 to 300 with 0.6-1.4 (2.1) batches of data and 1-15 threads on one schedule; 3 networks on inputs of up to 28x28 and 24x33x3 with 2-3 (4) threads; race detection on every execution");
}

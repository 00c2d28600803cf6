// C03: every epoch uses every data point once, for any batch and thread split.
#include "threads.h"
#include <climits>
#include "cnn_from_scratch/Layers/Softmax.h"
namespace sched = mc::sched;
// What happened, in order. Written by whichever thread runs; the scheduler runs one at a time.
enum Kind { SETBATCH, FETCH, FETCHED, FORWARD, BACKWARD, APPLY, RESET };
static const char* KN[] = {"setBatchSize", "fetch", "fetched", "forward", "backward", "applyBatch", "reset"};
struct Event { int kind, layer, slot, point, thread; double rate; };
enum { MAXE = 16384 };
static Event log_[MAXE]; static int events;
static void record(int kind, int layer, int slot, int point, double rate = 0) { sched::Ignore i; if (events < MAXE) log_[events++] = Event{kind, layer, slot, point, sched::self(), rate}; }
// the data point and the place at which an exception is raised
enum Place { NOWHERE, IN_FETCH, IN_FORWARD, IN_BACKWARD, NO_SUCH_LABEL };
static const char* PN[] = {"nowhere", "the data source", "a forward pass", "a backward pass", "its label, which does not exist"};
static int failPoint = -1, failPlace = NOWHERE;
struct Broken : std::runtime_error { int point; Broken(int p) : std::runtime_error("broken"), point(p) {} };
static void mayFail(int place, int point) { bool f; { sched::Ignore i; f = place == failPlace && point == failPoint; } if (f) throw Broken(point); }
// passes values on unchanged, the first value of which is the number of the data point
class Probe : public ModelLayer {
public:
    int id; Probe(int id) : id(id) { name = "Probe"; }
    ModelFlowMode getType() const override { return ACTIVATION; }
    void setBatchSize(size_t n) override { record(SETBATCH, id, (int)n, 0); }
    void applyBatch(double r) override { record(APPLY, id, 0, 0, r); }
    SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& in, size_t slot) override { record(FORWARD, id, (int)slot, (int)in[0]); sched::point("forward"); mayFail(IN_FORWARD, (int)in[0]); SimpleMatrix<double> out = in; return out; }
    SimpleMatrix<double> propagateBackward(const SimpleMatrix<double>& in, const SimpleMatrix<double>& out, const SimpleMatrix<double>& g, size_t slot, bool) override { record(BACKWARD, id, (int)slot, (int)in[0]); sched::point("backward"); mayFail(IN_BACKWARD, (int)in[0]); (void)out; SimpleMatrix<double> r = g; return r; }
    std::string serialize() const override { return ""; }
    bool deserialize(std::istream&) override { return true; }
};
struct Data : DataGenerator<float> {
    int n; int pos = 0, inside = 0, overlaps = 0, beyond = 0, badreset = 0, busy = 0; bool yields;
    Data(int n, bool y) : n(n), yields(y) {}
    bool hasAvailableData() override { sched::Ignore i; if (inside) overlaps++; return pos < n; }
    size_t size() override { return n; }
    LabeledInput<float> getNextDataPoint() override {
        int p; { sched::Ignore i; if (inside++) overlaps++; p = pos; record(FETCH, 0, 0, p); }
        if (yields) sched::point("in the data source");
        if (failPlace == IN_FETCH && failPoint == p) { { sched::Ignore i; inside--; } mayFail(IN_FETCH, p); }
        LabeledInput<float> d; d.data = SimpleMatrix<float>(dim3(3, 1, 1)); d.data[0] = (float)p; d.label = failPlace == NO_SUCH_LABEL && failPoint == p ? "none" : p % 2 ? "odd" : "even"; if (p % 3 == 0) d.data[1] = 1;
        { sched::Ignore i; if (p >= n) beyond++; pos = p + 1; record(FETCHED, 0, 0, p); inside--; }
        return d;
    }
    void reset() override { sched::Ignore i; if (inside) badreset++; pos = 0; record(RESET, 0, 0, 0); }
};
struct Cfg { int n, batch, threads, epochs, layers; };
static void check(Ctx& c, const Cfg& q, const sched::Options& o, bool whole, bool yields) {
    typedef ModelDescription<float, std::string> Model; Model M;
    for (int i = 0; i < q.layers; i++) M.layers.push_back(std::make_shared<Probe>(i));
    M.setOutputLabels({"even", "odd", "third"});
    Data D(q.n, yields); const double rate = 0.125; events = 0;
    Model::Hyperparameters h; h.learning_rate = rate; h.batch_size = q.batch; h.num_threads = q.threads; h.num_epochs = q.epochs;
    c.note("%d data points, batch %d, %d threads, %d epochs, %d layers%s", q.n, q.batch, q.threads, q.epochs, q.layers, whole ? "" : ", runEpoch");
    std::vector<double> acc; int success = 0;
    { Sink s; sched::run(c, o, [&] { if (whole) M.train(D, h); else { for (auto& l : M.layers) l->setBatchSize(q.batch); for (int e = 0; e < q.epochs; e++) { success += M.runEpoch(D, h); D.reset(); } } }); acc = accuracies(s.text); }
    c.require(events < MAXE, "too many operations");
    c.require(!D.overlaps, "the data source is used by two workers at a time"); c.require(!D.badreset, "the data source is rewound while it is in use");
    c.require(!D.beyond, "a data point is requested after the last one");
    // walk through the log
    int i = 0;
    std::vector<int> set(q.layers, 0);
    while (i < events && log_[i].kind == SETBATCH) { c.require(log_[i].slot == q.batch, "layer %d is set to batch size %d, not %d", log_[i].layer, log_[i].slot, q.batch); set[log_[i].layer]++; i++; }
    if (q.epochs) for (int l = 0; l < q.layers; l++) c.require(set[l] >= 1, "layer %d does not learn the batch size", l);
    for (int e = 0; e < q.epochs; e++) {
        for (int b = 0; b < q.n; b += q.batch) {
            int m = std::min(q.batch, q.n - b); std::vector<int> fetched(q.n, 0), slotUsed(q.batch, 0), stage(q.n, 0), slotOf(q.n, -1); int applied = 0, nf = 0;
            for (; i < events && applied < q.layers; i++) {
                Event& v = log_[i]; const char* k = KN[v.kind];
                c.require(v.kind != RESET, "epoch %d: the data source is rewound before batch %d is applied", e, b / q.batch);
                c.require(v.kind != SETBATCH, "epoch %d: the batch size is set while batch %d is processed", e, b / q.batch);
                if (v.kind == FETCHED) continue;
                if (v.kind == APPLY) {
                    if (!applied) {
                        c.require(nf == m, "epoch %d, batch %d is applied after %d of its %d data points were fetched", e, b / q.batch, nf, m);
                        for (int p = b; p < b + m; p++) c.require(stage[p] == 2 * q.layers, "epoch %d, batch %d is applied before data point %d was processed", e, b / q.batch, p);
                    }
                    c.require(v.layer >= 0 && v.layer < q.layers && std::fabs(v.rate - rate) < 1e-12, "applied with learning rate %g", v.rate);
                    for (int x = i - applied; x < i; x++) c.require(log_[x].layer != v.layer, "layer %d is updated twice with batch %d", v.layer, b / q.batch);
                    applied++; continue;
                }
                c.require(!applied, "epoch %d: %s of data point %d while batch %d is applied", e, k, v.point, b / q.batch);
                c.require(v.point >= b && v.point < b + m, "epoch %d, batch %d: %s of data point %d, which does not belong to it", e, b / q.batch, k, v.point);
                if (v.kind == FETCH) { c.require(!fetched[v.point]++, "data point %d is fetched again", v.point); nf++; continue; }
                c.require(v.slot >= 0 && v.slot < q.batch, "data point %d is processed in slot %d of a batch of %d", v.point, v.slot, q.batch);
                c.require(fetched[v.point] == 1, "data point %d is processed without having been fetched", v.point);
                if (slotOf[v.point] < 0) { c.require(!slotUsed[v.slot]++, "epoch %d, batch %d: two data points are processed in slot %d", e, b / q.batch, v.slot); slotOf[v.point] = v.slot; }
                c.require(slotOf[v.point] == v.slot, "data point %d is processed in slots %d and %d", v.point, slotOf[v.point], v.slot);
                int s = stage[v.point]++;
                c.require(s < q.layers ? v.kind == FORWARD && v.layer == s : s < 2 * q.layers && v.kind == BACKWARD && v.layer == 2 * q.layers - 1 - s, "data point %d: %s through layer %d is step %d", v.point, k, v.layer, s);
            }
            c.require(applied == q.layers, "epoch %d: batch %d of %d points is never applied (%d data points were used)", e, b / q.batch, q.n, nf + b);
        }
        c.require(i < events && log_[i].kind == RESET, "epoch %d does not end with rewinding the data source%s%s", e, i < events ? " but with " : "", i < events ? KN[log_[i].kind] : "");
        i++;
    }
    c.require(i == events, "after the last epoch: %s", i < events ? KN[log_[i].kind] : "");
    if (whole && q.n) c.require((int)acc.size() == q.epochs, "%zu epochs are reported instead of %d", acc.size(), q.epochs);
    c.step(events);
    c.state(mc::Hash().i(q.n).i(q.batch).i(q.threads).i(q.epochs).i(q.layers).i(whole).i((int64_t)sched::trace()));
}
// every split, threads started and finishing in the default order or with deviations from it
static void splits(Ctx& c) {
    bool th = c.thorough(); Cfg q; q.layers = 1;
    q.n = c.range(0, th ? 12 : 9, "data points"); q.batch = c.range(1, th ? 10 : 8, "batch"); c.shard_point();
    q.threads = c.range(1, th ? 7 : 6, "threads"); q.epochs = c.range(0, 2, "epochs"); bool whole = c.flip("train");
    if (q.epochs == 2 && q.threads > 4 && !th) c.discard();
    sched::Options o; o.preemptions = 0; o.orders = q.threads > 3 && !th ? 0 : 1; if (q.epochs == 2) o.orders = th && q.threads < 4 ? 1 : 0;
    check(c, q, o, whole, false);
}
// several layers
static void depth(Ctx& c) {
    Cfg q; q.layers = c.range(2, 4, "layers"); q.n = c.range(1, 4, "data points"); c.shard_point(); q.batch = c.range(1, 4, "batch"); q.threads = c.range(1, 3, "threads"); q.epochs = c.range(1, 2, "epochs");
    sched::Options o; o.preemptions = 0; o.orders = 0; check(c, q, o, true, false);
}
// preemptions at every synchronisation operation, in the data source and in the layers
static void schedules(Ctx& c) {
    struct S { Cfg q; int pre, tpre, split; };
    static const S C[] = {{{2, 2, 2, 1, 1}, 4, 8, 20}, {{3, 2, 2, 1, 1}, 3, 5, 30}, {{3, 4, 2, 2, 1}, 2, 3, 50}, {{3, 3, 3, 1, 1}, 2, 4, 30}, {{4, 5, 3, 1, 1}, 2, 3, 40}, {{1, 2, 2, 2, 1}, 3, 5, 30}, {{1, 4, 4, 1, 1}, 2, 3, 30}, {{5, 4, 2, 1, 2}, 2, 3, 60}, {{4, 4, 4, 1, 1}, 1, 2, 40}};
    int k = c.choose((int)(sizeof C / sizeof *C), "configuration");
    sched::Options o; o.preemptions = c.thorough() ? C[k].tpre : C[k].pre; o.split = C[k].split; o.orders = C[k].q.threads > 2 ? 3 : 99;
    check(c, C[k].q, o, true, true);
}
// large data sets and batches, one schedule each
static void large(Ctx& c) {
    static const std::vector<int> N = {16, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 300, 520}; static const std::vector<int> B = {7, 8, 16, 31, 32, 33, 64, 128, 255, 256, 257, 300};
    Cfg q; q.layers = 1; q.epochs = 1; q.n = c.pick(N, "data points"); q.batch = c.pick(B, "batch"); c.shard_point(); q.threads = c.range(1, 9, "threads");
    sched::Options o; o.preemptions = 0; o.orders = 0; check(c, q, o, true, false);
}
// many epochs
static void epochs(Ctx& c) {
    static const std::vector<int> E = {3, 10, 100, 127, 128, 129, 255, 256, 257, 300, 1000}; Cfg q; q.layers = 1; q.n = c.range(1, 2, "data points"); q.batch = c.range(1, 2, "batch"); q.epochs = c.pick(E, "epochs"); c.shard_point(); q.threads = c.range(1, 2, "threads");
    sched::Options o; o.preemptions = 0; o.orders = 0; check(c, q, o, true, false);
}
// a data point that cannot be used: the exception reaches the caller when all workers have stopped, the batch is not applied, and the model can be trained afterwards
static void failures(Ctx& c, const Cfg& q, const sched::Options& o, bool yields) {
    typedef ModelDescription<float, std::string> Model; Model M; for (int i = 0; i < q.layers; i++) M.layers.push_back(std::make_shared<Probe>(i)); M.setOutputLabels({"even", "odd", "third"});
    failPoint = -1; failPlace = NOWHERE; Data D(q.n, yields); Model::Hyperparameters h; h.learning_rate = 0.5; h.batch_size = q.batch; h.num_threads = q.threads; h.num_epochs = q.epochs; events = 0;
    int place = c.range(IN_FETCH, NO_SUCH_LABEL, "place"), point = c.range(0, q.n - 1, "data point"); failPlace = place; failPoint = point; c.note("%d data points, batch %d, %d threads: data point %d fails in %s", q.n, q.batch, q.threads, point, PN[place]);
    int caught = 0, at = -1, after = -1; std::string text;
    { Sink s; sched::run(c, o, [&] { try { M.train(D, h); } catch (const Broken& b) { caught = 1; at = b.point; } catch (const std::out_of_range&) { caught = 2; } catch (...) { caught = 3; } after = events; }); text = s.text; }
    failPlace = NOWHERE; failPoint = -1;
    c.require(caught != 0, "training with a data point that fails in %s returns normally", PN[place]); c.require(caught == (place == NO_SUCH_LABEL ? 2 : 1) && (caught != 1 || at == point), "training with a data point that fails in %s raises another exception", PN[place]);
    c.require(after == events && !D.inside && !D.overlaps, "workers go on after the exception was reported"); int b = point / q.batch, applied = 0; 
    for (int i = 0; i < events; i++) { applied += log_[i].kind == APPLY; c.require(log_[i].kind != RESET, "the data source is rewound in the middle of an epoch"); c.require(log_[i].kind == SETBATCH || log_[i].kind == APPLY || log_[i].point < (b + 1) * q.batch, "data point %d of a later batch is used", log_[i].point); }
    c.require(applied == b * q.layers, "%d batches are applied before the one that fails, %d expected", applied / q.layers, b);
    c.require(text.find("Epoch") == std::string::npos, "the epoch that failed is reported as finished"); c.step(events); mc::Hash hh; hh.i(q.n).i(q.batch).i(q.threads).i(place).i(point).i(q.layers).i((int64_t)sched::trace()); c.state(hh);
}
static void failing(Ctx& c) {
    Cfg q; q.layers = 1; q.epochs = 1; q.n = c.range(1, c.thorough() ? 6 : 5, "data points"); q.batch = c.range(1, 4, "batch"); c.shard_point(); q.threads = c.range(1, c.thorough() ? 5 : 4, "threads"); sched::Options o; o.preemptions = 0; o.orders = 1; failures(c, q, o, false);
    Cfg g = q; g.epochs = 1; sched::Options p; p.preemptions = 0; p.orders = 0; if (q.threads == 2) check(c, g, p, true, false);
}
static void failingSchedules(Ctx& c) {
    static const Cfg C[] = {{2, 2, 2, 1, 1}, {3, 3, 3, 1, 1}, {3, 2, 2, 1, 2}}; int k = c.choose(3, "configuration"); c.shard_point(); sched::Options o; o.preemptions = (k == 0 ? 3 : 1) + c.thorough(); o.split = 20; o.orders = k == 1 ? 3 : 99; failures(c, C[k], o, true);
}
// a thread that cannot be started: either the others do its work, or the exception reaches the caller when they have stopped
static void noThread(Ctx& c, const Cfg& q, const sched::Options& o, bool yields) {
    typedef ModelDescription<float, std::string> Model; Model M; for (int i = 0; i < q.layers; i++) M.layers.push_back(std::make_shared<Probe>(i)); M.setOutputLabels({"even", "odd", "third"});
    failPoint = -1; failPlace = NOWHERE; Data D(q.n, yields); Model::Hyperparameters h; h.learning_rate = 0.5; h.batch_size = q.batch; h.num_threads = q.threads; h.num_epochs = q.epochs; events = 0;
    int batches = (q.n + q.batch - 1) / q.batch, which = c.choose(q.threads * batches, "thread"), many = c.flip("all later ones too") ? 1 << 20 : 1; c.note("%d data points, batch %d, %d threads: thread %d%s cannot be started", q.n, q.batch, q.threads, which, many > 1 ? " and all later ones" : "");
    bool caught = false; int after = -1, refused = 0; std::string text;
    struct Restore { ~Restore() { sched::refuse(-1); } } restore; { Sink s; sched::refuse(which, many); sched::run(c, o, [&] { try { M.train(D, h); } catch (const std::exception&) { caught = true; } after = events; }); refused = sched::refused(); sched::refuse(-1); text = s.text; }
    c.require(after == events && !D.inside && !D.overlaps, "workers go on after the training has returned"); int applied = 0, resets = 0; for (int i = 0; i < events; i++) { applied += log_[i].kind == APPLY; resets += log_[i].kind == RESET; }
    if (!caught) { c.require(applied == batches * q.layers && resets == 1, "training returns normally after %d of %d batches", applied / q.layers, batches); }
    else { int b = which / q.threads; c.require(refused > 0, "training fails although all threads could be started"); c.require(applied == b * q.layers, "%d batches are applied before the one that lacks a thread, %d expected", applied / q.layers, b); c.require(!resets, "the data source is rewound in the middle of an epoch"); c.require(text.find("Epoch") == std::string::npos, "the epoch that failed is reported as finished");
        for (int i = 0; i < events; i++) c.require(log_[i].kind == SETBATCH || log_[i].kind == APPLY || log_[i].point < (b + 1) * q.batch, "data point %d of a later batch is used", log_[i].point); }
    c.step(events); mc::Hash hh; hh.i(q.n).i(q.batch).i(q.threads).i(which).i(many).i((int64_t)sched::trace()); c.state(hh);
}
static void noThreads(Ctx& c) {
    Cfg q; q.layers = 1; q.epochs = 1; q.n = c.range(1, c.thorough() ? 6 : 5, "data points"); q.batch = c.range(1, 4, "batch"); c.shard_point(); q.threads = c.range(1, c.thorough() ? 5 : 4, "threads"); sched::Options o; o.preemptions = 0; o.orders = 1; noThread(c, q, o, false);
    sched::Options p; p.preemptions = 0; p.orders = 0; if (q.threads == 2) check(c, q, p, true, false);
}
static void noThreadSchedules(Ctx& c) {
    static const Cfg C[] = {{2, 2, 2, 1, 1}, {3, 3, 3, 1, 1}}; int k = c.choose(2, "configuration"); c.shard_point(); sched::Options o; o.preemptions = (k == 0 ? 3 : 1) + c.thorough(); o.split = 20; o.orders = k == 1 ? 3 : 99; noThread(c, C[k], o, true);
}
// numbers below one: nothing can be done, which is reported before anything is used
static void senseless(Ctx& c) {
    static const int V[] = {1, 2, 0, -1, -7, INT_MIN}; int batch = c.pick(std::vector<int>(V, V + 6), "batch"), threads = c.pick(std::vector<int>(V, V + 6), "threads"); c.shard_point(); bool whole = c.flip("train"); int n = c.range(0, 3, "data points"); bool ok = batch > 0 && threads > 0;
    typedef ModelDescription<float, std::string> Model; Model M; M.layers.push_back(std::make_shared<Probe>(0)); M.setOutputLabels({"even", "odd", "third"}); Data D(n, false); Model::Hyperparameters h; h.batch_size = batch; h.num_threads = threads; h.num_epochs = 1; events = 0; bool t = false;
    c.note("%d data points, batch %d, %d threads", n, batch, threads); sched::Options o; o.preemptions = 0; o.orders = 0;
    { Sink s; sched::run(c, o, [&] { try { if (whole) M.train(D, h); else { if (ok) M.layers[1]->setBatchSize(batch); M.runEpoch(D, h); } } catch (const std::exception&) { t = true; } }); }
    c.require(t == !ok, "%d threads and batches of %d are %s", threads, batch, ok ? "rejected" : "not rejected"); if (!ok) for (int i = 0; i < events; i++) c.require(log_[i].kind == SETBATCH, "%s with %d threads and batches of %d", KN[log_[i].kind], threads, batch);
    c.step(); c.state(mc::Hash().i(batch).i(threads).i(whole).i(n));
}
// more points than a float can count
struct Many : DataGenerator<float> { Ctx* c; size_t n, pos = 0, resets = 0; LabeledInput<float> p; Many(Ctx& c, size_t n) : c(&c), n(n) { p.data = SimpleMatrix<float>(dim3(1, 1, 1)); p.label = "a"; } bool hasAvailableData() override { return pos < n; } size_t size() override { return n; } LabeledInput<float> getNextDataPoint() override { if (!(++pos & 0xfffff)) c->step(); return p; } void reset() override { resets++; } };
struct Count : ModelLayer { size_t applied = 0, rates = 0; double rate = 0; /* of the last application */ ModelFlowMode getType() const override { return ACTIVATION; } void applyBatch(double r) override { applied++; if (r != rate) { rate = r; rates++; } } SimpleMatrix<double> propagateForward(SimpleMatrix<double>&& in, size_t) override { return std::move(in); } SimpleMatrix<double> propagateBackward(const SimpleMatrix<double>&, const SimpleMatrix<double>&, const SimpleMatrix<double>& g, size_t, bool) override { return g; } std::string serialize() const override { return ""; } bool deserialize(std::istream&) override { return true; } };
static void many(Ctx& c) {
    int k = c.choose(6, "data points"); c.shard_point(); if (!c.thorough() && k < 4) c.discard(); static const size_t N[] = {(1u << 24) + 1, (1u << 24) + 3, (1u << 24) + 32769, (1u << 25) + 1, (1u << 24) + 1, 65536 + 3}; size_t n = N[k]; int batch = k == 5 ? 1 : k == 4 ? (int)n : 32768; if (k == 4) c.memory(12);
    typedef ModelDescription<float, std::string> Model; Model M; auto L = std::make_shared<Count>(); M.layers.push_back(L); M.setOutputLabels({"a"}); Many D(c, n); Model::Hyperparameters h; h.batch_size = batch; h.num_threads = 1; h.learning_rate = 0.375; for (auto& l : M.layers) l->setBatchSize(batch); int r; { Sink q; r = M.runEpoch(D, h); }
    c.note("%zu data points in batches of %d", n, batch); c.require(D.pos == n, "%zu of %zu data points were used", D.pos, n); c.require(L->applied == (n + batch - 1) / batch, "%zu batches were applied, %zu expected", L->applied, (n + batch - 1) / batch); c.require(L->rates == 1, "the learning rate is changed %zu times in an epoch of %zu batches", L->rates - 1, L->applied); c.require(r == (int)n, "%d of %zu classified correctly", r, n); c.step(); c.state(mc::Hash().i(n));
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C03", {{"many", many}, {"splits", splits}, {"depth", depth}, {"schedules", schedules}, {"large", large}, {"epochs", epochs}, {"failing", failing}, {"failing schedules", failingSchedules}, {"missing threads", noThreads}, {"missing thread schedules", noThreadSchedules}, {"senseless", senseless}},
        "all data set sizes 0-9 (thorough 12), batch sizes 1-8 (10), thread counts 1-6 (7) and 0-2 epochs through train() and runEpoch(), with up to 1 deviation from the default thread order; up to 520 points, batches to 300, 9 threads and 1000 epochs on one schedule; 2-4 layers; all schedules with 1-4 (2-8) preemptions for 9 configurations of 2-4 threads, also inside the data source and the layers; 1-5 (6) points of which one fails in one of 4 places, 1-4 (5) threads, or of whose threads one or all from one on cannot be started; batch sizes and thread counts below one; a batch of 2^24+1 points, 65539 batches; thorough: data sets of more than 2^24 points; the order of all operations on layers and data source is checked");
}

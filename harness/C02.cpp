// C02: concurrent predictions on one model are independent and safe.
#include "threads.h"
#include <unistd.h>
namespace sched = mc::sched;
typedef ModelResults<std::string> Res;
enum State { FRESH, KNOWN, LOADED, TRAINED, NSTATES };
static const char* SN[NSTATES] = {"first use", "parameters set", "loaded", "trained"};
static std::string file() { const char* d = getenv("MC_SCRATCH"); return mc::fmt("%s/model.%d", d ? d : ".", (int)getpid()); }
// bring a model into the state; identical for every model made from the same specification
static void bring(Twin& T, int st, Model& M) {
    SimpleMatrix<float> in = toM<float>(T.input(50));
    if (st == KNOWN) { M.forwardPropagation(in); T.push(); }
    if (st == LOADED) { std::string f = file(); T.M.forwardPropagation(in); T.push(); T.M.saveModel(f); M.loadModel(f); unlink(f.c_str()); }
    if (st == TRAINED) { Sink s; Source<float> S; for (int i = 0; i < 2; i++) { S.in.push_back(T.input(i)); S.lab.push_back(T.names[i % T.labels]); } M.forwardPropagation(in); T.push(); Model::Hyperparameters h; h.learning_rate = 0.2; h.batch_size = 2; M.train(S, h); }
}
struct Call { int salt; int slot; };
static bool same(const Res& a, const Res& b, std::string& why) {
    if (a.label_idx != b.label_idx) { why = mc::fmt("label %zu instead of %zu", a.label_idx, b.label_idx); return false; }
    if (a.confidence != b.confidence) { why = mc::fmt("confidence %.9g instead of %.9g", a.confidence, b.confidence); return false; }
    if (a.layer_inputs.size() != b.layer_inputs.size()) { why = mc::fmt("%zu recorded layers instead of %zu", a.layer_inputs.size(), b.layer_inputs.size()); return false; }
    for (size_t i = 0; i < a.layer_inputs.size(); i++) {
        Ten x = fromM(a.layer_inputs[i]), y = fromM(b.layer_inputs[i]);
        if (!x.same(y)) { why = mc::fmt("layer %zu: shape %s instead of %s", i, x.dims().c_str(), y.dims().c_str()); return false; }
        for (size_t k = 0; k < x.v.size(); k++) if (!(x.v[k] == y.v[k])) { why = mc::fmt("layer %zu: value %zu is %.9g instead of %.9g", i, k, x.v[k], y.v[k]); return false; }
    }
    return true;
}
struct Cfg { int net, threads, calls, pre, tpre, split, orders; };
static void predict(Ctx& c, const Cfg& q, int st, bool slots, bool samein) {
    const NetSpec& n = q.net < 100 ? nets()[q.net] : bigNets()[q.net - 100]; int pre = c.thorough() ? q.tpre : q.pre;
    std::vector<std::vector<Call>> calls(q.threads); int k = 0;
    for (auto& v : calls) for (int i = 0; i < q.calls; i++) { v.push_back({samein ? 3 : k * 5 + 1, slots ? (int)(&v - &calls[0]) : 0}); k++; }
    Twin T(n.items, n.x, n.y, n.z, n.labels); Model L; Model& M = st == LOADED ? L : T.M;
    c.note("%s, %s, %d threads with %d calls%s%s", T.desc.c_str(), SN[st], q.threads, q.calls, slots ? ", own slots" : "", samein ? ", same input" : "");
    // each call alone
    std::vector<std::vector<Res>> alone(q.threads), got(q.threads); std::vector<Ten> wa;
    for (int t = 0; t < q.threads; t++) for (auto& cl : calls[t]) {
        Twin U(n.items, n.x, n.y, n.z, n.labels); Model UL; Model& UM = st == LOADED ? UL : U.M;
        for (size_t i = 0; i < T.M.layers.size(); i++) { U.M.layers[i]->weights = T.M.layers[i]->weights; U.M.layers[i]->biases = T.M.layers[i]->biases; }
        sched::seed(7); bring(U, st, UM); if (slots) for (auto& l : UM.layers) l->setBatchSize(q.threads);
        sched::seed(11); alone[t].push_back(UM.forwardPropagation(toM<float>(U.input(cl.salt)), cl.slot));
        if (wa.empty()) for (auto& l : UM.layers) { wa.push_back(fromM(l->weights)); wa.push_back(fromM(l->biases)); }
    }
    sched::seed(7); bring(T, st, M); if (slots) for (auto& l : M.layers) l->setBatchSize(q.threads);
    for (int t = 0; t < q.threads; t++) got[t].resize(q.calls);
    sched::seed(11);
    sched::Options o; o.preemptions = pre; o.split = q.split; o.orders = q.orders;
    sched::run(c, o, [&] {
        std::vector<std::thread> w;
        for (int t = 0; t < q.threads; t++) w.emplace_back([&, t] { for (int i = 0; i < q.calls; i++) got[t][i] = M.forwardPropagation(toM<float>(T.input(calls[t][i].salt)), calls[t][i].slot); });
        for (auto& t : w) t.join();
    });
    std::string why;
    for (int t = 0; t < q.threads; t++) for (int i = 0; i < q.calls; i++) c.require(same(got[t][i], alone[t][i], why), "call %d of thread %d differs from the same call alone: %s", i, t, why.c_str());
    for (size_t i = 0; i < M.layers.size(); i++) { Ten w = fromM(M.layers[i]->weights), b = fromM(M.layers[i]->biases); c.require(w.same(wa[2 * i]) && w.v == wa[2 * i].v && b.v == wa[2 * i + 1].v, "predictions changed the parameters of layer %zu", i); }
    // one more call, alone
    Res again = M.forwardPropagation(toM<float>(T.input(calls[0][0].salt)), calls[0][0].slot); c.require(same(again, alone[0][0], why), "a later call differs: %s", why.c_str());
    c.state(mc::Hash().i(q.net).i(q.threads).i(q.calls).i(st).i(slots).i(samein).i((int64_t)sched::trace()));
}
static void schedules(Ctx& c) {
    static const Cfg C[] = {{1, 2, 1, 6, 99, 1, 99}, {1, 2, 2, 4, 6, 30, 99}, {1, 3, 1, 3, 5, 30, 99}, {2, 2, 1, 6, 99, 1, 99}, {2, 3, 1, 3, 5, 40, 99}, {3, 2, 1, 6, 99, 1, 99}, {3, 3, 2, 2, 3, 50, 99}, {1, 4, 1, 2, 3, 40, 99}, {2, 3, 2, 2, 3, 60, 99}};
    int k = c.choose((int)(sizeof C / sizeof *C), "configuration"), st = c.choose(NSTATES, "state"); bool slots = c.flip("own slots");
    if (slots && k > 2) c.discard(); if (C[k].split <= 1) c.shard_point();
    predict(c, C[k], st, slots, false);
}
static void sameInput(Ctx& c) { int st = c.choose(NSTATES, "state"); int net = c.choose(4, "network"); c.shard_point(); Cfg q{net, 2, 1, 4, 6, 1, 99}; predict(c, q, st, false, true); }
static void images(Ctx& c) {
    int net = c.choose(3, "network"), st = c.choose(NSTATES, "state"), t = c.range(2, c.thorough() ? 4 : 3, "threads"); c.shard_point(); bool slots = c.flip("own slots");
    Cfg q{100 + net, t, t == 2 ? 2 : 1, 0, c.thorough() && t == 2 ? 1 : 0, 8, c.thorough() ? 2 : 1}; predict(c, q, st, slots, false);
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C02", {{"schedules", schedules}, {"same input", sameInput}, {"images", images}},
        "all schedules of 2-4 threads with 1-2 predictions each on a shared model, up to 6 preemptions with two calls, 2-4 with more (thorough: all with two calls, 3-6 with more), for 3 networks with pooling and one or two fully connected layers in 4 states (first use, parameters set, loaded, trained), in a common or in separate batch slots; 3 networks on inputs of up to 28x28 and 24x33x3 with 2-3 (4) threads and 1 (2) deviations from the default thread order; race detection on every execution");
}

#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <typeinfo>
#include <cxxabi.h>

namespace mc {

std::string fmt(const char* f, ...) {
    char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

static const int MAXC = 20000, MAXCLAIM = 1 << 22, MAXW = 64, MAXH = 1 << 20, EARLY = 1 << 16;
// The executions of a worker process: the first ones and the latest ones, each with its length in front.
// A failure may need what earlier executions left behind in the code under test.
struct History {
    int early[EARLY], nearly; int late[MAXH]; uint64_t end;
    void add(const std::vector<int>& ch) {
        int n = (int)ch.size(); if (end == (uint64_t)nearly && nearly + n + 1 <= EARLY) { early[nearly++] = n; for (int v : ch) early[nearly++] = v; }
        for (int v : ch) late[end++ % MAXH] = v;
        late[end++ % MAXH] = n;                                // behind, so that it can be read backwards
    }
    std::vector<std::vector<int>> first() const { std::vector<std::vector<int>> o; for (int i = 0; i < nearly; i += early[i] + 1) o.emplace_back(early + i + 1, early + i + 1 + early[i]); return o; }
    std::vector<std::vector<int>> latest(size_t count) const {
        std::vector<std::vector<int>> o; uint64_t e = end;
        while (e > 0 && o.size() < count) { uint64_t n = late[(e - 1) % MAXH]; if (n + 1 > e || end - e + n + 1 > MAXH) break; std::vector<int> ch(n); for (uint64_t i = 0; i < n; i++) ch[i] = late[(e - 1 - n + i) % MAXH]; o.push_back(ch); e -= n + 1; }
        std::reverse(o.begin(), o.end()); return o;
    }
};
struct Slot {
    std::atomic<uint64_t> beat;
    std::atomic<int> n;                   // choices so far of the running execution
    int choices[MAXC];
    std::atomic<int> status;              // 0 running, 1 done, 2 violation, 3 divergence, 4 deadline
    uint64_t execs, steps, choicepoints, maxdepth, failed_n;
    char msg[8192];
    History history;                      // of the present process
};
struct Claim { std::atomic<uint64_t> key; std::atomic<int> owner; };
struct Shared { std::atomic<int> stop, memory, deep; std::atomic<int> nclaims; Slot slot[MAXW]; Claim claim[MAXCLAIM]; };
static Shared* sh = nullptr;

struct Ctx::Impl {
    std::vector<int> prefix, choices, arity;
    std::vector<std::string> labels;
    bool sharded = false, replaying = false;
    int me = 0;
    Slot* slot = nullptr;
    uint64_t steps = 0;
    std::unordered_set<uint64_t> states;
    std::vector<uint64_t> pending_states;
};

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int Ctx::choose(int n, const char* label) {
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) at %s\n", n, label); _exit(11); }
    Impl& I = *impl;
    size_t k = I.choices.size();
    int c = 0;
    if (k < I.prefix.size()) {
        c = I.prefix[k];
        if (c < 0 || c >= n) {
            if (I.slot) { snprintf(I.slot->msg, sizeof I.slot->msg, "divergence: choice %d of %d at depth %zu (%s)", c, n, k, label); I.slot->status = 3; }
            _exit(11);
        }
    }
    I.choices.push_back(c);
    I.arity.push_back(n);
    if (describing_) I.labels.push_back(label);
    if (I.slot) {
        if (k >= MAXC) { fprintf(stderr, "mc: execution too deep\n"); _exit(11); }
        I.slot->choices[k] = c;
        I.slot->n = (int)k + 1;
        I.slot->beat++;
    }
    return c;
}

void Ctx::shard_point() {
    Impl& I = *impl;
    if (I.sharded) return;
    I.sharded = true;
    if (I.replaying) return;
    if (sh->stop) throw Skip{};
    // The choices made so far identify the shard; the first worker to arrive owns it
    Hash hh; for (int v : I.choices) hh.i(v);
    uint64_t h = hh; if (!h) h = 1;
    for (uint64_t p = h; ; p++) {
        Claim& C = sh->claim[p % MAXCLAIM];
        uint64_t k = 0;
        if (C.key.compare_exchange_strong(k, h)) {
            if (++sh->nclaims > MAXCLAIM / 2) { fprintf(stderr, "mc: too many shards\n"); _exit(11); }
            C.owner = I.me + 1; return;
        }
        if (k == h) { int o; while (!(o = C.owner)) {} if (o != I.me + 1) throw Skip{}; return; }
    }
}

void Ctx::memory(int gb) { if (sh && sh->memory < gb) sh->memory = gb; }
// no execution needs more memory than this, in GB
static double memoryLimit() { int gb = sh->memory; return gb > 0 ? gb : sh->deep ? 3.7 : 2; }
static double residentMemory(pid_t p) { char b[64]; snprintf(b, sizeof b, "/proc/%d/statm", (int)p); FILE* f = fopen(b, "r"); if (!f) return 0; unsigned long a = 0, r = 0; int k = fscanf(f, "%lu %lu", &a, &r); fclose(f); return k == 2 ? r * (double)sysconf(_SC_PAGESIZE) / (1 << 30) : 0; }
void Ctx::step(uint64_t n) { impl->steps += n; if (impl->slot) impl->slot->beat++; }
void Ctx::state(uint64_t h) { impl->pending_states.push_back(h * 0x9E3779B97F4A7C15ull + impl->choices[0]); }   // states of different scenarios are distinct
void Ctx::fail(const std::string& m) { throw Violation{m}; }
void Ctx::discard() { throw Skip{}; }
void Ctx::require(bool c, const char* f, ...) {
    if (c) return;
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    throw Violation{b};
}
void Ctx::note(const char* f, ...) {
    if (!describing_ || notes_.size() > 20000) return;
    char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (!notes_.empty()) notes_ += "; ";
    notes_ += b;
}
void Ctx::soft_fail(const std::string& m) { if (soft_msg_.empty()) soft_msg_ = m; }
void Ctx::hard_fail(const std::string& m) {
    if (impl->slot) {
        snprintf(impl->slot->msg, sizeof impl->slot->msg, "%s", m.c_str());
        impl->slot->status = 2;
    }
    if (describing_) { printf("NOTES %s\n", notes_.c_str()); }
    printf("FAILMSG %s\n", m.c_str()); fflush(stdout);
    _exit(10);
}

// One execution. Returns 0 ok, 1 skipped, 2 violation (msg set)
static int execute(Ctx& c, const std::vector<Named>& sc, std::string& msg) {
    c.soft_msg_.clear(); c.notes_.clear();
    c.impl->choices.clear(); c.impl->arity.clear(); c.impl->labels.clear();
    c.impl->sharded = false; c.impl->steps = 0; c.impl->pending_states.clear();
    try {
        int s = c.choose((int)sc.size(), "scenario");
        c.note("scenario %s", sc[s].name.c_str());
        sc[s].fn(c);
        c.shard_point();
        if (c.soft_failed()) { msg = c.soft_msg(); return 2; }
        return 0;
    } catch (Skip&) { return 1;
    } catch (Violation& v) { msg = v.msg; return 2;
    } catch (std::exception& e) {
        int st; char* d = abi::__cxa_demangle(typeid(e).name(), 0, 0, &st);
        msg = fmt("unexpected exception %s: %s", d ? d : "?", e.what());
        return 2;
    }
}

static void worker(int me, const std::vector<Named>& sc, bool thorough, const std::string& out,
                   std::vector<int> start) {
    Slot* S = &sh->slot[me];
    Ctx c; Ctx::Impl I; c.impl = &I; c.thorough_ = thorough; I.me = me; I.slot = S;
    I.prefix = start;
    std::ofstream samples(out + ".samples." + std::to_string(me), std::ios::app);
    uint64_t next_sample = 0; int nsamples = 0;
    auto finish = [&](int st) {
        std::ofstream f(out + ".states." + std::to_string(me), std::ios::binary | std::ios::app);
        for (uint64_t h : I.states) f.write((const char*)&h, 8);
        f.close(); samples.close();
        S->status = st;
        _exit(st == 2 ? 10 : 0);
    };
    while (true) {
        if (sh->stop) finish(4);
        S->n = 0; S->beat++;
        c.describing_ = nsamples < 12 && S->execs >= next_sample;
        std::string msg;
        int r = execute(c, sc, msg);
        if (r == 2) {
            S->failed_n = I.choices.size();
            snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
            sh->stop = 1;
            finish(2);
        }
        if (r == 0) {
            S->history.add(I.choices);
            S->execs++; S->steps += I.steps; S->choicepoints += I.choices.size();
            S->maxdepth = std::max<uint64_t>(S->maxdepth, I.choices.size());
            for (uint64_t h : I.pending_states) if (I.states.size() < 30000000) I.states.insert(h);
            if (c.describing_) { samples << c.notes_ << "\n"; nsamples++; next_sample = S->execs * 6 + 3; }
        }
        auto& ch = I.choices; auto& ar = I.arity;
        while (!ch.empty() && ch.back() + 1 >= ar.back()) { ch.pop_back(); ar.pop_back(); }
        if (ch.empty()) finish(1);
        ch.back()++;
        I.prefix = ch;
    }
}

// Execute one choice sequence in a fresh process. 0 ok, 1 violation, 2 hang, 3 error
static int replay_once(const std::vector<Named>& sc, bool thorough, const std::vector<int>& choices,
                       const std::string& log, int limit, std::string& msg, std::string& notes, const std::vector<std::vector<int>>& before = {}) {
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(fd, 1); dup2(fd, 2);
        Ctx c; Ctx::Impl I; c.impl = &I; c.thorough_ = thorough; I.replaying = true;
        std::string m; for (auto& b : before) { I.prefix = b; execute(c, sc, m); }
        I.prefix = choices; c.describing_ = true; m.clear();
         int r = execute(c, sc, m);
        std::cout.flush(); fflush(stdout);
        std::string n = c.notes_; for (char& ch : n) if (ch == '\n') ch = ' ';
        for (char& ch : m) if (ch == '\n') ch = ' ';
        dprintf(fd, "\nNOTES %s\n", n.c_str());
        if (r == 2) dprintf(fd, "FAILMSG %s\n", m.c_str());
        _exit(r == 2 ? 10 : 0);
    }
    double t0 = now(); int st = 0; bool hung = false, huge = false;
    while (waitpid(p, &st, WNOHANG) == 0) {
        if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); hung = true; break; }
        if (residentMemory(p) > memoryLimit()) { kill(p, SIGKILL); waitpid(p, &st, 0); huge = true; break; }
        usleep(20000);
    }
    std::ifstream f(log); std::string line, tail; bool have = false;
    while (std::getline(f, line)) {
        if (line.rfind("NOTES ", 0) == 0) notes = line.substr(6);
        else if (line.rfind("FAILMSG ", 0) == 0) { msg = line.substr(8); have = true; }
        else if (line.find("ERROR: AddressSanitizer") != std::string::npos || line.find("Assertion") != std::string::npos ||
                 line.find("terminate called") != std::string::npos || line.find("what():") != std::string::npos) tail += line + " ";
    }
    if (hung) { msg = fmt("does not terminate (%d s)", limit); return 2; }
    if (huge) { msg = fmt("does not terminate: more than %g GB of memory were taken", memoryLimit()); return 2; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) return 3;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 3;
    if (!have) msg = (WIFSIGNALED(st) ? fmt("crash: signal %d ", WTERMSIG(st)) : fmt("crash: exit %d ", WEXITSTATUS(st))) + tail;
    return 1;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}

int run(int argc, char** argv, const std::string& property, const std::vector<Named>& all, const std::string& bounds) {
    std::vector<Named> sc = all;                       // MC_ONLY=name[,name]: some scenarios only (for development)
    if (const char* only = getenv("MC_ONLY")) { std::string o = std::string(",") + only + ","; sc.clear(); for (auto& n : all) if (o.find("," + n.name + ",") != std::string::npos) sc.push_back(n); }
    std::string tier = "quick", out = "mc.out", replay; int workers = (int)sysconf(_SC_NPROCESSORS_ONLN); double deadline = 700;
    int hang = 60;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--tier") tier = argv[i+1]; else if (a == "--workers") workers = atoi(argv[i+1]);
        else if (a == "--out") out = argv[i+1]; else if (a == "--deadline") deadline = atof(argv[i+1]);
        else if (a == "--replay") replay = argv[i+1]; else if (a == "--hang") hang = atoi(argv[i+1]);
    }
    bool thorough = tier == "thorough";
    if (workers < 1) workers = 1;
    if (workers > MAXW) workers = MAXW;

    if (!replay.empty()) {
        std::ifstream f(replay); std::string line; std::vector<int> ch; std::vector<std::vector<int>> before;
        while (std::getline(f, line)) {
            if (line.rfind("choices=", 0) == 0) { std::istringstream is(line.substr(8)); int v; while (is >> v) ch.push_back(v); }
            if (line.rfind("before=", 0) == 0) { std::istringstream is(line.substr(7)); int v; before.emplace_back(); while (is >> v) before.back().push_back(v); }
            if (line.rfind("tier=", 0) == 0) thorough = line.substr(5) == "thorough";
        }
        std::string msg, notes;
        int r = replay_once(sc, thorough, ch, out + ".replay.log", 600, msg, notes, before);
        printf("replay: %s\nmessage: %s\ncase: %s\n", r == 0 ? "no violation" : r == 3 ? "error" : "violation", msg.c_str(), notes.c_str());
        return r == 0 ? 0 : r == 3 ? 2 : 1;
    }

    sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 2; }
    sh->deep = thorough;
    for (int w = 0; w < workers; w++) { unlink((out + ".states." + std::to_string(w)).c_str()); unlink((out + ".samples." + std::to_string(w)).c_str()); }
    std::vector<pid_t> pid(workers, 0);
    std::vector<double> last(workers, now());
    std::vector<uint64_t> beat(workers, 0);
    auto spawn = [&](int w, std::vector<int> start) {
        fflush(stdout); fflush(stderr);
        sh->slot[w].status = 0; sh->slot[w].history.nearly = 0; sh->slot[w].history.end = 0;
        pid_t p = fork();
        if (p == 0) {
            std::string lf = out + ".log." + std::to_string(w);
            int fd = open(lf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            int nul = open("/dev/null", O_WRONLY);
            dup2(nul, 1); dup2(fd, 2);
            worker(w, sc, thorough, out, start);
            _exit(0);
        }
        pid[w] = p; last[w] = now();
    };
    double t0 = now();
    for (int w = 0; w < workers; w++) spawn(w, {});
    int alive = workers; bool error = false, capped = false; std::string errmsg;
    std::vector<int> bad; std::string badmsg; bool violated = false;
    int attempts = 0;
    while (alive > 0) {
        usleep(10000);
        if (!capped && now() - t0 > deadline) { capped = true; sh->stop = 1; }
        if (capped && now() - t0 > deadline + 30) for (int w = 0; w < workers; w++) if (pid[w]) kill(pid[w], SIGKILL);
        for (int w = 0; w < workers; w++) {
            if (!pid[w]) continue;
            Slot& S = sh->slot[w];
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool hungw = false, hugew = false;
            if (r == 0 && residentMemory(pid[w]) > memoryLimit()) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hugew = true; }
            else if (r == 0) {
                if (S.beat != beat[w]) { beat[w] = S.beat; last[w] = now(); continue; }
                if (now() - last[w] > hang) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); hungw = true; }
                else continue;
            }
            pid[w] = 0; alive--;
            if (!hungw && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (!hungw && WIFEXITED(st) && WEXITSTATUS(st) == 11) { error = true; errmsg = S.msg; sh->stop = 1; continue; }
            if (!hungw && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (capped) continue; hugew = true; }     // also ended from outside when memory ran out: the replay shows whose fault it was
            // violation, crash or hang
            std::vector<int> ch(S.choices, S.choices + S.n);
            if (violated) continue;
            std::string msg, notes; int rr = 0;
            for (int k = 0; k < 5 && rr == 0; k++) rr = replay_once(sc, thorough, ch, out + ".replay.log", hungw ? 3 * hang : 2 * hang, msg, notes);
            // not by itself: with what the same process had executed before
            std::vector<std::vector<int>> before;
            if (rr == 0 && !hungw && !hugew) {
                const History& H = sh->slot[w].history; double h0 = now(); sh->stop = 1;
                auto again = [&](std::vector<std::vector<int>> b) { if (b.empty() || now() - h0 > 120) return false; before = b; rr = replay_once(sc, thorough, ch, out + ".replay.log", 60, msg, notes, before); if (rr != 1) rr = 0; return rr == 1; };
                bool found = false; size_t had = 0; auto F = H.first();
                for (size_t k = 1; !found && k <= ((size_t)1 << 20); k *= 4) { auto b = H.latest(k); if (b.size() == had) break; had = b.size(); found = again(b); }
                if (!found && !F.empty()) { found = again({F[0]}); if (!found) found = again(F); }
                if (!found) { auto b = F; for (auto& l : H.latest(1000)) b.push_back(l); found = again(b); }
                if (found) msg += fmt(" (after %zu other uses in the same process)", before.size());
                else if (S.msg[0]) { rr = 1; before.clear(); msg = std::string(S.msg) + " (seen once, depends on the uses before)"; }
            }
            if (rr == 1 || rr == 2) {
                violated = true; sh->stop = 1; bad = ch; badmsg = msg;
                std::ofstream f(out + ".violation");
                f << "property=" << property << "\ntier=" << tier << "\nmessage=" << msg << "\ncase=" << notes << "\nchoices=";
                for (int v : ch) f << v << " ";
                f << "\n";
                for (auto& b : before) { f << "before="; for (int v : b) f << v << " "; f << "\n"; }
            } else if ((hungw || hugew) && rr == 0) {
                // slow but finite: resume from this execution
                if (attempts++ < 20) { spawn(w, ch); alive++; } else { error = true; errmsg = "repeated stalls"; }
            } else { error = true; errmsg = fmt("failure not reproduced on replay: %s", S.msg); sh->stop = 1; }
        }
    }
    uint64_t ex = 0, stp = 0, cp = 0, md = 0; bool done = true;
    std::vector<uint64_t> hs; std::vector<std::string> samples;
    for (int w = 0; w < workers; w++) {
        Slot& S = sh->slot[w];
        ex += S.execs; stp += S.steps; cp += S.choicepoints; md = std::max(md, S.maxdepth);
        if (S.status != 1) done = false;
        std::ifstream f(out + ".states." + std::to_string(w), std::ios::binary);
        uint64_t h; while (f.read((char*)&h, 8)) hs.push_back(h);
        std::ifstream g(out + ".samples." + std::to_string(w)); std::string l;
        while (std::getline(g, l)) samples.push_back(l);
        unlink((out + ".states." + std::to_string(w)).c_str()); unlink((out + ".samples." + std::to_string(w)).c_str());
        if (!violated && !error) unlink((out + ".log." + std::to_string(w)).c_str());
    }
    if (!done && !violated && !capped && !error) { error = true; errmsg = "a worker did not finish"; }
    std::sort(hs.begin(), hs.end());
    uint64_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
    std::ofstream o(out);
    o << "{\"executions\":" << ex << ",\"transitions\":" << stp << ",\"choice_points\":" << cp << ",\"max_depth\":" << md
      << ",\"states\":" << distinct << ",\"exhaustive\":" << ((done && !violated && !error && !capped) ? "true" : "false")
      << ",\"capped\":" << (capped ? "true" : "false") << ",\"violated\":" << (violated ? "true" : "false")
      << ",\"error\":\"" << jesc(error ? errmsg : "") << "\",\"message\":\"" << jesc(badmsg) << "\",\"bounds\":\"" << jesc(bounds)
      << "\",\"workers\":" << workers << ",\"wall_s\":" << (now() - t0) << ",\"samples\":[";
    for (size_t i = 0; i < samples.size() && i < 24; i++) o << (i ? "," : "") << "\"" << jesc(samples[i].substr(0, 1500)) << "\"";
    o << "]}\n";
    o.close();
    if (violated) return 1;
    if (error) { fprintf(stderr, "mc error: %s\n", errmsg.c_str()); return 2; }
    return 0;
}

} // namespace mc

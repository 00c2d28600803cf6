// Controlled scheduler: the threads the code under test creates inside run() execute one at a time;
// which one runs next is decided by Ctx::choose before every synchronisation operation, within a
// preemption bound. Every access of instrumented code is checked for data races with vector clocks.
#pragma once
#include <functional>
#include "mc.h"
namespace mc { namespace sched {
struct Options {
    int preemptions = 2;       // switches away from a thread that could go on
    int orders = 1 << 30;      // how often, where the running thread blocks or ends, another than the lowest-numbered thread goes on
    int split = 1;             // > 1: the position of the first preemption is a choice made up front (to divide the work)
};
// Runs body under the scheduler. Returns after all threads ended.
void run(Ctx& c, const Options& o, const std::function<void()>& body);
// An additional place where another thread may be scheduled (for the harness's own objects)
void point(const char* what);
int self();                    // number of the running thread, 0 is the one that called run()
int threads();                 // threads created in this run, including 0
uint64_t points();             // scheduling points of the last run
uint64_t operations();         // synchronisation operations of the last run
uint64_t accesses();           // memory accesses checked in the last run
uint64_t trace();              // hash of the order of synchronisation operations of the last run
void seed(unsigned s);         // restart rand()
void refuse(int first, int count = 1);   // of the threads created from now on, first.. first+count-1 cannot be started (first < 0: all can)
int refused();                 // threads that could not be started since
void rands(const std::vector<int>& v);  // the next values of rand()
// Accesses in this scope belong to the harness and are not checked
struct Ignore { Ignore(); ~Ignore(); };
} }

// Training and prediction under the controlled scheduler.
#pragma once
#include "mcsched.h"
#include "nets.h"
#include <thread>
typedef ModelDescription<float, std::string> Model;
typedef TwinT<Model> Twin;
// swallows the progress output; keeps it if asked to
struct Sink : std::streambuf {
    std::string text; std::streambuf* old;
    Sink() : old(std::cout.rdbuf(this)) {}
    ~Sink() { std::cout.rdbuf(old); std::cout.clear(); }
    int overflow(int ch) override { mc::sched::Ignore i; if (ch != EOF) text.push_back((char)ch); return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { mc::sched::Ignore i; text.append(s, (size_t)n); return n; }
};
// the percentages printed by train(), one per epoch
inline std::vector<double> accuracies(const std::string& text) {
    std::vector<double> v; size_t p = 0;
    while ((p = text.find("Accuracy was ", p)) != std::string::npos) { p += 13; v.push_back(std::strtod(text.c_str() + p, nullptr)); }
    return v;
}
struct NetSpec { std::vector<Item> items; int x, y, z, labels; };
inline const std::vector<NetSpec>& nets() {
    static const std::vector<NetSpec> N = {
        {{{Layer::FC, 0, 0, 2, 0, 0, 0}}, 2, 1, 1, 2},
        {{{Layer::CONV, 2, 2, 2, 1, 1, 0}, {Layer::POOL, 1, 2, 0, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 3}, {Layer::FC, 0, 0, 2, 0, 0, 0}}, 3, 3, 1, 2},
        {{{Layer::POOL, 2, 1, 0, 1, 1, 1}, {Layer::FC, 0, 0, 3, 0, 0, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 1}, {Layer::FC, 0, 0, 3, 0, 0, 0}}, 3, 2, 1, 3},
        {{{Layer::CONV, 1, 2, 2, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 4}, {Layer::CONV, 2, 1, 1, 1, 1, 0}, {Layer::POOL, 2, 2, 0, 1, 1, 2}, {Layer::FC, 0, 0, 2, 0, 0, 0}}, 3, 3, 2, 2}};
    return N;
}
// of the size of images, for races and shared storage that only come with size
inline const std::vector<NetSpec>& bigNets() {
    static const std::vector<NetSpec> N = {
        {{{Layer::CONV, 3, 3, 4, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 0}, {Layer::POOL, 2, 2, 0, 2, 2, 0}, {Layer::FC, 0, 0, 10, 0, 0, 0}}, 28, 28, 1, 10},
        {{{Layer::FC, 0, 0, 40, 0, 0, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 3}, {Layer::FC, 0, 0, 12, 0, 0, 0}}, 9, 40, 1, 12},
        {{{Layer::POOL, 3, 2, 0, 2, 3, 2}, {Layer::CONV, 5, 2, 3, 1, 1, 0}, {Layer::ACT, 0, 0, 0, 0, 0, 1}, {Layer::CONV, 2, 3, 5, 1, 1, 0}, {Layer::POOL, 2, 2, 0, 1, 1, 1}, {Layer::FC, 0, 0, 20, 0, 0, 0}}, 24, 33, 3, 20}};
    return N;
}

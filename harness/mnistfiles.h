// A pair of image and label files in the MNIST format.
#pragma once
#include "mc.h"
#include <unistd.h>
struct MnistFiles {
    static std::string be(uint32_t v) { std::string s; for (int b = 24; b >= 0; b -= 8) s += (char)(v >> b & 255); return s; }
    int h, w; std::vector<std::vector<unsigned char>> images; std::vector<unsigned char> labels;
    MnistFiles(int h, int w) : h(h), w(w) {}
    // the first pixel identifies the image
    void add(int id, int label, int salt = 0) { std::vector<unsigned char> v(h * w); for (size_t k = 0; k < v.size(); k++) v[k] = k ? (unsigned char)((k * 37 + id * 101 + salt * 13 + (k * k) % 97) & 255) : (unsigned char)id; images.push_back(v); labels.push_back((unsigned char)label); }
    static void put(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
    void write(const std::string& img, const std::string& lab) const {
        std::string s = be(2051) + be(images.size()) + be(h) + be(w); for (auto& v : images) s.append((const char*)v.data(), v.size()); put(img, s);
        s = be(2049) + be(labels.size()); s.append((const char*)labels.data(), labels.size()); put(lab, s);
    }
};

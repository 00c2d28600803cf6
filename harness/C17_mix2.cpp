#include "C17_bin.h"
void bin_mixed2(Ctx& c) {
    auto K = std::integer_sequence<int, 0, 2>{}; auto O = std::integer_sequence<int, 0, 1, 2, 3, 5, 9>{}; std::vector<int> k{0, 2}, o{0, 1, 2, 3, 5, 9};
    switch (c.choose(5, "types")) {
    case 0: binAll<unsigned char, int>(c, K, K, O, k, k, o); break;
    case 1: binAll<float, double>(c, K, K, O, k, k, o); break;
    case 2: binAll<unsigned char, unsigned char>(c, K, K, O, k, k, o); break;
    case 3: binAll<double, float>(c, K, K, O, k, k, o); break;
    case 4: binAll<long, int>(c, K, K, O, k, k, o); break;
    }
}

#include "C17_bin.h"
void bin_mixed1(Ctx& c) {
    auto K = std::integer_sequence<int, 0, 2, 4>{}; auto O = std::integer_sequence<int, 0, 1, 2, 3, 4, 8>{}; std::vector<int> k{0, 2, 4}, o{0, 1, 2, 3, 4, 8};
    if (c.choose(2, "types") == 0) binAll<int, double>(c, K, K, O, k, k, o); else binAll<int, int>(c, K, K, O, k, k, o);
}

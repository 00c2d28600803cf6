#include "C17_bin.h"
void bin_dd1(Ctx& c) { binAll<double, double>(c, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7>{}, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7>{}, std::integer_sequence<int, 2, 3>{}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7}, {2, 3}); }

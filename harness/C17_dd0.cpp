#include "C17_bin.h"
void bin_dd0(Ctx& c) { binAll<double, double>(c, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7>{}, std::integer_sequence<int, 0, 1, 2, 3, 4, 5, 6, 7>{}, std::integer_sequence<int, 0, 1>{}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 4, 5, 6, 7}, {0, 1}); }

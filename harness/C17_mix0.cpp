#include "C17_bin.h"
// comparisons over the main operand kinds
void bin_mixed0(Ctx& c) { binAll<double, double>(c, std::integer_sequence<int, 0, 1, 2, 4, 6>{}, std::integer_sequence<int, 0, 2, 3, 6>{}, std::integer_sequence<int, 4, 5, 6, 7, 8, 9>{}, {0, 1, 2, 4, 6}, {0, 2, 3, 6}, {4, 5, 6, 7, 8, 9}); }

// C17: matrix expressions equal element-wise evaluation on their operands.
#include "C17.h"
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C17", {{"binary + -", bin_dd0}, {"binary * /", bin_dd1}, {"comparisons", bin_mixed0}, {"int/double", bin_mixed1}, {"mixed types", bin_mixed2}, {"nested +", nested0}, {"nested -", nested1}, {"nested *", nested2}, {"nested /", nested3},
        {"scalars", scalar_ops}, {"scalars of other types", scalar_ops2}, {"types: unsigned char", types0}, {"types: int", types1}, {"types: unsigned", types2}, {"types: long", types3}, {"types: float", types4}, {"types: double", types5}, {"unary", unary_ops}, {"in place", inplace}, {"in place, mixed", inplace2}, {"aliasing", aliasing}, {"mismatched", mismatched}, {"equality", equality}, {"large", large}, {"extremes", extremes}},
        "5 large shapes of up to 1280 elements (all operators over 5x4 kinds, nested expressions, unary functions, scalars, in place, self-reference); 10 operators x 8x8 operand kinds x 12 shapes (incl. empty) x 3-4 value patterns (arithmetic; comparisons over 5x4 kinds), 8 type pairs; all two-operator expressions over matrix and temporary leaves in both groupings (over 3 leaf kinds for two operator pairs); 12 scalar/matrix type and kind combinations in both orders; all 36 pairs of 6 element types x 10 operators (matrices, scalars in both orders, in place); 6 unary functions x 6 kinds; in-place operators x 5 kinds x 7 type pairs; 34 self-referencing assignments and in-place operations; all pairs of shapes up to 2^3 (thorough 3^3) for rejection; 10 operators on all 289 pairs of 17 values from the smallest to infinity and not-a-number, over 4 kinds, with scalars in both orders and in place");
}

// Operand kinds, shapes and the comparison of an expression with its expected elements (C17, C18)
#include "C17.h"
const char* kindName[NKINDS] = {"matrix", "const matrix", "temporary", "view", "const view", "temporary view", "expression", "named expression"};
const char* opName[NOPS] = {"+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="};
const int SH[NSHAPES + NLARGE][3] = {{1, 1, 1}, {2, 3, 1}, {3, 2, 1}, {2, 2, 2}, {1, 4, 1}, {4, 1, 1}, {1, 1, 3}, {3, 2, 2}, {0, 2, 1}, {2, 0, 1}, {2, 2, 0}, {3, 3, 1}, {300, 1, 1}, {1, 300, 1}, {2, 1, 257}, {17, 19, 3}, {16, 16, 5}};
void check(Ctx& c, const Obs& o, int x, int y, int z, const std::vector<double>& e, const std::string& what) {
    c.require(o.x == x && o.y == y && o.z == z && o.size == e.size(), "%s: shape is (%d,%d,%d), expected (%d,%d,%d)", what.c_str(), o.x, o.y, o.z, x, y, z);
    c.require(!o.overrun && o.iter.size() == e.size(), "%s: iteration visits %s%zu elements instead of %zu", what.c_str(), o.overrun ? "more than " : "", o.iter.size(), e.size());
    auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::max(std::fabs(a), std::fabs(b)); };
    for (size_t i = 0; i < e.size(); i++) {
        int a = (int)(i % x), b = (int)(i / x % y), k = (int)(i / x / y);
        c.require(eq(o.call[i], e[i]) && eq(o.call3[i], e[i]), "%s: element (%d,%d,%d) is %.17g, expected %.17g", what.c_str(), a, b, k, eq(o.call[i], e[i]) ? o.call3[i] : o.call[i], e[i]);
        c.require(eq(o.iter[i], e[i]) && o.idx[3 * i] == a && o.idx[3 * i + 1] == b && o.idx[3 * i + 2] == k, "%s: iteration step %zu gives %.17g at (%d,%d,%d), expected %.17g", what.c_str(), i, o.iter[i], o.idx[3 * i], o.idx[3 * i + 1], o.idx[3 * i + 2], e[i]);
    }
}

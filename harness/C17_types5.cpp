#include "C17_types.h"
void types5(Ctx& c) { typeRow<double>(c); }

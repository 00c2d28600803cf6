#include "C17_types.h"
void types2(Ctx& c) { typeRow<unsigned>(c); }

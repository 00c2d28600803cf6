#include "C17_types.h"
void types1(Ctx& c) { typeRow<int>(c); }

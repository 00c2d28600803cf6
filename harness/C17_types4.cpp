#include "C17_types.h"
void types4(Ctx& c) { typeRow<float>(c); }

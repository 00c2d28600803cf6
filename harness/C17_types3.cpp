#include "C17_types.h"
void types3(Ctx& c) { typeRow<long>(c); }

#include "C17_types.h"
void types0(Ctx& c) { typeRow<unsigned char>(c); }

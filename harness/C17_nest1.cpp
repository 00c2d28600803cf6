#include "C17_nest.h"
void nested1(Ctx& c) { if (c.flip("grouping")) nestO<1, 1>(c); else nestO<0, 1>(c); }

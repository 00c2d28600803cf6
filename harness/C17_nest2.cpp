#include "C17_nest.h"
void nested2(Ctx& c) { if (c.flip("grouping")) nestO<1, 2>(c); else nestO<0, 2>(c); }

#include "C17_nest.h"
void nested3(Ctx& c) { if (c.flip("grouping")) nestO<1, 3>(c); else nestO<0, 3>(c); }

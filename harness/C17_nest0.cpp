#include "C17_nest.h"
void nested0(Ctx& c) { if (c.flip("grouping")) nestO<1, 0>(c); else nestO<0, 0>(c); }

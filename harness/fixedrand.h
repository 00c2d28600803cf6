// Deterministic replacements of the C random source, so that runs repeat; MODE selects extreme draws.
#pragma once
#include <cstdlib>
extern "C" { inline unsigned& mc_rand_state() { static unsigned s = 1; return s; } inline int& mc_rand_mode() { static int m = 0; return m; } }
extern "C" void srand(unsigned) {}
extern "C" int rand() {
    unsigned& s = mc_rand_state(); s = s * 1103515245u + 12345u; int v = (int)((s >> 1) & 0x7fffffff);
    switch (mc_rand_mode()) { case 1: return 0; case 2: return RAND_MAX; case 3: return v & 1 ? RAND_MAX : 0; case 4: return RAND_MAX / 2; default: return v; }
}

#include "sim.h"
static std::string check(const Fields &f) { return sim::check(f, sim::RESULT); }
static void gen(Gen &g) { sim::gen(g, "o19xMyNecIX"); }
static Reg reg("C10", check, gen);

#include "sim.h"
static std::string check(const Fields &f) { return sim::check(f, sim::CONSOLE); }
static void gen(Gen &g) { sim::gen(g, "o19xMyNec"); }
static Reg reg("C21", check, gen);

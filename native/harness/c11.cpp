#include "sim.h"
static std::string check(const Fields &f) { return sim::check(f, sim::ORDER); }
static void gen(Gen &g) { sim::gen(g, "oq19xiXmMyYNneprsCcDI"); }
static Reg reg("C11", check, gen);

#include "optref.hpp"
const char* PROP = "C20";
uint64_t ncases(const Ctx& c) { return c.thorough ? 240000 : 12000; }
void run_case(Ctx& c, uint64_t idx) { optimizer_run(c, ADAM_, idx % 4 == 3); }

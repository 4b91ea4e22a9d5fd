#include "optref.hpp"
const char* PROP = "C21";
uint64_t ncases(const Ctx& c) { return c.thorough ? 288000 : 14400; }
void run_case(Ctx& c, uint64_t idx) { optimizer_run(c, int(idx % 3), true); }

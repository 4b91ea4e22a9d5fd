#include "optref.hpp"
const char* PROP = "C19";
uint64_t ncases(const Ctx& c) { return c.thorough ? 288000 : 14400; }
void run_case(Ctx& c, uint64_t idx) { optimizer_run(c, idx % 3 ? MOM_ : SGD_, idx % 4 == 3); }

// Development aid: runs the script named by $NK_SCRIPT and prints records and errors.
#include "vm.hpp"
static void dev(Ctx &c, Rng &r) {
    const char *f = getenv("NK_SCRIPT"); if (!f) return; str s = readFile(f); Vm v; v.create(); bool ok = v.compile({{s, "script"}}); if (ok) { v.finalize(); v.run(2000000); }
    printf("%s%s", v.w.trace.c_str(), v.errors().c_str()); if (v.w.note.size()) printf("note %s\n", v.w.note.c_str()); v.destroy(); if (v.leakReport().size()) printf("leak %s\n", v.leakReport().c_str());
}
ENGINE(DEV, dev);

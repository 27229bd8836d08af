// C01: no script text can corrupt, crash, hang or leak the host.
#include "hostile.hpp"
#include <algorithm>
namespace {
void c01(Ctx &c, Rng &r) {
    int rounds = 6; for (int q = 0; q < rounds; q++) {
        str kind; int pieces = r.pct(85) ? 1 : r.range(2, 4); std::vector<str> ts; for (int i = 0; i < pieces; i++) ts.push_back(hostileText(c, r, &kind)); str all; for (auto &t : ts) all += t + (pieces > 1 ? "\n====\n" : ""); c.text(all); c.evals++; c.distinct(hashStr(all)); c.count(("text_" + kind).c_str());
        Vm v; v.w.traceMax = 20000; c.phase("create"); v.create(); NKVM *vm = v.vm(); bool tiny = r.pct(8); uint32_t mem = tiny ? (uint32_t)r.range(1, 200000) : (1u << r.range(20, 26)); nkxSetMaxAllocatedMemory(vm, mem); uint32_t budget = r.pct(10) ? r.range(1, 50) : r.range(50, c.thorough ? 60000 : 20000); if (r.pct(30)) nkxSetMaxStackSize(vm, r.range(1, 70000)); if (r.pct(30)) nkxSetMaxFieldsPerObject(vm, r.range(1, 2000)); if (r.pct(60)) nkxSetGarbageCollectionInterval(vm, r.pct(30) ? r.range(1, 20) : r.range(20, 5000)); if (r.pct(30)) nkxSetGarbageCollectionNewObjectInterval(vm, r.range(0, 500)); if (nkxGetGarbageCollectionInterval(vm) < 20 && budget > 4000) budget = 4000;
        str name; { int k = r.below(10); name = k == 0 ? "" : k == 1 ? str(r.range(1, 5000), 'n') : k == 2 ? "a\"b\n\xff%s%n" : "t.nks"; } c.phase("compile"); bool rejected = false; for (auto &t : ts) if (!nkxCompilerCompileScript(v.w.cs, t.c_str(), name.c_str())) rejected = true; str prob; if (!nkxVmHasAllocationFailure(vm) && rejected != !!nkxVmHasErrors(vm)) prob = rejected ? "rejected without an error" : "accepted with an error";
        if (!(rejected && r.pct(20))) { c.phase("finalize"); v.finalize(); } c.count(rejected ? "rejected" : "compiled"); if (!rejected) { if (r.pct(10)) { c.phase("image"); str img; v.save(img); c.maxi("image_bytes", img.size()); }
            nkxSetRemainingInstructionLimit(vm, budget); Rng rr = r.fork(); int nop = r.pct(30) ? r.range(1, 4) : 0; c.phase("run"); if (nop) { uint64_t fire = r.range(1, 10), seen = 0; v.w.onNat = [&](World &w) { if (++seen == fire) { switch (rr.below(3)) { case 0: nkxVmGarbageCollect(w.vm); break; case 1: { NKValue o; memset(&o, 0, sizeof o); nkxCreateObject(w.vm, &o); break; } default: nkxAddError(w.vm, "from a native"); } } }; for (int k = 0; k < 40 && !v.ended(); k++) { nkxVmIterate(vm, rr.range(1, 700)); if (rr.pct(10)) hostOps(v, rr, 1, c); } if (nkxVmHasErrors(vm) || nkxVmProgramHasEnded(vm)) { } else nkxVmExecuteProgram(vm); }
            else if (r.pct(50)) nkxVmExecuteProgram(vm); else while (!v.ended()) nkxVmIterate(vm, rr.range(1, 5000));
            if (!v.ended()) { nkxSetRemainingInstructionLimit(vm, budget); nkxVmExecuteProgram(vm); } if (!v.ended() && prob.empty()) prob = "execution returned with neither an end nor an error"; c.count(nkxVmHasAllocationFailure(vm) ? "ran_out_of_memory" : nkxVmHasErrors(vm) ? "ran_into_error" : "ran_to_end"); if (nkxVmHasErrors(vm)) { str e = v.errors(); const char *lim[] = {"Instruction count", "tack", "field", "nesting", "yield", "coroutine", "argument", "divide", "Cannot", "Cant"}; for (auto l : lim) if (e.find(l) != str::npos) { c.count((str("error_") + l).c_str()); break; } }
            v.w.onNat = nullptr; }
        c.phase("afterwards"); if (r.pct(70)) { Rng rr = r.fork(); nkxSetRemainingInstructionLimit(vm, 3000); if (nkxGetGarbageCollectionInterval(vm) > 2000) nkxSetGarbageCollectionInterval(vm, 500); hostOps(v, rr, r.range(1, 8), c); }
        if (!nkxVmHasAllocationFailure(vm)) { str m; if (prob.empty() && !v.checkMem(m)) prob = m; } if (v.w.al.peakBytes > mem && !tiny && prob.empty()) prob = fmt("used %llu bytes with a limit of %u", (unsigned long long)v.w.al.peakBytes, mem); c.maxi("memory", v.w.al.peakBytes); c.count("native_calls", v.w.nativeCalls); c.phase("delete"); v.destroy(); str l = v.leakReport(); if (prob.empty() && l.size()) prob = l; if (prob.size()) { c.fail(prob.substr(0, 60), prob + "\n" + all.substr(0, 20000)); return; } } c.sample("(see counters)"); }
}
ENGINE(C01, c01);

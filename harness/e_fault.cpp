// Fault injection: refused allocations, memory limits, failing streams, size limits.
#include "vm.hpp"
#include <memory>
#include <cmath>
#include <algorithm>
#include <unistd.h>
#include <fcntl.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace {
// ------------------------------------------------------------ a whole life of a machine
// Every run with the same seed makes the same calls as long as nothing fails.
struct LifeOpts { uint64_t seed = 0; const std::vector<Piece> *ps = nullptr; std::vector<Key> keys; uint32_t instr = 20000; bool load = true; bool force = false; bool memRandom = false; bool shuffleLimit = false; };
void hostFn(NKVMFunctionCallbackData *d) { nkxValueSetString(d->vm, &d->returnValue, "from the host function"); }
struct Life {
    Ctx &c; LifeOpts o; Rng r; Vm v; std::unique_ptr<Vm> t; // t: machine images are loaded into
    uint64_t failMain = 0, failTarget = 0; bool forever = false, session = false;
    str problem; uint64_t ops = 0, postOps = 0, memChecks = 0, nativeChecks = 0, nativeOps = 0; bool created = true;
    const char *op = "create";
    std::vector<std::pair<NKValue, void *>> mine; // host-held objects
    std::vector<str> extraTypes, extraFns; // registered later on the main machine; a load target needs the same
    FILE *devnull = nullptr;
    Life(Ctx &c, const LifeOpts &o) : c(c), o(o), r(o.seed) {}
    ~Life() { if (devnull) fclose(devnull); }
    bool down(Vm &x) { return nkxVmHasAllocationFailure(x.vm()); }
    void memOf(Vm &x, const char *where) { str why; memChecks++; if (problem.empty() && x.created && !x.checkMem(why)) problem = str("memory accounting after ") + where + ": " + why; if (problem.empty() && x.w.al.overLimit) problem = str("request beyond the configured maximum during ") + where; }
    void chk(const char *where) {
        op = where; c.phase(where); ops++; if (!v.created) return;
        memOf(v, where); if (t && t->created) memOf(*t, where);
        flag(v, where); if (t && t->created) flag(*t, where);
    }
    void flag(Vm &x, const char *where) {
        if (problem.size()) return;
        bool f = down(x); if (f) postOps++;
        if (x.w.al.refused && !f) problem = str("a refused allocation was not flagged after ") + where;
        if (f && !x.w.al.refused && !x.w.al.limitBytes && !o.force) problem = str("allocation failure flagged though nothing was refused after ") + where;
        if (f && !nkxVmHasErrors(x.vm())) problem = str("allocation failure not visible as error after ") + where;
    }
    void hook(Vm &x) { x.w.onNat = [this, &x](World &w) { nativeChecks++; if (w.vm) memOf(x, "entering a native"); if (o.force && r.pct(1)) { nkxForceCatastrophicFailure(w.vm); if (problem.empty() && !down(x)) problem = "forced failure not flagged in native"; } if (w.vm && !down(x) && r.pct(40)) nativeOp(x); }; }
    // calls a native function may make while the machine is running below it
    void nativeOp(Vm &x) {
        NKVM *vm = x.vm(); NKValue a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); nativeOps++;
        switch (r.below(18)) {
        case 0: nkxCreateObject(vm, &a); if (!down(x)) { nkxValueSetInt(vm, &b, r.range(0, 5)); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &a, &b, nkfalse); if (e && !down(x)) nkxValueSetFloat(vm, e, 1.5f); nkxVmObjectClearEntry(vm, &a, &b); nkxVmObjectGetSize(vm, &a); } break;
        case 1: nkxValueSetString(vm, &a, fmt("native text %u", r.below(500)).c_str()); nkxValueToString(vm, &a); break;
        case 2: nkxValueSetFloat(vm, &a, 2.25f); nkxValueToInt(vm, &a); break;
        case 3: nkxValueSetInt(vm, &a, r.below(100)); nkxValueToString(vm, &a); nkxValueToFloat(vm, &a); break;
        case 4: { void *p = nkxMalloc(vm, 1 + r.below(60)); if (p) nkxFree(vm, p); break; }
        case 5: { void *p = nkxMalloc(vm, 1 + r.below(60)); if (p) { void *q = nkxRealloc(vm, p, 1 + r.below(90)); if (q) nkxFree(vm, q); } break; }
        case 6: { void *p = nkxMallocArray(vm, r.below(9), 8); if (p) { void *q = nkxReallocArray(vm, p, 1 + r.below(9), 8); if (q) nkxFree(vm, q); } break; }
        case 7: { char *p = nkxStrdup(vm, "copy"); if (p) nkxFree(vm, p); break; }
        case 8: nkxVmFindExternalType(vm, r.pct(50) ? "box" : "none"); nkxVmGetExternalTypeName(vm, x.w.boxType); nkxGetExternalSubsystemData(vm, "ss"); nkxGetExternalSubsystemDataOrError(vm, "ss"); break;
        case 9: nkxVmFindGlobalVariable(vm, nullptr, r.pct(50) ? "out" : "none"); break;
        case 10: { nkxCreateObject(vm, &a); if (down(x)) break; nkxVmObjectAcquireHandle(vm, &a); if (down(x)) break; nkxVmObjectGetExternalHandleCount(vm, &a); nkxVmObjectReleaseHandle(vm, &a); break; }
        case 11: { NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(vm, "hostfn", hostFn); if (down(x)) break; NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e); if (down(x) || f.id == NK_INVALID_VALUE) break; nkxValueSetFunction(vm, &a, f); if (!nkxVmHasErrors(vm)) nkxVmCallFunction(vm, &a, 0, nullptr, &b); break; }
        case 12: nkxGetErrorLength(vm); nkxGetErrorCount(vm); nkxVmProgramHasEnded(vm); nkxVmGetPeakMemoryUsage(vm); nkxGetUserData(vm); nkxGetMaxStackSize(vm); break;
        case 13: { NKValue it; uint32_t i = 0; memset(&it, 0, sizeof it); int n = 0; while (nkxGetNextObjectOfExternalType(vm, x.w.boxType, &it, &i) && n++ < 100) { nkxVmObjectGetExternalData(vm, &it); nkxVmObjectGetExternalType(vm, &it); } break; }
        case 14: if (!devnull) devnull = fopen("/dev/null", "w"); nkxDbgDumpState(vm, nullptr, devnull); break;
        case 15: if (r.pct(4)) nkxAddErrorEx(vm, "a native objects", "native file", 3); break;
        case 16: if (mine.size()) { NKValue ob = mine[r.below((uint32_t)mine.size())].first; nkxValueSetInt(vm, &b, 1); nkxVmObjectFindOrAddEntry(vm, &ob, &b, nktrue); } break;
        case 17: { char b8[4]; nkxSerializeData(vm, b8, 4); break; }
        }
        flag(x, "a call from inside a native");
    }
    void setMax(Vm &x, uint32_t m) { nkxSetMaxAllocatedMemory(x.vm(), m); if (!down(x)) { x.w.al.limitBytes = m; if (problem.empty() && nkxGetMaxAllocatedMemory(x.vm()) != m) problem = "memory limit query"; } }
    // the public interface, one random call; everything must be harmless whatever happened before
    void hostOp(Vm &x) {
        NKVM *vm = x.vm(); NKValue a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b);
        switch (r.below(34)) {
        case 29: if (r.pct(12)) { if (r.pct(50)) nkxAddErrorEx(vm, "the host objects", r.pct(50) ? "host file" : "broken", 7); else nkxAddError(vm, "the host objects"); chk("report an error"); if (!down(x) && !nkxVmHasErrors(vm) && problem.empty()) problem = "reported error lost"; } break;
        case 30: { bool miss = r.pct(8); void *p = nkxGetExternalSubsystemDataOrError(vm, miss ? "no such subsystem" : "ss"); chk("subsystem or error"); if (problem.empty() && miss && (p || !nkxVmHasErrors(vm))) problem = "missing subsystem not reported"; break; }
        case 31: { NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(vm, "hostfn", hostFn); chk("find function"); if (down(x)) break; NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, e); chk("function object for a function"); if (down(x) || f.id == NK_INVALID_VALUE) break; nkxValueSetFunction(vm, &a, f); chk("set function"); if (nkxVmHasErrors(vm)) break; nkxVmCallFunction(vm, &a, 0, nullptr, &b); chk("call function by id"); if (problem.empty() && !down(x) && !nkxVmHasErrors(vm)) { const char *s = b.type == NK_VALUETYPE_STRING ? nkxValueToString(vm, &b) : nullptr; if (!down(x) && (!s || strcmp(s, "from the host function"))) problem = "answer of a function called by id lost"; } break; }
        case 32: if (r.pct(15)) { static const char *const NT[] = {"box", "boxget", "boxset", "nt_i", "nt_if", "nt_s", "nt_fo", "nt_0"}; NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, NT[r.below(8)]); chk("find native"); if (!g || nkxVmHasErrors(vm)) break; NKValue f = *g, args[3], ret; memset(&ret, 0, sizeof ret); for (auto &q : args) { memset(&q, 0, sizeof q); switch (r.below(4)) { case 0: nkxValueSetInt(vm, &q, 4); break; case 1: nkxValueSetString(vm, &q, "wrong"); break; case 2: nkxCreateObject(vm, &q); if (down(x)) nkxValueSetNil(vm, &q); break; default: nkxValueSetNil(vm, &q); } } chk("make arguments"); if (!nkxVmHasErrors(vm)) nkxVmCallFunction(vm, &f, r.below(4), args, &ret); chk("call a native with odd arguments"); } break;
        case 33: if (x.w.cs && session) { str f = c.scratch + "/life.nks"; FILE *o = fopen(f.c_str(), "w"); if (!o) break; fputs(r.pct(50) ? "out(\"from a file\");\n" : "var f = object();\nf.a = \"text\" + 1;\nout(f.a;\n", o); fclose(o); bool there = r.pct(85), had = nkxVmHasErrors(vm); bool ok = nkxCompilerCompileScriptFile(x.w.cs, there ? f.c_str() : r.pct(50) ? "/dev/null/none" : c.scratch.c_str()); if (problem.empty() && ok && (!there || nkxVmHasErrors(vm)) && !had) problem = "compiling a file claims success"; if (problem.empty() && !ok && !nkxVmHasErrors(vm)) problem = "compiling a file fails silently"; unlink(f.c_str()); chk("compile a file"); } break;
        case 0: nkxVmGarbageCollect(vm); chk("collect"); break;
        case 1: nkxVmShrink(vm); chk("shrink"); break;
        case 2: { nkxCreateObject(vm, &a); chk("create object"); if (a.type == NK_VALUETYPE_OBJECTID && !down(x)) { for (int i = r.range(0, 12); i-- > 0;) { nkxValueSetInt(vm, &b, r.range(-3, 9)); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &a, &b, nkfalse); chk("add field"); if (e && !down(x)) nkxValueSetString(vm, e, fmt("value %u", r.below(30)).c_str()); chk("set field text"); } } break; }
        case 3: { nkxCreateObject(vm, &a); if (a.type == NK_VALUETYPE_OBJECTID && !down(x)) { nkxVmObjectAcquireHandle(vm, &a); chk("acquire handle"); if (!down(x)) mine.push_back({a, &x}); } chk("hold"); break; }
        case 4: if (mine.size()) { size_t i = r.below((uint32_t)mine.size()); if (mine[i].second == &x) { NKValue ob = mine[i].first; nkxVmObjectReleaseHandle(vm, &ob); mine.erase(mine.begin() + i); } chk("release handle"); } break;
        case 5: nkxValueSetString(vm, &a, fmt("text %u", r.below(1000)).c_str()); chk("set string"); { const char *s = nkxValueToString(vm, &a); if (!down(x) && (!s || strncmp(s, "text ", 5))) problem = "string value lost"; } break;
        case 6: nkxValueSetInt(vm, &a, (int)r.next()); nkxValueToString(vm, &a); chk("int to text"); nkxValueToFloat(vm, &a); nkxValueToInt(vm, &a); break;
        case 7: nkxValueSetFloat(vm, &a, (float)r.range(-1000, 1000) / 7); nkxValueToString(vm, &a); chk("float to text"); break;
        case 8: { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, r.pct(80) ? "out" : "nothing such"); if (g) { b = *g; nkxValueSetInt(vm, &a, 5); NKValue ret; memset(&ret, 0, sizeof ret); if (!nkxVmHasErrors(vm)) nkxVmCallFunction(vm, &b, 1, &a, &ret); } chk("call a function value"); break; }
        case 9: if (!devnull) devnull = fopen("/dev/null", "w"); nkxDbgDumpState(vm, r.pct(50) ? "text\nof the script\n" : nullptr, devnull); chk("dump state"); break;
        case 10: { void *p = nkxMalloc(vm, 1 + r.below(300)); chk("nkxMalloc"); if (p) { memset(p, 1, 1); void *q = nkxRealloc(vm, p, 1 + r.below(900)); chk("nkxRealloc"); if (q) nkxFree(vm, q); else if (!down(x)) problem = "nkxRealloc failed silently"; } chk("nkxFree"); break; }
        case 11: { void *p = nkxMallocArray(vm, r.below(16), r.below(64)); chk("nkxMallocArray"); if (p) { void *q = nkxReallocArray(vm, p, r.below(5), r.below(64)); if (q) nkxFree(vm, q); } chk("nkxReallocArray"); break; }
        case 12: { char *p = nkxStrdup(vm, "some text"); chk("nkxStrdup"); if (p) { if (strcmp(p, "some text")) problem = "nkxStrdup copy differs"; nkxFree(vm, p); } chk("free strdup"); break; }
        case 13: { str n = fmt("type%u", r.below(40)); NKVMExternalDataTypeID id = nkxVmRegisterExternalType(vm, n.c_str(), nullptr, nullptr, nullptr); if (&x == &v && id.id != NK_INVALID_VALUE && std::find(extraTypes.begin(), extraTypes.end(), n) == extraTypes.end()) extraTypes.push_back(n); chk("register type"); break; }
        case 14: nkxVmFindExternalType(vm, "box"); nkxVmGetExternalTypeName(vm, x.w.boxType); nkxGetExternalSubsystemData(vm, "ss"); chk("look-ups"); break;
        case 15: { uint32_t n = nkxGetErrorLength(vm); char *e = (char *)malloc(n); if (n) { nkxGetErrorText(vm, e); if (strlen(e) + 1 > n) problem = "error text longer than announced"; } free(e); nkxGetErrorCount(vm); chk("error text"); break; }
        case 16: { str img; bool ok = x.save(img); chk("save"); if (ok && down(x)) problem = "save reported success after an allocation failure"; if (!ok && !down(x)) problem = "save failed without any fault"; break; }
        case 17: case 18: loadOp(x); break;
        case 19: { NKValue it; uint32_t i = 0; memset(&it, 0, sizeof it); int n = 0; while (nkxGetNextObjectOfExternalType(vm, x.w.boxType, &it, &i) && n++ < 100000) { nkxVmObjectGetExternalData(vm, &it); nkxVmObjectGetExternalType(vm, &it); } chk("enumerate host objects"); break; }
        case 20: { // host-made box
            nkxCreateObject(vm, &a); chk("create box object"); if (a.type != NK_VALUETYPE_OBJECTID || down(x)) break; Box *bx = new Box(); bx->id = x.w.nextBox++; bx->payload = 7; memset(&bx->held, 0, sizeof bx->held); bx->held.type = NK_VALUETYPE_NIL; bx->w = &x.w; bx->magic = 0xB0B0CAFE; x.w.boxes[bx->id] = bx;
            if (!nkxVmObjectSetExternalType(vm, &a, x.w.boxType) || !nkxVmObjectSetExternalData(vm, &a, bx)) { x.w.boxes.erase(bx->id); delete bx; } chk("attach host data"); break; }
        case 27: nkxVmProgramHasEnded(vm); nkxValueSetInt(vm, &b, 3); if (r.pct(10)) { nkxVmObjectGetExternalHandleCount(vm, &b); nkxVmObjectGetSize(vm, &b); nkxVmObjectGetExternalData(vm, &b); nkxVmObjectAcquireHandle(vm, &b); nkxVmObjectReleaseHandle(vm, &b); } chk("misuse of a number as object"); break;
        case 28: { NKVMExternalDataTypeID bt = x.w.boxType; for (int i = r.range(1, 2); i-- > 0;) nkxVmSetupExternalFunction(vm, nullptr, "again", hostFn, nkfalse, 3, NK_VALUETYPE_INT, NK_VALUETYPE_OBJECTID, bt, NK_VALUETYPE_NIL); if (r.pct(50)) nkxVmSetupExternalFunction(vm, nullptr, "again", hostFn, nkfalse, 1, NK_VALUETYPE_INT); chk("set up a function again"); break; }
        case 26: { char b8[8]; if (nkxSerializeData(vm, b8, 8) && problem.empty()) problem = "data serialized outside serialization"; chk("serialize outside serialization"); break; }
        case 21: nkxVmRegisterExternalFunction(vm, fmt("fn%u", r.below(5)).c_str(), [](NKVMFunctionCallbackData *) {}); chk("register function"); break;
        case 22: if (mine.size()) { NKValue ob = mine[r.below((uint32_t)mine.size())].first; nkxVmObjectGetSize(vm, &ob); nkxValueSetInt(vm, &b, 1); nkxVmObjectFindOrAddEntry(vm, &ob, &b, nktrue); nkxVmObjectGetExternalHandleCount(vm, &ob); chk("inspect object"); } break;
        case 23: nkxSetGarbageCollectionInterval(vm, 1 + r.below(50)); nkxSetGarbageCollectionNewObjectInterval(vm, r.below(20)); nkxGetGarbageCollectionInterval(vm); nkxGetRemainingInstructionLimit(vm); chk("limits"); break;
        case 24: if (o.memRandom) { uint32_t use = nkxVmGetCurrentMemoryUsage(vm); setMax(x, r.pct(30) ? use + r.below(60) : r.pct(20) ? use - r.below(use / 2 + 1) : use + r.below(40000)); chk("set memory limit"); } break;
        case 25: if (o.force && r.pct(15)) { nkxForceCatastrophicFailure(vm); chk("force failure"); if (!down(x) && problem.empty()) problem = "forced failure not flagged"; } break;
        }
    }
    void loadOp(Vm &x) {
        if (!o.load || &x != &v || !v.created) return;
        str img; if (!v.save(img)) { chk("save"); return; } chk("save");
        if (t) { checkEnd(*t, "loaded machine"); t.reset(); if (problem.size()) return; }
        t.reset(new Vm()); t->w.keys = o.keys; t->w.al.failAt = failTarget; t->w.al.failForever = forever;
        for (size_t i = mine.size(); i--;) if (mine[i].second != &v) mine.erase(mine.begin() + i);
        hook(*t); t->create(false); if (!t->created) { chk("target not created"); t.reset(); return; } for (auto &n : extraTypes) nkxVmRegisterExternalType(t->vm(), n.c_str(), nullptr, nullptr, nullptr);
        nkxVmSetupExternalFunction(t->vm(), nullptr, "hostfn", hostFn, nkfalse, NK_INVALID_VALUE); chk("prepare target");
        if (o.memRandom && r.pct(50)) setMax(*t, nkxVmGetCurrentMemoryUsage(t->vm()) + r.below(30000));
        bool ok = t->load(img); chk("load"); if (ok && down(*t)) problem = "load reported success after an allocation failure"; if (!ok && !down(*t) && problem.empty()) problem = "load of a good image failed: " + t->errors();
        t->carry(v); for (int i = r.range(1, 4); i-- > 0 && problem.empty();) { nkxVmIterate(t->vm(), 1 + r.below(200)); chk("run loaded"); hostOp(*t); }
    }
    void checkEnd(Vm &x, const char *who) {
        bool fl = x.created && down(x); c.phase("delete"); size_t live = x.w.boxes.size(); x.destroy(); str l = x.leakReport();
        if (problem.empty() && l.size()) problem = str(who) + (fl ? " (after a catastrophic failure): " : ": ") + l;
        if (problem.empty() && fl && x.w.ssRegistered && x.w.ssCleanups && live && x.w.enumerated < (int)live) problem = fmt("%zu live host objects, only %d enumerated", live, x.w.enumerated);
        if (fl) { c.count("catastrophic_deletes"); c.count("host_objects_enumerated", x.w.enumerated); }
    }
    void run() {
        v.w.al.failAt = failMain; v.w.al.failForever = forever; v.w.keys = o.keys; hook(v);
        if (!v.createBare()) { created = false; str l = v.leakReport(); if (l.size()) problem = "failed creation: " + l; if (!v.w.al.refused) problem = "creation failed though nothing was refused"; return; }
        chk("create machine"); v.w.cs = nkxCompilerCreate(v.vm()); chk("create compiler"); registerPrelude(v, false); chk("prelude");
        if (o.memRandom && r.pct(60)) setMax(v, nkxVmGetCurrentMemoryUsage(v.vm()) + r.below(r.pct(50) ? 60000 : 3000));
        NKValue *g = v.w.cs ? nkxCompilerCreateGlobalVariable(v.w.cs, "hostvar") : nullptr; if (g && !down(v)) nkxValueSetString(v.vm(), g, "predefined"); chk("predefine");
        if (v.w.cs) nkxCompilerCreateCFunctionVariable(v.w.cs, "hostfn", hostFn); chk("predefine function");
        session = r.pct(30);
        if (v.w.cs && session) { // as the interactive interpreter does it: run after each piece, go on after errors
            c.count("interactive_lives");
            for (auto &p : *o.ps) {
                uint32_t at = nkxCompilerGetInstructionWriteIndex(v.w.cs); nkxCompilerCompileScript(v.w.cs, p.text.c_str(), p.file.c_str()); chk("compile");
                for (int k = 0; k < 3 && problem.empty(); k++) {
                    if (!nkxVmHasErrors(v.vm())) { nkxCompilerPartiallyFinalize(v.w.cs); chk("partially finalize"); uint32_t n = 0; while (n < 1200 && !v.ended() && problem.empty()) { uint32_t q = 1 + r.below(300); nkxVmIterate(v.vm(), q); n += q; chk("run piece"); } hostOp(v); }
                    if (nkxVmHasErrors(v.vm())) { at = nkxCompilerGetInstructionWriteIndex(v.w.cs); nkxCompilerClearReplErrorState(v.w.cs, at); chk("clear errors"); if (problem.empty() && !down(v) && nkxVmHasErrors(v.vm())) problem = "errors remain after they were cleared"; if (down(v) && problem.empty() && !nkxVmHasErrors(v.vm())) problem = "a catastrophic failure was cleared"; }
                    nkxCompilerIsAtRootContext(v.w.cs); if (r.pct(50)) hostOp(v); if (nkxVmHasErrors(v.vm()) && !down(v)) { nkxCompilerClearReplErrorState(v.w.cs, nkxCompilerGetInstructionWriteIndex(v.w.cs)); chk("clear errors"); }
                    if (!down(v)) { nkxCompilerCompileScript(v.w.cs, r.pct(80) ? "out(\"next\");\nvar a1 = 4;\n" : "out(1;", "next"); chk("compile next"); }
                }
            }
        } else
        if (v.w.cs) { for (auto &p : *o.ps) { nkxCompilerCompileScript(v.w.cs, p.text.c_str(), p.file.c_str()); chk("compile"); if (r.pct(20)) hostOp(v); } }
        if (v.w.cs && r.pct(15)) { nkxCompilerCompileScript(v.w.cs, "out(1; }", "broken"); chk("compile error"); }
        v.finalize(); chk("finish compiling");
        Limits l; l.gcInterval = 1 + r.below(60); l.gcNew = 1 + r.below(30); v.limits(l);
        uint32_t n = 0; while (n < o.instr && !v.ended() && problem.empty()) { uint32_t s = 1 + r.below(r.pct(50) ? 30 : 400); nkxVmIterate(v.vm(), s); n += s; chk("run"); if (r.pct(40)) hostOp(v); }
        for (int i = r.range(2, 8); i-- > 0 && problem.empty();) hostOp(v);
        if (down(v)) { for (int i = 0; i < 12 && problem.empty(); i++) hostOp(v); nkxVmExecuteProgram(v.vm()); nkxVmIterate(v.vm(), 10); chk("poke after failure"); }
        if (t && problem.empty()) checkEnd(*t, "loaded machine"); if (problem.size()) { t.reset(); return; }
        t.reset(); checkEnd(v, "machine"); if (problem.empty() && v.created) problem = "not deleted";
    }
};
GenOpts small(Rng &r) { GenOpts g; g.stmts = r.range(3, 8); g.funcs = r.range(1, 3); g.depth = 2; g.boxes = true; g.handles = r.pct(40); g.coroHeavy = r.pct(50); g.objHeavy = r.pct(50); g.faultPct = 10; g.strHeavy = r.pct(40); return g; }
struct Prog { Program p; std::vector<str> files; std::vector<Piece> ps; ModelResult m; };
bool mk(Ctx &c, Rng &r, Prog &k, const GenOpts &g, uint64_t steps = 4000) { generate(k.p, r, g); PrintOpts po; po.r = &r; if (r.pct(30)) po.pieces = 2; k.ps = printProgram(k.p, po, &k.files); c.text(showPieces(k.ps)); ModelOpts mo; mo.maxSteps = steps; k.m = runModel(k.p, mo); if (k.m.discard) { c.count("discarded"); return false; } return true; }

// ------------------------------------------------------------ C02
void c02default(Ctx &c, Rng &r);
void c02(Ctx &c, Rng &r) {
    if (c.caseIdx % 16 == 5) { c02default(c, r); return; }
    Prog k; if (!mk(c, r, k, small(r), 1500)) return; c.sample(showPieces(k.ps));
    LifeOpts o; o.seed = r.next(); o.ps = &k.ps; o.keys = k.p.keys; o.load = r.pct(70);
    uint64_t n, nt = 0; { Life L(c, o); L.run(); c.evals++; if (L.problem.size()) { c.fail("clean life", L.problem + "\nduring " + L.op + "\n" + showPieces(k.ps)); return; } n = L.v.w.al.requests; }
    { LifeOpts p = o; Life L(c, p); L.failTarget = 0; L.run(); } 
    c.count("requests_in_clean_lives", n); c.maxi("requests", n);
    auto one = [&](uint64_t km, uint64_t kt, bool fv, const char *what) {
        Life L(c, o); L.failMain = km; L.failTarget = kt; L.forever = fv; L.run(); c.evals++; c.count("lives"); if (L.postOps) c.count("lives_with_failure"); c.count("calls_after_failure", L.postOps); c.count("calls", L.ops); c.count("calls_from_natives", L.nativeOps);
        c.distinct(hashStr(fmt("%s/%d", L.op, (int)(L.v.w.al.requests % 997)), o.seed ^ km * 31 ^ kt * 77 ^ fv));
        if (L.problem.size()) { c.fail(str(what), fmt("main request %llu, target request %llu refused%s, seed %llu, last call %s\n", (unsigned long long)km, (unsigned long long)kt, fv ? " and all later ones" : "", (unsigned long long)o.seed, L.op) + L.problem + "\n" + showPieces(k.ps)); return false; }
        return true;
    };
    int budget = c.thorough ? 400 : 60;
    if (n <= (uint64_t)budget * 2) { for (uint64_t i = 1; i <= n; i++) if (!one(i, 0, r.pct(50), "refused request")) return; }
    else { uint64_t w0 = 1 + r.next() % n; for (int i = 0; i < budget; i++) { uint64_t q = i < budget / 2 ? 1 + r.next() % n : 1 + (w0 + i) % n; if (!one(q, 0, r.pct(50), "refused request")) return; } }
    if (o.load) for (int i = 0; i < budget / 3; i++) { uint64_t q = 1 + r.below(i % 2 ? 120 : 600); if (!one(0, q, r.pct(50), "refused request while loading")) return; }
    for (int i = 0; i < budget / 3; i++) { LifeOpts q = o; q.memRandom = i % 2 == 0; q.force = !q.memRandom; q.seed = r.next(); Life L(c, q); L.run(); c.evals++; c.count(q.force ? "forced_failure_lives" : "memory_limit_lives"); if (L.postOps) c.count("lives_with_failure"); c.count("calls_after_failure", L.postOps); if (L.problem.size()) { c.fail(q.force ? "forced failure" : "memory limit", fmt("seed %llu, last call %s\n", (unsigned long long)q.seed, L.op) + L.problem + "\n" + showPieces(k.ps)); return; } }
}
// A life on the default allocator (nkxVmCreate), watched through the process heap.
str defOut; void defNative(NKVMFunctionCallbackData *d) { if (d->argumentCount == 1 && d->arguments[0].type == NK_VALUETYPE_INT && defOut.size() < 200) defOut += fmt("%d;", d->arguments[0].intData); }
void c02default(Ctx &c, Rng &r) {
    if (!__sanitizer_get_current_allocated_bytes) return; defOut.clear(); defOut.reserve(4096); c.count("default_allocator_lives");
    int n = r.range(1, 40); uint32_t cap = r.pct(50) ? 20000 + r.below(60000) : 0; bool bad = r.pct(20), early = r.pct(20); str t = fmt("var o = object();\nfor(var i = 0; i < %d; ++i) { o[i] = \"text\" + i; var p = object(); p.o = o; rec(i); }\n", n); if (bad) t += "o(1;\n"; if (cap) t += "while(1) { var q = object(); q.last = o; o.q = q; o = q; }\n"; str want; for (int i = 0; i < n; i++) want += fmt("%d;", i); c.text(t + fmt("limit %u", cap)); want.resize(std::min(want.size(), defOut.capacity()));
    int how = bad || cap ? r.below(2) : r.below(3); char path[512], dir[512]; snprintf(dir, sizeof dir, "%s", c.scratch.c_str()); snprintf(path, sizeof path, "%s/default.nks", dir); { FILE *f = fopen(path, "w"); if (!f) return; fwrite(t.data(), 1, t.size(), f); fclose(f); } if (how) c.count("compiled_from_files"); int fd0 = open("/dev/null", O_RDONLY); close(fd0);
    size_t before = __sanitizer_get_current_allocated_bytes(); bool created, failed, errs, hasAf;
    { NKVM *vm = nkxVmCreate(); created = vm != nullptr; if (!vm) { c.fail("default machine not created", ""); return; } NKCompilerState *cs = nkxCompilerCreate(vm); nkxVmSetupExternalFunction(vm, cs, "rec", defNative, nktrue, 1, NK_VALUETYPE_INT); if (how == 0) nkxCompilerCompileScript(cs, t.c_str(), "default"); else for (int i = 0; i < (how == 2 ? 20 : 1); i++) nkxCompilerCompileScriptFile(cs, how == 1 ? path : i % 2 ? "/dev/null/none" : dir); if (!early) nkxCompilerFinalize(cs); else { nkxCompilerPartiallyFinalize(cs); }
      if (cap) nkxSetMaxAllocatedMemory(vm, nkxVmGetCurrentMemoryUsage(vm) + cap); if (!bad) nkxVmExecuteProgram(vm); errs = nkxVmHasErrors(vm); hasAf = nkxVmHasAllocationFailure(vm); if (early) nkxCompilerFinalize(cs); nkxVmDelete(vm); }
    size_t after = __sanitizer_get_current_allocated_bytes(); c.evals++;
    int fd1 = open("/dev/null", O_RDONLY); close(fd1); unlink(path); if (fd1 != fd0) { c.fail("a compiled file stays open", fmt("descriptor %d, then %d", fd0, fd1)); return; }
    if (after > before) { c.fail("default machine keeps memory", fmt("%zu bytes before its creation, %zu after its deletion", before, after)); return; }
    if (how == 2) { if (!errs) c.fail("compiling a file that is not there succeeds", ""); return; }
    if (bad ? !errs : cap ? !hasAf : errs) { c.fail("default machine ends wrongly", fmt("errors %d, allocation failure %d", errs, hasAf)); return; }
    str w2; for (int i = 0; i < n && w2.size() < 200; i++) w2 += fmt("%d;", i); if (bad ? defOut.size() > 0 : cap ? w2.compare(0, defOut.size(), defOut) != 0 : defOut != w2) c.fail("default machine misbehaves", defOut + " instead of " + w2);
}
// ------------------------------------------------------------ C03
void c03(Ctx &c, Rng &r) {
    Prog k; GenOpts g = small(r); g.stmts += 6; if (!mk(c, r, k, g, 6000)) return; c.sample(showPieces(k.ps));
    for (int i = 0; i < 8; i++) {
        LifeOpts o; o.seed = r.next(); o.ps = &k.ps; o.keys = k.p.keys; o.load = r.pct(50); o.memRandom = i >= 3; o.instr = 60000;
        Life L(c, o); if (i == 2) L.failMain = 1 + r.below(2000); L.run(); c.evals++; c.count("accounting_checks", L.memChecks); c.count("checks_inside_natives", L.nativeChecks); c.count("calls", L.ops); c.count("calls_from_natives", L.nativeOps); if (o.memRandom) c.count("limited_lives"); if (L.postOps) c.count("lives_that_hit_a_limit"); c.maxi("bytes_in_use", L.v.w.al.peakBytes);
        c.distinct(L.v.w.al.requests * 131 + L.v.w.al.peakBytes);
        if (L.problem.size()) { c.fail("accounting", fmt("seed %llu, last call %s\n", (unsigned long long)o.seed, L.op) + L.problem + "\n" + showPieces(k.ps)); return; }
    }
    // exact limit: a machine limited to exactly the peak of a clean run must finish; one byte less must fail, never exceed
    uint64_t peak = 0; { Vm v; v.w.keys = k.p.keys; if (!v.build(k.ps)) return; v.run(); if (!v.ended()) return; peak = v.w.al.peakBytes; }
    for (int d = 0; d < 3; d++) {
        Vm v; v.w.keys = k.p.keys; if (!v.createBare()) return; uint32_t lim = (uint32_t)(peak - (d == 1 ? 1 : d == 2 ? 1 + r.below((uint32_t)peak / 2) : 0)); nkxSetMaxAllocatedMemory(v.vm(), lim); v.w.al.limitBytes = lim;
        v.w.cs = nkxCompilerCreate(v.vm()); registerPrelude(v, false); v.compile(k.ps); v.finalize(); v.run(); c.phase("exact limit"); c.evals++; c.count("exact_limit_runs"); bool f = nkxVmHasAllocationFailure(v.vm()); str why;
        if (!v.checkMem(why)) { c.fail("accounting", why + "\n" + showPieces(k.ps)); return; }
        if (v.w.al.overLimit) { c.fail("request beyond the configured maximum", showPieces(k.ps)); return; }
        if (d == 0 && f) { c.fail("stopped although the limit was never exceeded", fmt("peak %llu\n", (unsigned long long)peak) + showPieces(k.ps)); return; }
        if (d && !f) { c.fail("limit below the peak was not enforced", fmt("peak %llu limit %u\n", (unsigned long long)peak, lim) + showPieces(k.ps)); return; }
        v.destroy(); str l = v.leakReport(); if (l.size()) { c.fail("after the limit", l + "\n" + showPieces(k.ps)); return; }
    }
}
// ------------------------------------------------------------ C13
void c13(Ctx &c, Rng &r) {
    Prog k; GenOpts g = small(r); g.faultPct = 5; if (!mk(c, r, k, g, 1500)) return; c.sample(showPieces(k.ps));
    auto files = k.files; uint32_t T = 0; { Vm v; v.w.keys = k.p.keys; if (!v.build(k.ps)) return; while (!v.ended() && T < 8000) { v.step(1); T++; } if (!v.ended()) return; }
    uint32_t at = r.below(T + 1); int budget = c.thorough ? 300 : 40;
    auto ready = [&](Vm &v) { v.w.keys = k.p.keys; if (!v.build(k.ps)) return false; if (at) v.step(at); return true; };
    auto show = [&](const str &d) { return fmt("saved after %u of %u instructions\n", at, T) + d + "\n" + showPieces(k.ps); };
    auto judge = [&](Vm &v, const char *what) { v.run(); RunResult a; collect(v, &k.p, a); if (!v.ended()) a.timeout = true; str d = agree(a, k.m, files); c.evals++; if (d.size()) { c.fail(what, show(d)); return false; } str why; bool ok = v.checkMem(why); v.destroy(); str l = v.leakReport(); if (!ok) l += why; if (l.size()) { c.fail(str(what) + ": bookkeeping", show(l)); return false; } return true; };
    str img; uint64_t calls = 0, wcalls = 0; { Vm v; if (!ready(v)) return; if (!v.save(img)) { c.fail("save without faults failed", show("")); return; } wcalls = v.ioCalls; c.distinct(hashStr(img)); }
    { Vm t; t.create(false); if (!t.load(img)) { c.fail("load of a good image failed", show(t.errors())); return; } calls = t.ioCalls; if (t.ioRead != img.size()) { c.fail("load did not read the whole image", show(fmt("%zu of %zu", t.ioRead, img.size()))); return; } }
    c.count("image_bytes", img.size()); c.count("writer_calls", wcalls); c.count("reader_calls", calls);
    // failing writers
    { Vm v; if (!ready(v)) return; c.phase("failing writer");
      for (int i = 0; i < budget; i++) { bool once = r.pct(50); int64_t q = wcalls <= (uint64_t)budget ? i : (int64_t)(r.next() % wcalls); if (q >= (int64_t)wcalls) break; str part; bool ok = v.save(part, q, once); c.evals++; c.count("failed_writes", v.ioFailed); if (!v.ioFailed) { c.fail("save stopped calling the writer", show(fmt("call %lld", (long long)q))); return; } if (ok) { c.fail(once ? "save reported success though the writer failed once" : "save reported success though the writer failed", show(fmt("writer call %lld of %llu", (long long)q, (unsigned long long)wcalls))); return; } }
      c.count("machines_continued_after_failed_saves"); str again; if (!v.save(again)) { c.fail("save after failed saves failed", show(v.errors())); return; } if (again != img) { Vm t; t.create(false); if (!t.load(again)) { c.fail("image saved after failed saves does not load", show(t.errors())); return; } t.carry(v); if (!judge(t, "machine loaded from an image saved after failed saves")) return; }
      if (!judge(v, "after failed saves")) return; }
    // failing reads, cuts, mutated headers
    auto bad = [&](const str &im, int64_t failAt, size_t cut, bool once, const str &what, int prep) {
        Vm t; t.w.keys = k.p.keys; c.phase(what.c_str());
        if (prep == 0) { if (!t.create(false)) return false; }
        else { if (!t.createBare()) return false; t.loadTarget = true; // an incompletely prepared target
            if (prep == 2) { registerPrelude(t, true); nkxVmRegisterExternalType(t.vm(), "extra type", nullptr, nullptr, nullptr); }
            if (prep == 3) { t.w.box2Type = nkxVmRegisterExternalType(t.vm(), "box2", nullptr, nullptr, nullptr); registerPrelude(t, true); }
            if (prep == 4) { nkxVmRegisterExternalType(t.vm(), "box", nullptr, nullptr, nullptr); nkxVmRegisterExternalType(t.vm(), "box2", nullptr, nullptr, nullptr); nkxInitSubsystem(t.vm(), nullptr, "ss", nullptr, nullptr, nullptr); } }
        bool ok = t.load(im, failAt, cut, once); c.evals++; c.count("failed_loads");
        if (ok) { c.fail("load reported success: " + what, show("")); return false; }
        if (r.pct(30)) { nkxVmGarbageCollect(t.vm()); nkxGetErrorCount(t.vm()); t.errors(); }
        str why; bool mok = t.checkMem(why); t.destroy(); str l = t.leakReport(); if (!mok) l += why; if (l.size()) { c.fail("deleting a machine after a failed load: " + what, show(l)); return false; }
        return true; };
    for (int i = 0; i < budget; i++) { size_t cut = img.size() <= (size_t)budget ? (size_t)i : r.next() % img.size(); if (cut >= img.size()) break; if (!bad(img, -1, cut, false, "image cut short", 0)) return; }
    for (int i = 0; i < 3; i++) if (!bad(img, -1, img.size() - 1 - r.below(4), false, "image cut just before its end", 0)) return;
    for (int i = 0; i < budget; i++) { int64_t q = (int64_t)(r.next() % calls); bool once = r.pct(60); if (!bad(img, q, -1, once, once ? "reader failing once" : "failing reader", 0)) return; }
    for (int i = 0; i < 9; i++) { str m = img; m[i] = (char)(m[i] ^ (1 << r.below(8))); if (!bad(m, -1, -1, false, i < 5 ? "foreign header" : "other version", 0)) return; }
    if (!bad(img, -1, -1, false, "target without any functions or types", 1)) return;
    if (!bad(img, -1, -1, false, "target with an additional type", 2)) return;
    if (!bad(img, -1, -1, false, "target with types in another order", 3)) return;
    if (!bad(img, -1, -1, false, "target without functions", 4)) return;
    if (!bad("", -1, -1, false, "empty image", 0)) return;
}
// ------------------------------------------------------------ C16
str body(int locals) { str s; for (int i = 0; i < locals; i++) s += fmt("var v%d = %d;\n", i, i); return s; }
struct Outcome { bool err = false, alloc = false; str msg, trace; uint64_t biggest = 0; };
Outcome runText(Ctx &c, const str &t, uint32_t stack, uint32_t fields, str *problem, uint32_t cap = 2000000) {
    Vm v; Outcome o; c.text(t); v.create(); if (stack) nkxSetMaxStackSize(v.vm(), stack); if (fields) nkxSetMaxFieldsPerObject(v.vm(), fields);
    v.compile({{t, "s"}}); v.finalize(); v.run(cap); if (!v.ended()) *problem = "did not finish"; o.err = v.hasErrors(); o.alloc = nkxVmHasAllocationFailure(v.vm()); o.msg = v.errors(); o.trace = v.w.trace;
    // the machine stays consistent: inspection, collection, saving, shrinking, deletion
    nkxVmGarbageCollect(v.vm()); FILE *f = fopen("/dev/null", "w"); nkxDbgDumpState(v.vm(), t.c_str(), f); fclose(f); v.global("out"); str img; v.save(img); nkxVmShrink(v.vm()); nkxVmGarbageCollect(v.vm()); str why; if (!v.checkMem(why)) *problem = why; v.destroy(); str l = v.leakReport(); if (l.size()) *problem = l; c.evals++; return o;
}
bool stackErr(const Outcome &o) { return o.err && (o.msg.find("tack") != str::npos); }
void c16stack(Ctx &c, Rng &r) {
    // kinds of growth; each is parameterised by a count n and must succeed below some threshold and fail above it
    int kind = r.below(6); str what; uint32_t per = 1;
    auto make = [&](int n) -> str {
        switch (kind) {
        case 0: what = "locals in a block"; return "{\n" + body(n) + "out(1);\n}\nout(2);\n";
        case 1: what = "recursion"; return fmt("function f(n) { if(n > 0) { return 1 + f(n - 1); } return 0; }\nout(f(%d));\nout(2);\n", n);
        case 2: { what = "arguments of a call"; str s = "out(id(1)"; for (int i = 0; i < n; i++) s += ", 1"; return s + ");\nout(2);\n"; }
        case 3: { what = "nested expression"; str s = "var a = 1;\nout("; for (int i = 0; i < n; i++) s += "a+("; s += "a"; for (int i = 0; i < n; i++) s += ")"; return s + ");\nout(2);\n"; }
        case 4: what = "recursion inside a coroutine"; return fmt("function g(n) { if(n > 0) { return 1 + g(n - 1); } yield(5); return 0; }\nvar c = coroutine(g, %d); out(resume(c)); out(resume(c));\nout(2);\n", n);
        default: what = "locals in a function"; return "function f() {\n" + body(n) + "out(1);\n}\nf();\nout(2);\n";
        }
    };
    auto passes = [&](int n, uint32_t lim, str *pb) { Outcome o = runText(c, make(n), lim, 0, pb); if (o.alloc && pb->empty()) *pb = "memory exhaustion instead of an error"; if (o.err && !stackErr(o) && pb->empty()) *pb = "unexpected error: " + o.msg; bool done = o.trace.find("out i2\n") != str::npos; if (o.err == done && pb->empty()) *pb = o.err ? "ran on after the error" : "ended without error before the end"; return !o.err; };
    auto threshold = [&](uint32_t lim, int hi, str *pb) { int lo = 0; if (passes(hi, lim, pb)) { *pb = "no stack error at all"; return 0; } while (hi - lo > 1 && pb->empty()) { int m = (lo + hi) / 2; if (passes(m, lim, pb)) lo = m; else hi = m; } return lo; };
    uint32_t maxL = kind == 3 || kind == 2 ? 32 : 1024; uint32_t L = 32; while (L < maxL && r.pct(70)) L *= 2;
    uint32_t odd = L + r.below(L); str pb; make(1); c.phase(what.c_str());
    int t1 = threshold(L, (int)L * 2, &pb); if (pb.size()) { c.fail("stack limit: " + what, fmt("limit %u\n", L) + pb); return; }
    int t2 = threshold(L * 2, (int)L * 4, &pb); if (pb.size()) { c.fail("stack limit: " + what, fmt("limit %u\n", L * 2) + pb); return; }
    int t3 = threshold(odd, (int)L * 2, &pb); if (pb.size()) { c.fail("stack limit: " + what, fmt("limit %u\n", odd) + pb); return; }
    c.count("stack_thresholds", 3); c.distinct(hashStr(what, L * 7919 + odd)); c.count(("kind_" + what).c_str());
    if (t3 != t1) { c.fail("a limit is not rounded down to a power of two", what + fmt(": limit %u reached at %d, limit %u at %d", L, t1, odd, t3)); return; }
    // the stack is used linearly: n items cost slope*n + offset slots
    int slope = 0; for (int s = 1; s <= 8 && !slope; s++) if (kind == 1 || kind == 4) { if (std::abs((t2 - t1) * s - (int)L) <= s + 1) slope = s; } else if (t2 - t1 == (int)L / s && (int)L % s == 0) slope = s;
    if (!slope) { c.fail("the usable stack does not scale with the limit", what + fmt(": limit %u reached at %d, limit %u at %d", L, t1, L * 2, t2)); return; }
    int off = (int)L - t1 * slope; if (off < 0 || off > 24 * slope + 30) { c.fail("the usable stack differs from the limit", what + fmt(": limit %u reached at %d (slope %d)", L, t1, slope)); return; }
    c.sample(what + fmt(": limit %u reached at %d, limit %u at %d, slope %d", L, t1, L * 2, t2, slope));
}
void c16big(Ctx &c, Rng &r) {
    // built-in maximum, whatever the configured size; recursion without bound in several shapes
    static const char *sh[] = {"function f(n) { return f(n + 1) + 1; }\nout(f(0));", "function f(n) { var o = object(); o[\"f\"] = f; return o[\"f\"](n) + 1; }\nout(f(0));", "function a(n) { return b(n); }\nfunction b(n) { return a(n); }\nout(1);", "function f(n) { var x = coroutine(f, n); return resume(x); }\nout(f(0));", "function f(n) { cb(f, n); }\nout(1); f(0);", "var g = coroutine(function(n) { function h(k) { return h(k + 1) + n; } return h(0); }, 1); out(resume(g));"};
    int i = r.below(6); if (i == 2) i = 0; if (i == 3 || i == 4) { c.count("deep_nesting_runs"); }
    Vm v; str t = str(sh[i]) + "\nout(99);\n"; c.text(t); c.phase("unbounded recursion"); v.create(); uint32_t lim = r.pct(40) ? 0 : r.pct(50) ? 0xffffffffu : 1u << r.range(5, 20); if (lim) nkxSetMaxStackSize(v.vm(), lim); if (lim && nkxGetMaxStackSize(v.vm()) != lim) { c.fail("stack limit query", t); return; }
    nkxSetMaxAllocatedMemory(v.vm(), 256u << 20); v.w.al.limitBytes = 256u << 20; v.compile({{t, "s"}}); v.finalize(); nkxSetRemainingInstructionLimit(v.vm(), i == 3 ? 60000 : 2000000); v.run(3000000); c.evals++; c.count("unbounded_recursions"); c.maxi("peak_bytes", v.w.al.peakBytes);
    if (!v.hasErrors()) { c.fail("unbounded recursion ended without error", t); return; }
    if (v.w.trace.find("out i99") != str::npos) { c.fail("execution continued after the stack limit", t); return; }
    if (i < 2 && nkxVmHasAllocationFailure(v.vm())) { c.fail("unbounded recursion exhausted memory instead of the stack", t); return; }
    if (i < 2 && v.w.al.peakBytes > (uint64_t)(lim && lim < 65536 ? lim : 65536) * 2 * sizeof(NKValue) * 2 + (24u << 20)) { c.fail("stack memory beyond the limit", t + fmt("peak %llu", (unsigned long long)v.w.al.peakBytes)); return; }
    nkxVmGarbageCollect(v.vm()); str why; if (!v.checkMem(why)) { c.fail("accounting", why); return; } v.destroy(); str l = v.leakReport(); if (l.size()) c.fail("after unbounded recursion", l + "\n" + t); c.distinct(hashStr(t, lim));
}
void c16fields(Ctx &c, Rng &r) {
    uint32_t F = r.pct(30) ? 1 + r.below(4) : 1 + r.below(200); bool host = r.pct(40); c.phase("field limit"); c.count("field_limit_runs");
    auto keyText = [&](int i, int kindk) { switch (kindk % 3) { case 0: return fmt("%d", i); case 1: return fmt("\"k%d\"", i); default: return fmt("%d.5", i); } };
    int kk = r.below(3), mixk = r.pct(50);
    Vm v; v.create(); nkxSetMaxFieldsPerObject(v.vm(), F); if (nkxGetMaxFieldsPerObject(v.vm()) != F) { c.fail("field limit query", fmt("%u", F)); return; }
    str t = "var o = object();\nvar p = object();\n"; int n = (int)F; if (!host) for (int i = 0; i < n; i++) t += "o[" + keyText(i, mixk ? i : kk) + "] = " + fmt("%d;\n", i);
    t += "out(1);\n";
    if (!host) { int i = r.below(F); t += "o[" + keyText(i, mixk ? i : kk) + "] = 1000;\nout(o[" + keyText(i, mixk ? i : kk) + "]);\n"; int j = r.below(F); t += "o[" + keyText(j, mixk ? j : kk) + "] = nil;\n" + fmt("o[\"again\"] = 5; out(o[\"again\"]);\n"); t += "p[1] = 2; out(p[1]); dump(o);\nout(777);\n"; int form = r.below(3); t += form == 0 ? "o[\"one too many\"] = 1;\nout(888);\n" : form == 1 ? "o.another = 1;\nout(888);\n" : "o[p] = 1;\nout(888);\n"; }
    c.text(t); v.compile({{t, "s"}}); v.finalize(); v.run(); c.evals++; c.distinct(hashStr(t, F));
    auto bad = [&](const char *m) { c.fail(str("field limit: ") + m, fmt("limit %u\n", F) + v.errors() + "\n" + v.w.trace + "\n" + t); };
    NKValue *go = nkxVmFindGlobalVariable(v.vm(), nullptr, "o"); if (!go) { bad("global lost"); return; } NKValue ob = *go;
    if (host) {
        if (v.hasErrors()) { bad("error before the limit"); return; }
        NKValue key; memset(&key, 0, sizeof key); bool hasNull = false; for (uint32_t i = 0; i < F + 3; i++) { if (mixk && i % 2) nkxValueSetString(v.vm(), &key, fmt("s%u", i).c_str()); else nkxValueSetInt(v.vm(), &key, (int)i); NKValue *e = nkxVmObjectFindOrAddEntry(v.vm(), &ob, &key, nkfalse); if (i < F) { if (!e || v.hasErrors()) { bad("host store below the limit refused"); return; } nkxValueSetInt(v.vm(), e, (int)i * 3); } else { if (e) { bad("host store beyond the limit accepted"); return; } hasNull = true; if (nkxVmObjectFindOrAddEntry(v.vm(), &ob, &key, nktrue)) { bad("an entry beyond the limit exists"); return; } } if (nkxVmObjectGetSize(v.vm(), &ob) > F) { bad("size beyond the limit"); return; } }
        if (!hasNull || !v.hasErrors()) { bad("no error at the limit"); return; }
        for (uint32_t i = 0; i < F; i++) { if (mixk && i % 2) nkxValueSetString(v.vm(), &key, fmt("s%u", i).c_str()); else nkxValueSetInt(v.vm(), &key, (int)i); NKValue *e = nkxVmObjectFindOrAddEntry(v.vm(), &ob, &key, nktrue); if (!e || e->type != NK_VALUETYPE_INT || e->intData != (int)i * 3) { bad("stored entry lost or changed"); return; } }
        uint32_t before = nkxVmObjectGetSize(v.vm(), &ob); for (uint32_t i = 0; i < F + 3; i++) { if (mixk && i % 2) nkxValueSetString(v.vm(), &key, fmt("s%u", i).c_str()); else nkxValueSetInt(v.vm(), &key, (int)i); nkxVmObjectClearEntry(v.vm(), &ob, &key); }
        if (before != F || nkxVmObjectGetSize(v.vm(), &ob) != 0) { bad("size wrong after the limit error"); return; }
    } else {
        if (v.w.trace.find("out i777\n") == str::npos) { bad("script stopped before the limit"); return; }
        if (v.w.trace.find("out i888\n") != str::npos || !v.hasErrors()) { bad("no error at the limit"); return; }
        if (nkxVmHasAllocationFailure(v.vm())) { bad("memory exhaustion instead of an error"); return; }
        if (nkxVmObjectGetSize(v.vm(), &ob) != F) { bad("object size differs from the limit"); return; }
        NKValue key; memset(&key, 0, sizeof key); nkxValueSetString(v.vm(), &key, "one too many"); if (nkxVmObjectFindOrAddEntry(v.vm(), &ob, &key, nktrue)) { bad("an entry beyond the limit exists"); return; }
    }
    nkxVmGarbageCollect(v.vm()); FILE *f = fopen("/dev/null", "w"); nkxDbgDumpState(v.vm(), t.c_str(), f); fclose(f); str img; v.save(img); nkxVmShrink(v.vm()); str why; if (!v.checkMem(why)) { bad(why.c_str()); return; } v.destroy(); str l = v.leakReport(); if (l.size()) c.fail("field limit: afterwards", l + "\n" + t);
}
void c16(Ctx &c, Rng &r) { int w = r.below(10); if (w < 5) c16fields(c, r); else if (w < 8) c16stack(c, r); else c16big(c, r); }
}
ENGINE(C02, c02); ENGINE(C03, c03); ENGINE(C13, c13); ENGINE(C16, c16);

#include "vm.hpp"
#include <cmath>

thread_local Alloc *Alloc::tls = nullptr;
void *Alloc::get(uint32_t size) {
    requests++;
    if (failAt && (requests == failAt || (failForever && requests > failAt))) { refused++; return nullptr; }
    if (size > (512u << 20)) { refused++; return nullptr; }
    if (limitBytes && vmBytes() + size > limitBytes && firstPtr) overLimit++;
    void *p = malloc(size ? size : 1); if (!p) { refused++; return nullptr; }
    memset(p, 0xC7, size); MS_FRESH(p, size);
    if (!firstPtr) { firstPtr = p; firstSize = size; }
    live[p] = size; liveBytes += size; uint64_t v = vmBytes(); if (v > peakBytes) peakBytes = v;
    return p;
}
void Alloc::put(void *p) {
    frees++;
    if (!p) { sawNull = true; return; }
    auto it = live.find(p); if (it == live.end()) { badFree = true; return; }
    liveBytes -= it->second; MS_GONE(p, it->second); memset(p, 0xD9, it->second); live.erase(it); free(p);
}
void *Alloc::cbMalloc(nkuint32_t size, void *ud) {
    Alloc *a = (Alloc *)ud; if (!a || a->magic != 0xA110C8) { a = tls; if (!a) abort(); a->badUser = true; } return a->get(size);
}
void Alloc::cbFree(void *p, void *ud) {
    Alloc *a = (Alloc *)ud; if (!a || a->magic != 0xA110C8) { a = tls; if (!a) abort(); a->badUser = true; } a->put(p);
}
void World::rec(const str &s) { if (trace.size() > traceMax) return; trace += s; trace += "\n"; records++; }

static World *W(NKVM *vm) { return (World *)nkxGetUserData(vm); }
static const uint32_t MAGIC = 0xB0B0CAFE;

bool isBoxObj(World &w, NKValue *v) { return v->type == NK_VALUETYPE_OBJECTID && w.boxType.id != NK_INVALID_VALUE && nkxVmObjectGetExternalType(w.vm, v).id == w.boxType.id; }
bool isCoroObj(World &w, NKValue *v) {
    if (v->type != NK_VALUETYPE_OBJECTID) return false;
    NKVMExternalDataTypeID t = nkxVmObjectGetExternalType(w.vm, v); if (t.id == NK_INVALID_VALUE) return false;
    const char *n = nkxVmGetExternalTypeName(w.vm, t); return n && !strcmp(n, "coroutine");
}
str canonV(World &w, NKValue *v, std::map<uint64_t, int> &ids) {
    switch (v->type) {
    case NK_VALUETYPE_INT: return fmt("i%d", v->intData);
    case NK_VALUETYPE_FLOAT: { if (std::isnan(v->floatData)) return "fNaN"; uint32_t b; memcpy(&b, &v->floatData, 4); return fmt("f%08x", b); }
    case NK_VALUETYPE_STRING: { const char *s = nkxValueToString(w.vm, v); if (!s) return "s?NULL"; return fmt("s%zu:", strlen(s)) + visible(s); }
    case NK_VALUETYPE_NIL: return "n";
    case NK_VALUETYPE_FUNCTIONID: { int k = ids.insert({(1ull << 40) | v->functionId.id, (int)ids.size()}).first->second; return fmt("F%d", k); }
    case NK_VALUETYPE_OBJECTID: {
        int k = ids.insert({v->objectId, (int)ids.size()}).first->second; uint32_t n = nkxVmObjectGetSize(w.vm, v);
        if (isCoroObj(w, v)) return fmt("C%d#%u", k, n);
        if (isBoxObj(w, v)) { Box *b = (Box *)nkxVmObjectGetExternalData(w.vm, v); if (!b || b->magic != MAGIC) return fmt("B%d:BAD#%u", k, n); return fmt("B%d:%d#%u", k, b->payload, n); }
        return fmt("O%d#%u", k, n); }
    default: return fmt("?type%u", (unsigned)v->type_uint);
    }
}
void dumpV(World &w, NKValue *v, std::map<uint64_t, int> &ids, int depth, str &out) {
    bool seen = v->type == NK_VALUETYPE_OBJECTID && ids.count(v->objectId);
    out += canonV(w, v, ids);
    if (v->type != NK_VALUETYPE_OBJECTID || seen || depth <= 0) return;
    NKValue ob = *v;
    out += "{";
    for (auto &k : w.keys) {
        NKValue kv; memset(&kv, 0, sizeof kv);
        if (k.t == 'i') nkxValueSetInt(w.vm, &kv, k.i); else if (k.t == 'f') nkxValueSetFloat(w.vm, &kv, k.f); else nkxValueSetString(w.vm, &kv, k.s.c_str());
        if (nkxVmHasAllocationFailure(w.vm)) return;
        NKValue *e = nkxVmObjectFindOrAddEntry(w.vm, &ob, &kv, nktrue);
        if (!e) continue;
        NKValue val = *e;
        out += (k.t == 'i' ? fmt("%d", k.i) : k.t == 'f' ? fmt("%gf", k.f) : visible(k.s)) + "=";
        dumpV(w, &val, ids, depth - 1, out); out += ";";
    }
    if (isBoxObj(w, &ob)) { Box *b = (Box *)nkxVmObjectGetExternalData(w.vm, &ob); if (b && b->magic == MAGIC) { NKValue h = b->held; out += "held="; dumpV(w, &h, ids, depth - 1, out); } }
    out += "}";
}
// ------------------------------------------------------------------ natives
typedef NKVMFunctionCallbackData CB;
static void n_out(CB *d) { World *w = W(d->vm); w->nativeCalls++; str s = "out"; std::map<uint64_t, int> ids; for (uint32_t i = 0; i < d->argumentCount; i++) s += " " + canonV(*w, &d->arguments[i], ids); if (nkxVmHasAllocationFailure(d->vm)) return; w->rec(s); }
static void n_dump(CB *d) { World *w = W(d->vm); w->nativeCalls++; str s = "dump"; std::map<uint64_t, int> ids; for (uint32_t i = 0; i < d->argumentCount; i++) { s += " "; dumpV(*w, &d->arguments[i], ids, 3, s); } if (nkxVmHasAllocationFailure(d->vm)) return; w->rec(s); }
static void n_tick(CB *d) { World *w = W(d->vm); w->ticks++; if (w->onTick) w->onTick(*w); }
static void n_id(CB *d) { if (d->argumentCount != 1) { nkxAddError(d->vm, "id: bad argument count"); return; } d->returnValue = d->arguments[0]; }
static void n_cb(CB *d) {
    World *w = W(d->vm); w->nativeCalls++;
    if (d->argumentCount < 1) { nkxAddError(d->vm, "cb: no function"); return; }
    NKValue ret; memset(&ret, 0, sizeof ret); nkxValueSetNil(d->vm, &ret);
    nkxVmCallFunction(d->vm, &d->arguments[0], d->argumentCount - 1, d->arguments + 1, &ret);
    d->returnValue = ret;
}
static Box *boxArg(CB *d, uint32_t i) {
    World *w = W(d->vm); Box *b = (Box *)nkxFunctionCallbackGetExternalDataArgument(d, "box", i, w->boxType);
    if (b && b->magic != MAGIC) { w->note += "host data pointer of a box is not what was set; "; return nullptr; }
    return b;
}
static Box *newBox(World *w, int payload) { Box *b = new Box(); b->id = w->nextBox++; b->payload = payload; memset(&b->held, 0, sizeof b->held); b->held.type = NK_VALUETYPE_NIL; b->w = w; b->magic = MAGIC; w->boxes[b->id] = b; return b; }
static void n_box(CB *d) {
    World *w = W(d->vm); w->nativeCalls++;
    if (!nkxFunctionCallbackCheckArguments(d, "box", 1, NK_VALUETYPE_INT)) return;
    NKValue o; memset(&o, 0, sizeof o); nkxValueSetNil(d->vm, &o); nkxCreateObject(d->vm, &o); if (nkxVmHasAllocationFailure(d->vm)) return;
    Box *b = newBox(w, d->arguments[0].intData);
    if (!nkxVmObjectSetExternalType(d->vm, &o, w->boxType) || !nkxVmObjectSetExternalData(d->vm, &o, b)) { if (!nkxVmObjectGetExternalData(d->vm, &o)) { w->boxes.erase(b->id); delete b; } return; }
    d->returnValue = o;
}
static void n_boxget(CB *d) { Box *b = boxArg(d, 0); if (!b) return; nkxValueSetInt(d->vm, &d->returnValue, b->payload); }
static void n_boxset(CB *d) { if (d->argumentCount != 2 || d->arguments[1].type != NK_VALUETYPE_INT) { nkxAddError(d->vm, "boxset: bad arguments"); return; } Box *b = boxArg(d, 0); if (!b) return; b->payload = d->arguments[1].intData; d->returnValue = d->arguments[0]; }
static void n_boxref(CB *d) { if (d->argumentCount != 2) { nkxAddError(d->vm, "boxref: bad arguments"); return; } Box *b = boxArg(d, 0); if (!b) return; b->held = d->arguments[1]; d->returnValue = d->arguments[1]; }
static void n_boxderef(CB *d) { Box *b = boxArg(d, 0); if (!b) return; d->returnValue = b->held; }
static void n_fail(CB *d) { nkxAddError(d->vm, "deliberate native failure"); }
static void bad(CB *d, const char *m) { W(d->vm)->note += str("native entered with wrong arguments: ") + m + "; "; }
static void n_nt_i(CB *d) { if (d->argumentCount != 1 || d->arguments[0].type != NK_VALUETYPE_INT) { bad(d, "nt_i"); return; } nkxValueSetInt(d->vm, &d->returnValue, (int)((uint32_t)d->arguments[0].intData + 1u)); }
static void n_nt_if(CB *d) { if (d->argumentCount != 2 || d->arguments[0].type != NK_VALUETYPE_INT || d->arguments[1].type != NK_VALUETYPE_FLOAT) { bad(d, "nt_if"); return; } d->returnValue = d->arguments[1]; }
static void n_nt_s(CB *d) { if (d->argumentCount != 1 || d->arguments[0].type != NK_VALUETYPE_STRING) { bad(d, "nt_s"); return; } const char *s = nkxValueToString(d->vm, &d->arguments[0]); nkxValueSetInt(d->vm, &d->returnValue, s ? (int)strlen(s) : -1); }
static void n_nt_fo(CB *d) { if (d->argumentCount != 3 || d->arguments[0].type != NK_VALUETYPE_FUNCTIONID || d->arguments[1].type != NK_VALUETYPE_OBJECTID) { bad(d, "nt_fo"); return; } d->returnValue = d->arguments[2]; }
static void n_nt_sw(CB *d) { if (d->argumentCount != 2 || d->arguments[1].type != NK_VALUETYPE_STRING) { bad(d, "nt_sw"); return; } d->returnValue = d->arguments[1]; }
static void n_nt_0(CB *d) { if (d->argumentCount != 0) { bad(d, "nt_0"); return; } nkxValueSetInt(d->vm, &d->returnValue, 77); }
static void n_keep(CB *d) { World *w = W(d->vm); if (d->argumentCount != 1 || d->arguments[0].type != NK_VALUETYPE_OBJECTID) { nkxAddError(d->vm, "keep: bad argument"); return; } nkxVmObjectAcquireHandle(d->vm, &d->arguments[0]); if (nkxVmHasAllocationFailure(d->vm)) return; w->kept.push_back(d->arguments[0]); nkxValueSetInt(d->vm, &d->returnValue, ++w->handles[d->arguments[0].objectId]); if ((int)nkxVmObjectGetExternalHandleCount(d->vm, &d->arguments[0]) != d->returnValue.intData) w->note += "handle count wrong after acquire; "; }
static void n_drop(CB *d) {
    World *w = W(d->vm); if (d->argumentCount != 1 || d->arguments[0].type != NK_VALUETYPE_OBJECTID || w->handles[d->arguments[0].objectId] <= 0) { nkxAddError(d->vm, "drop: bad argument"); return; }
    nkxVmObjectReleaseHandle(d->vm, &d->arguments[0]); if (nkxVmHasAllocationFailure(d->vm)) return; int n = --w->handles[d->arguments[0].objectId]; for (size_t i = w->kept.size(); i--;) if (w->kept[i].objectId == d->arguments[0].objectId) { w->kept.erase(w->kept.begin() + i); break; } if ((int)nkxVmObjectGetExternalHandleCount(d->vm, &d->arguments[0]) != n) w->note += "handle count wrong after release; "; nkxValueSetInt(d->vm, &d->returnValue, n);
}

static void boxCleanup(NKVM *vm, NKValue *v, void *data) {
    World *w = W(vm); w->cleanups++; Box *b = (Box *)data;
    if (!b) { w->nullCleanups++; return; }
    bool known = false; for (auto &p : w->boxes) if (p.second == b) known = true;
    if (!known) { w->doubleCleanups++; return; }
    w->cleaned[b->id]++; w->boxes.erase(b->id); b->magic = 0; delete b;
}
static void boxMark(NKVM *vm, NKValue *v, void *data, NKVMGCState *st) { World *w = W(vm); w->marks++; Box *b = (Box *)data; if (!b) { w->nullMarks++; return; } if (b->magic != MAGIC) { w->note += "mark callback with wrong data; "; return; } nkxVmGarbageCollect_markValue(vm, st, &b->held); }
static void boxSerialize(NKVM *vm, NKValue *v, void *data) {
    World *w = W(vm); w->boxSer++;
    if (nkxSerializerGetWriteMode(vm)) {
        Box *b = (Box *)data; if (!b || b->magic != MAGIC) { w->note += "serializer with wrong data; "; return; }
        w->serLog.push_back(b->id);
        int x[2] = {b->payload, b->id}; nkxSerializeData(vm, x, sizeof x); nkxSerializeData(vm, &b->held, sizeof b->held);
    } else {
        if (data) w->note += "serializer in read mode got data; ";
        int x[2] = {0, 0}; NKValue h; memset(&h, 0, sizeof h);
        if (!nkxSerializeData(vm, x, sizeof x) || !nkxSerializeData(vm, &h, sizeof h)) { return; }
        Box *b = newBox(w, x[0]); b->held = h; w->boxLoads++; w->serLog.push_back(x[1]);
        if (!nkxVmObjectSetExternalData(vm, v, b)) { w->boxes.erase(b->id); delete b; }
    }
}
static void ssCleanup(NKVM *vm, void *data) {
    World *w = W(vm); w->ssCleanups++; if (data != w->ssPtr) w->ssBad++;
    if (!nkxVmHasAllocationFailure(vm)) return;
    // The machine will not run the clean-up routines of objects any more: release their data here.
    w->ssCatastrophic++;
    if (w->boxType.id == NK_INVALID_VALUE) return;
    NKValue v; uint32_t i = 0; int n = 0;
    while (nkxGetNextObjectOfExternalType(vm, w->boxType, &v, &i)) {
        if (++n > 1000000) { w->note += "enumeration of host objects does not end; "; break; }
        Box *b = (Box *)nkxVmObjectGetExternalData(vm, &v); if (!b) continue;
        bool known = false; for (auto &p : w->boxes) if (p.second == b) known = true;
        if (!known) { w->doubleCleanups++; continue; }
        w->boxes.erase(b->id); b->magic = 0; delete b; nkxVmObjectSetExternalData(vm, &v, nullptr); w->enumerated++;
    }
    if (w->boxes.size()) w->note += fmt("%zu live host objects cannot be enumerated after a catastrophic failure; ", w->boxes.size());
}
static void ssSerialize(NKVM *vm, void *data) {
    World *w = W(vm); w->ssSer++; if (data != w->ssPtr) w->ssBad++;
    int x = w->ssData; nkxSerializeData(vm, &x, sizeof x); if (!nkxSerializerGetWriteMode(vm)) { w->ssLoaded = x; w->ssData = x; }
}
struct Nat { const char *n; NKVMFunctionCallback f; };
template <NKVMFunctionCallback F> static void hooked(CB *d) { World *w = W(d->vm); if (w->onNat) w->onNat(*w); F(d); }
static const Nat plain[] = {{"out", hooked<n_out>}, {"dump", hooked<n_dump>}, {"cb", hooked<n_cb>}, {"id", hooked<n_id>}, {"box", hooked<n_box>}, {"boxget", hooked<n_boxget>}, {"boxset", hooked<n_boxset>}, {"boxref", hooked<n_boxref>}, {"boxderef", hooked<n_boxderef>}, {"fail", hooked<n_fail>}, {"tick", hooked<n_tick>}, {"keep", hooked<n_keep>}, {"drop", hooked<n_drop>}};

static const char *const MORE[] = {"more0", "more1", "more2", "more3", "more4", "more5", "more6", "more7"};
template <int N> static void n_more(CB *d) { nkxValueSetInt(d->vm, &d->returnValue, 9000 + N); }
static const NKVMFunctionCallback MOREF[] = {n_more<0>, n_more<1>, n_more<2>, n_more<3>, n_more<4>, n_more<5>, n_more<6>, n_more<7>};
// Every native, also one no script of this machine has ever mentioned, is still itself when the host makes a function value of it.
bool Vm::nativesOk(str &why, uint64_t &n) {
    if (hasErrors()) return true; Alloc::tls = &w.al;
    for (int i = 0; i <= 8; i++) {
        NKVMExternalFunctionID e = nkxVmRegisterExternalFunction(w.vm, i < 8 ? MORE[i] : "id", i < 8 ? MOREF[i] : hooked<n_id>); NKVMInternalFunctionID f = nkxVmGetOrCreateInternalFunctionForExternalFunction(w.vm, e), f2 = nkxVmGetOrCreateInternalFunctionForExternalFunction(w.vm, e);
        if (f.id != f2.id) { why = fmt("two function objects for native %d", i); return false; }
        NKValue v, a, r; memset(&v, 0, sizeof v); memset(&a, 0, sizeof a); memset(&r, 0, sizeof r); nkxValueSetFunction(w.vm, &v, f); nkxValueSetInt(w.vm, &a, 9008); nkxVmCallFunction(w.vm, &v, 1, &a, &r); n++;
        if (hasErrors() || r.type != NK_VALUETYPE_INT || r.intData != 9000 + i) { why = fmt("function value of native %d does not call it: type %d, value %d; ", i, (int)r.type, r.intData) + errors(); return false; }
    }
    return true;
}
void registerPrelude(Vm &v, bool target) {
    World &w = v.w; NKVM *vm = w.vm; NKCompilerState *cs = target ? nullptr : w.cs; nkbool g = cs ? nktrue : nkfalse;
    w.boxType = nkxVmRegisterExternalType(vm, "box", boxSerialize, boxCleanup, boxMark);
    w.box2Type = nkxVmRegisterExternalType(vm, "box2", nullptr, nullptr, nullptr);
    w.ssPtr = &w.ssData; w.ssRegistered = nkxInitSubsystem(vm, cs, "ss", w.ssPtr, ssCleanup, ssSerialize) && !nkxVmHasAllocationFailure(vm);
    NKVMExternalDataTypeID any = {NK_INVALID_VALUE}; std::vector<std::function<void()>> todo;
    for (auto &p : plain) { auto *q = &p; todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, q->n, q->f, g, NK_INVALID_VALUE); }); }
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_i", n_nt_i, g, 1, NK_VALUETYPE_INT); });
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_if", n_nt_if, g, 2, NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT); });
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_s", n_nt_s, g, 1, NK_VALUETYPE_STRING); });
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_fo", n_nt_fo, g, 3, NK_VALUETYPE_FUNCTIONID, NK_VALUETYPE_OBJECTID, any, NK_VALUETYPE_NIL); });
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_sw", n_nt_sw, g, 2, NK_VALUETYPE_NIL, NK_VALUETYPE_STRING); });
    todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, "nt_0", n_nt_0, g, 0); });
    if (target && w.shuffle) {   // a target may register things in another order, and more of them
        Rng r(w.shuffle);
        for (int i = r.below(6); i > 0; i--) todo.push_back([=] { nkxVmSetupExternalFunction(vm, cs, MORE[i], MOREF[i], g, NK_INVALID_VALUE); });
        for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[r.below((uint32_t)i)]);
        nkxInitSubsystem(vm, cs, "ssmore", nullptr, nullptr, nullptr);
    }
    for (auto &t : todo) t();
}
// ------------------------------------------------------------------ machine
bool Vm::createBare() {
    Alloc::tls = &w.al; NKVMCreateParams cp; cp.mallocReplacement = Alloc::cbMalloc; cp.freeReplacement = Alloc::cbFree; cp.mallocAndFreeReplacementUserData = &w.al;
    w.vm = nkxVmCreateEx(&cp); if (!w.vm) return false; created = true; nkxSetUserData(w.vm, &w); return true;
}
bool Vm::create(bool compiler) {
    if (!createBare()) return false;
    if (compiler) w.cs = nkxCompilerCreate(w.vm); else loadTarget = true;
    registerPrelude(*this, !compiler);
    return !nkxVmHasErrors(w.vm);
}
bool Vm::compile(const std::vector<Piece> &ps) {
    Alloc::tls = &w.al;
    for (auto &p : ps) { if (!w.cs) return false; nkxCompilerCompileScript(w.cs, p.text.c_str(), p.file.c_str()); if (nkxVmHasErrors(w.vm)) return false; }
    return true;
}
void Vm::finalize() { Alloc::tls = &w.al; if (w.cs) nkxCompilerFinalize(w.cs); w.cs = nullptr; }
bool Vm::build(const std::vector<Piece> &ps) { if (!create()) return false; bool ok = compile(ps); finalize(); return ok && !nkxVmHasErrors(w.vm); }
void Vm::limits(const Limits &l) {
    if (l.gcInterval) nkxSetGarbageCollectionInterval(w.vm, l.gcInterval);
    if (l.gcNew) nkxSetGarbageCollectionNewObjectInterval(w.vm, l.gcNew - 1);
    if (l.instr) nkxSetRemainingInstructionLimit(w.vm, l.instr);
    if (l.stack) nkxSetMaxStackSize(w.vm, l.stack);
    if (l.fields) nkxSetMaxFieldsPerObject(w.vm, l.fields);
    if (l.mem) nkxSetMaxAllocatedMemory(w.vm, l.mem);
}
bool Vm::run(uint64_t maxInstr) {
    Alloc::tls = &w.al;
    for (uint64_t n = 0; n < maxInstr; n += 2000) { if (ended()) return true; nkxVmIterate(w.vm, 2000); }
    return ended();
}
str Vm::errors() {
    uint32_t n = nkxGetErrorLength(w.vm); if (!n) return ""; std::vector<char> b(n + 64, 0); nkxGetErrorText(w.vm, b.data()); return str(b.data());
}
std::vector<str> Vm::errorList() {
    std::vector<str> o; str e = errors(), cur; for (char c : e) { if (c == '\n') { if (cur.size()) o.push_back(cur); cur.clear(); } else cur += c; } if (cur.size()) o.push_back(cur); return o;
}
str Vm::global(const str &name) {
    NKValue *v = nkxVmFindGlobalVariable(w.vm, nullptr, name.c_str()); if (!v) return "?";
    std::map<uint64_t, int> ids; str s; NKValue c = *v; dumpV(w, &c, ids, 3, s); return s;
}
void Vm::destroy() { if (!created) return; Alloc::tls = &w.al; if (w.cs) finalize(); nkxVmDelete(w.vm); w.vm = nullptr; created = false; }
str Vm::leakReport() {
    str s = w.note;
    if (w.al.badUser) s += "host allocator called with a foreign context pointer; ";
    if (w.al.badFree) s += "block released twice or never handed out; ";
    if (!created) {
        if (w.al.live.size()) s += fmt("%zu blocks (%llu bytes) not given back; ", w.al.live.size(), (unsigned long long)w.al.liveBytes);
        if (w.boxes.size()) s += fmt("%zu host objects never cleaned up; ", w.boxes.size());
        if (w.ssRegistered && w.ssCleanups != 1) s += fmt("subsystem clean-up ran %d times; ", w.ssCleanups);
    }
    if (w.doubleCleanups) s += "host object cleaned up twice; ";
    if (w.nullMarks && !loadTarget) s += "mark callback with wrong data; ";
    if (w.nullCleanups && !loadTarget) s += "clean-up with wrong data; ";
    if (w.ssBad) s += "subsystem callback with wrong data; ";
    return s;
}
bool Vm::checkMem(str &why) {
    uint64_t rep = nkxVmGetCurrentMemoryUsage(w.vm), host = w.al.vmBytes();
    if (rep != host) { why = fmt("reported use %llu, host sees %llu", (unsigned long long)rep, (unsigned long long)host); return false; }
    uint64_t peak = nkxVmGetPeakMemoryUsage(w.vm);
    if (peak != w.al.peakBytes) { why = fmt("reported peak %llu, host saw %llu", (unsigned long long)peak, (unsigned long long)w.al.peakBytes); return false; }
    return true;
}
void Vm::carry(Vm &f) { w.trace = f.w.trace; w.records = f.w.records; w.keys = f.w.keys; w.kept = f.w.kept; w.handles = f.w.handles; }
Vm::~Vm() { destroy(); for (auto &p : w.boxes) delete p.second; for (auto &p : w.al.live) free(p.first); }
struct Io { str *out; const str *in; size_t pos, end; int64_t left; uint64_t calls; bool once; uint64_t failed; };
static nkbool ioWriter(void *data, nkuint32_t size, void *ud, nkbool write) {
    Io *o = (Io *)ud; o->calls++;
    if (o->left >= 0) { if (o->left == 0) { o->failed++; if (o->once) o->left = -1; return nkfalse; } o->left--; }
    if (write) { MS_CHECK(data, size); if (!o->out) return nkfalse; o->out->append((char *)data, size); return nktrue; }
    if (!o->in || o->pos + size > o->end) { o->failed++; return nkfalse; }
    memcpy(data, o->in->data() + o->pos, size); o->pos += size; return nktrue;
}
bool Vm::save(str &img, int64_t failAt, bool once) { Alloc::tls = &w.al; img.clear(); Io io{&img, nullptr, 0, 0, failAt, 0, once, 0}; bool r = nkxVmSerialize(w.vm, ioWriter, &io, nktrue); ioCalls = io.calls; ioFailed = io.failed; return r; }
bool Vm::load(const str &img, int64_t failAt, size_t cut, bool once) { Alloc::tls = &w.al; Io io{nullptr, &img, 0, cut < img.size() ? cut : img.size(), failAt, 0, once, 0}; bool r = nkxVmSerialize(w.vm, ioWriter, &io, nkfalse); ioCalls = io.calls; ioFailed = io.failed; ioRead = io.pos; return r; }

bool parseErr(const str &e, str &file, int &line, str &msg) {
    // "file:line: message"
    size_t p = e.find(": "); if (p == str::npos) return false; size_t q = e.rfind(':', p - 1); if (q == str::npos) return false;
    file = e.substr(0, q); str ln = e.substr(q + 1, p - q - 1); if (ln.empty()) return false; for (size_t i = 0; i < ln.size(); i++) if (!isdigit((unsigned char)ln[i]) && !(i == 0 && ln[i] == '-')) return false;
    line = atoi(ln.c_str()); msg = e.substr(p + 2); return true;
}
void collect(Vm &v, Program *p, RunResult &r) {
    r.trace = v.w.trace; auto el = v.errorList(); r.nErr = (int)nkxGetErrorCount(v.vm()); r.error = v.hasErrors();
    if (r.error && el.size()) { r.errText = el[0]; str m; if (!parseErr(el[0], r.errFile, r.errLine, m)) r.errFile = "?"; }
    if ((int)el.size() != r.nErr && r.errText.find("Allocation failure") == str::npos) r.problem += fmt("error count %d but %zu lines of text; ", r.nErr, el.size());
    if (p) {
        for (auto *g : p->globals) r.globals[g->name] = v.global(g->shown.size() ? g->shown : g->name);
        for (size_t i = 0; i < v.w.kept.size(); i++) { std::map<uint64_t, int> ids; str s; NKValue k = v.w.kept[i]; dumpV(v.w, &k, ids, 3, s); r.globals[fmt("#kept%zu", i)] = s + fmt(" h%u", (unsigned)nkxVmObjectGetExternalHandleCount(v.vm(), &k)); }
    }
}
str diffText(const str &a, const str &b, const char *na, const char *nb) {
    auto split = [](const str &s) { std::vector<str> o; str c; for (char ch : s) { if (ch == '\n') { o.push_back(c); c.clear(); } else c += ch; } if (c.size()) o.push_back(c); return o; };
    auto x = split(a), y = split(b); size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) i++;
    str s = fmt("first difference at record %zu of %zu/%zu\n", i, x.size(), y.size());
    s += str("  ") + na + ": " + (i < x.size() ? x[i] : "(end)") + "\n  " + nb + ": " + (i < y.size() ? y[i] : "(end)") + "\n"; return s;
}
str agree(const RunResult &a, const ModelResult &m, const std::vector<str> &files, bool globals) {
    if (a.problem.size()) return "problem: " + a.problem;
    if (a.compileErr) return "well-formed program rejected: " + a.errText;
    if (a.timeout) return "program did not finish";
    if (a.trace != m.trace) return "trace differs: " + diffText(a.trace, m.trace, "real", "expected") + (a.error ? "real error: " + a.errText + "\n" : "") + (m.error ? fmt("expected error (%s) at line %d\n", m.errWhat.c_str(), m.errLine()) : "");
    if (a.error != m.error) return a.error ? "unexpected error: " + a.errText : fmt("expected error (%s) at line %d, none reported", m.errWhat.c_str(), m.errLine());
    if (a.error) {
        str f = m.errFile() < (int)files.size() ? files[m.errFile()] : "?";
        if (a.errFile != f || a.errLine < m.errLine() || a.errLine > m.errEnd()) return fmt("error located at %s:%d, expected %s:%d..%d (%s): ", a.errFile.c_str(), a.errLine, f.c_str(), m.errLine(), m.errEnd(), m.errWhat.c_str()) + a.errText;
    }
    if (globals) for (auto &g : m.globals) { auto it = a.globals.find(g.first); if (it == a.globals.end()) continue; if (it->second != g.second) return "global " + g.first + ": real " + it->second + ", expected " + g.second; }
    return "";
}
str agreeRuns(const RunResult &a, const RunResult &b, bool globals, bool location) {
    if (a.problem.size() || b.problem.size()) return "problem: " + a.problem + b.problem;
    if (a.compileErr != b.compileErr) return "only one version compiles: " + a.errText + b.errText;
    if (a.timeout != b.timeout) return "only one version finishes";
    if (a.trace != b.trace) return "trace differs: " + diffText(a.trace, b.trace, "base", "variant") + (b.error ? "variant error: " + b.errText : "");
    if (a.error != b.error) return "only one version reports an error: " + a.errText + b.errText;
    if (a.error && location && (a.errFile != b.errFile || a.errLine != b.errLine || a.nErr != b.nErr)) return fmt("errors differ (%d/%d): ", a.nErr, b.nErr) + a.errText + " | " + b.errText;
    if (globals) for (auto &g : a.globals) { auto it = b.globals.find(g.first); if (it != b.globals.end() && it->second != g.second) return "global " + g.first + ": base " + g.second + ", variant " + it->second; }
    return "";
}
str showPieces(const std::vector<Piece> &ps) { str s; for (auto &p : ps) s += "=== " + p.file + "\n" + p.text; return s; }

// C23: attached host data and subsystems live exactly once, in every life of a machine.
#include "vm.hpp"
#include <algorithm>
#include <memory>
namespace {
const int NT = 6, NS = 5;
struct Reg; struct Item { int id, type; uint32_t magic; Reg *reg; str blob; NKValue held; };
struct Reg { // everything the host knows about one machine
    World *w = nullptr; bool has[NT][3]; NKVMExternalDataTypeID tid[NT]; str tname[NT]; int nt = 0; str sname[NS]; int ns = 0; bool shas[NS][2]; int sdata[NS]; int scl[NS], sser[NS]; void *sptr[NS];
    std::map<int, Item *> live; std::map<uint32_t, int> nullOf; // live items by id; objects carrying a type but no data
    int next = 1, nullCleanups = 0, deadNull = 0, spoiled = 0, cleanups = 0, sers = 0, marks = 0; std::map<int, int> serCount, cleaned; str note; bool expectCollect = false, loading = false; std::map<int, str> seen; std::map<int, int> itemType;
    bool failedLoad = false;
};
struct Bundle { Vm v; Reg g; };
std::map<NKVM *, Bundle *> *regs() { static std::map<NKVM *, Bundle *> m; return &m; }
Reg &R(NKVM *vm) { return (*regs())[vm]->g; }
template <int T> void cClean(NKVM *vm, NKValue *v, void *data) {
    Reg &g = R(vm); g.cleanups++; if (!data) { g.nullCleanups++; return; } Item *it = (Item *)data; bool known = false; for (auto &p : g.live) if (p.second == it) known = true; if (!known) { g.note += fmt("clean-up of type %d with data that is not live; ", T); return; }
    if (it->type != T) g.note += fmt("clean-up of type %d got data of type %d; ", T, it->type); if (nkxVmObjectGetExternalData(vm, v) != data) g.note += "object passed to clean-up does not carry its data; "; if (nkxVmObjectGetExternalType(vm, v).id != g.tid[T].id) g.note += "object passed to clean-up has another type; ";
    if (++g.cleaned[it->id] > 1) g.note += "cleaned twice; "; g.live.erase(it->id); it->magic = 0; delete it; }
template <int T> void cMark(NKVM *vm, NKValue *v, void *data, NKVMGCState *st) { Reg &g = R(vm); g.marks++; if (!data) return; Item *it = (Item *)data; if (it->magic != 0x17E3 || it->type != T) { g.note += "mark callback with wrong data; "; return; } nkxVmGarbageCollect_markValue(vm, st, &it->held); }
template <int T> void cSer(NKVM *vm, NKValue *v, void *data) {
    Reg &g = R(vm); g.sers++; if (nkxSerializerGetWriteMode(vm)) {
        Item *it = (Item *)data; int hdr[3] = {0, T, 0}; if (it) { if (it->magic != 0x17E3 || it->type != T) { g.note += "serializer with wrong data; "; return; } hdr[0] = it->id; hdr[2] = (int)it->blob.size(); g.serCount[it->id]++; } nkxSerializeData(vm, hdr, sizeof hdr); if (hdr[2]) nkxSerializeData(vm, &it->blob[0], hdr[2]); if (it) nkxSerializeData(vm, &it->held, sizeof it->held);
    } else {
        if (data) g.note += "serializer got data in read mode; "; int hdr[3] = {0, 0, 0}; if (!nkxSerializeData(vm, hdr, sizeof hdr)) return; if (hdr[1] != T) { g.note += fmt("type %d serializer read a record of type %d; ", T, hdr[1]); return; } if (!hdr[0]) return; if (hdr[2] < 0 || hdr[2] > 100000) { g.note += "data stream differs; "; return; }
        str b(hdr[2], 0); if (hdr[2] && !nkxSerializeData(vm, &b[0], hdr[2])) return; NKValue h; memset(&h, 0, sizeof h); if (!nkxSerializeData(vm, &h, sizeof h)) return; if (g.live.count(hdr[0])) { g.note += "item read twice; "; return; } Item *it = new Item{hdr[0], T, 0x17E3, &g, b, h}; g.live[hdr[0]] = it; g.seen[hdr[0]] = b; if (!nkxVmObjectSetExternalData(vm, v, it)) { g.live.erase(it->id); delete it; g.note += "data refused while loading; "; } } }
template <int S> void sClean(NKVM *vm, void *data) { Reg &g = R(vm); g.scl[S]++; if (data != g.sptr[S]) g.note += fmt("subsystem %d cleaned up with wrong data; ", S);
    if (nkxVmHasAllocationFailure(vm) && S == 0) { // release everything still there
        size_t total = g.live.size(), n = 0; for (int t = 0; t < g.nt; t++) { NKValue x; memset(&x, 0, sizeof x); uint32_t i = 0; while (nkxGetNextObjectOfExternalType(vm, g.tid[t], &x, &i)) { Item *it = (Item *)nkxVmObjectGetExternalData(vm, &x); if (!it) continue; bool known = false; for (auto &p : g.live) if (p.second == it) known = true; if (!known) { g.note += "enumerated data is not live; "; continue; } n++; g.live.erase(it->id); delete it; nkxVmObjectSetExternalData(vm, &x, nullptr); } } size_t missed = 0; for (auto &p : g.live) if (g.has[p.second->type][1]) missed++; /* without a clean-up routine an item may have been collected unnoticed */ if (missed) g.note += fmt("%zu of %zu live items could not be enumerated after a catastrophic failure; ", missed, total); } }
template <int S> void sSer(NKVM *vm, void *data) { Reg &g = R(vm); g.sser[S]++; if (data != g.sptr[S]) g.note += fmt("subsystem %d serialized with wrong data; ", S); int x[2] = {S, g.sdata[S]}; nkxSerializeData(vm, x, sizeof x); if (!nkxSerializerGetWriteMode(vm)) { if (x[0] != S) g.note += "subsystem read another subsystem's data; "; g.sdata[S] = x[1]; } }
const NKVMExternalObjectCleanupCallback CL[] = {cClean<0>, cClean<1>, cClean<2>, cClean<3>, cClean<4>, cClean<5>};
const NKVMExternalObjectGCMarkCallback MK[] = {cMark<0>, cMark<1>, cMark<2>, cMark<3>, cMark<4>, cMark<5>};
const NKVMExternalObjectSerializationCallback SE[] = {cSer<0>, cSer<1>, cSer<2>, cSer<3>, cSer<4>, cSer<5>};
const NKVMSubsystemCleanupCallback SC[] = {sClean<0>, sClean<1>, sClean<2>, sClean<3>, sClean<4>};
const NKVMSubsystemSerializationCallback SS[] = {sSer<0>, sSer<1>, sSer<2>, sSer<3>, sSer<4>};
struct Shape { int nt, ns; bool has[NT][3], shas[NS][2]; str tn[NT], sn[NS]; };
struct Obj { uint32_t real; int type = -1; int item = 0; bool rooted = false, held = false, reach = false; std::map<str, uint32_t> refs; };
struct Life {
    Ctx &c; Rng r; Shape sh; std::unique_ptr<Bundle> b; str log, problem; std::vector<Obj> obs; int slots = 8; bool failed = false, errored = false;
    Life(Ctx &c, uint64_t s) : c(c), r(s) {}
    void L(const str &s) { log += s + "\n"; if (c.st) c.text(log.size() > 8000 ? log.substr(log.size() - 8000) : log); }
    void bad(const str &s) { if (problem.empty()) problem = s; }
    NKVM *vm() { return b->v.vm(); } Reg &g() { return b->g; }
    void note() { if (g().note.size()) bad(g().note); if (b->v.w.note.size()) bad(b->v.w.note); }
    void setup(Bundle &x, bool target) {
        x.v.create(!target); (*regs())[x.v.vm()] = &x; Reg &g = x.g; g.w = &x.v.w; g.nt = sh.nt; g.ns = sh.ns; memcpy(g.has, sh.has, sizeof g.has); memcpy(g.shas, sh.shas, sizeof g.shas);
        for (int t = 0; t < sh.nt; t++) { g.tname[t] = sh.tn[t]; g.tid[t] = nkxVmRegisterExternalType(x.v.vm(), sh.tn[t].c_str(), sh.has[t][0] ? SE[t] : nullptr, sh.has[t][1] ? CL[t] : nullptr, sh.has[t][2] ? MK[t] : nullptr); if (g.tid[t].id == NK_INVALID_VALUE) bad("type refused: " + x.v.errors()); }
        for (int s = 0; s < sh.ns; s++) { g.sname[s] = sh.sn[s]; g.sdata[s] = r.below(100000); g.scl[s] = g.sser[s] = 0; g.sptr[s] = r.pct(85) ? &g.sdata[s] : nullptr; if (!nkxInitSubsystem(x.v.vm(), target ? nullptr : x.v.w.cs, sh.sn[s].c_str(), g.sptr[s], sh.shas[s][0] ? SC[s] : nullptr, sh.shas[s][1] ? SS[s] : nullptr)) bad("subsystem refused: " + x.v.errors()); } }
    void lookups() {
        if (problem.size() || failed) return; c.count("lookups"); for (int t = 0; t < sh.nt; t++) { if (nkxVmFindExternalType(vm(), sh.tn[t].c_str()).id != g().tid[t].id) bad("type look-up by name wrong"); const char *n = nkxVmGetExternalTypeName(vm(), g().tid[t]); if (!n || sh.tn[t] != n) bad("type name wrong"); } for (int s = 0; s < sh.ns; s++) if (nkxGetExternalSubsystemData(vm(), sh.sn[s].c_str()) != g().sptr[s]) bad("subsystem data look-up wrong");
        if (nkxVmFindExternalType(vm(), "no such type").id != NK_INVALID_VALUE) bad("missing type found"); if (nkxGetExternalSubsystemData(vm(), "no such subsystem")) bad("missing subsystem found");
        for (auto &o : obs) if (alive(o)) { NKValue x = val(o); if (nkxVmObjectGetExternalType(vm(), &x).id != (o.type < 0 ? NK_INVALID_VALUE : g().tid[o.type].id)) bad("type tag of an object differs from what was set"); void *d = nkxVmObjectGetExternalData(vm(), &x); void *w = o.item ? (void *)g().live[o.item] : nullptr; if (d != w) bad("data pointer of an object differs from what was set"); } }
    NKValue val(Obj &o) { NKValue n; memset(&n, 0, sizeof n); n.type = NK_VALUETYPE_OBJECTID; n.objectId = o.real; return n; }
    bool alive(Obj &o) { return o.reach || o.rooted || o.held; }
    bool nullTyped(const Obj &o) { return o.type >= 0 && !o.item && sh.has[o.type][1]; }
    void gone(const Obj &o) { if (nullTyped(o)) g().deadNull++; }
    Item *mkItem(int t) { Reg &G = g(); Item *it = new Item{G.next++, t, 0x17E3, &G, str(r.below(r.pct(80) ? 20 : 3000), (char)r.next()), NKValue()}; memset(&it->held, 0, sizeof it->held); it->held.type = NK_VALUETYPE_NIL; for (auto &ch : it->blob) ch = (char)r.next(); G.live[it->id] = it; return it; }
    void attach(Obj &o, int t, bool data) { // (re)attach; the host disposes of data it takes off
        NKValue x = val(o); o.refs.erase("h"); if (o.item) { Item *it = g().live[o.item]; g().live.erase(o.item); delete it; o.item = 0; }
        if (t < 0) { nkxVmObjectSetExternalData(vm(), &x, nullptr); NKVMExternalDataTypeID none; none.id = NK_INVALID_VALUE; nkxVmObjectSetExternalType(vm(), &x, none); o.type = -1; return; }
        o.type = t; bool first = r.pct(50); Item *it = data ? mkItem(t) : nullptr; if (it) o.item = it->id; if (first) nkxVmObjectSetExternalType(vm(), &x, g().tid[t]); nkxVmObjectSetExternalData(vm(), &x, it); if (!first) nkxVmObjectSetExternalType(vm(), &x, g().tid[t]); }
    NKValue *slot(int i) { return nkxVmFindGlobalVariable(vm(), nullptr, fmt("g%d", i).c_str()); }
    bool slotFree(int i) { return slot(i)->type == NK_VALUETYPE_NIL; }
    void refresh() { for (auto &o : obs) { o.rooted = false; for (int i = 0; i < slots; i++) { NKValue *p = slot(i); if (p->type == NK_VALUETYPE_OBJECTID && p->objectId == o.real) o.rooted = true; } o.reach = o.rooted || o.held; }
        std::map<uint32_t, Obj *> by; for (auto &o : obs) by[o.real] = &o; std::vector<Obj *> q; for (auto &o : obs) if (o.reach) q.push_back(&o); while (q.size()) { Obj *o = q.back(); q.pop_back(); for (auto &e : o->refs) { auto it = by.find(e.second); if (it != by.end() && !it->second->reach) { it->second->reach = true; q.push_back(it->second); } } } }
    Obj *pickAlive() { std::vector<Obj *> v; for (auto &o : obs) if (alive(o)) v.push_back(&o); return v.empty() ? nullptr : v[r.below((uint32_t)v.size())]; }
    void link() { // fields, keys and marked references between host-backed objects
        Obj *a = pickAlive(), *t = pickAlive(); if (!a || !t) return; NKValue x = val(*a), y = val(*t), k; memset(&k, 0, sizeof k); int m = r.below(4); str label; c.count("references");
        if (m == 3) { if (!a->item || !sh.has[a->type][2]) m = 0; else { g().live[a->item]->held = y; a->refs["h"] = t->real; L(fmt("data of %u refers to %u", a->real, t->real)); return; } }
        if (m == 2) { k = y; label = fmt("k%u", t->real); } else { int n = r.below(3); if (n) { label = fmt("f%d", n); nkxValueSetString(vm(), &k, label.c_str()); } else { label = "i"; nkxValueSetInt(vm(), &k, 5); } }
        if (r.pct(25)) { nkxVmObjectClearEntry(vm(), &x, &k); a->refs.erase(label); L(fmt("%u loses entry %s", a->real, label.c_str())); return; }
        NKValue *p = nkxVmObjectFindOrAddEntry(vm(), &x, &k, nkfalse); if (!p) { bad("entry not added: " + b->v.errors()); return; } if (m == 2 || r.pct(20)) { nkxValueSetInt(vm(), p, 9); if (m == 2) a->refs[label] = t->real; else a->refs.erase(label); } else { *p = y; a->refs[label] = t->real; } L(fmt("%u entry %s -> %u", a->real, label.c_str(), t->real)); }
    void afterCollect(const char *when) { // unreachable items with a clean-up routine are gone, others stay
        std::vector<Obj> keep; for (auto &o : obs) { if (alive(o)) { if (o.item && !g().live.count(o.item)) bad(str(when) + ": reachable host object was cleaned up"); keep.push_back(o); continue; } gone(o); if (o.item) { if (sh.has[o.type][1]) { if (g().live.count(o.item)) bad(str(when) + ": unreachable host object was not cleaned up"); } else { auto it = g().live.find(o.item); if (it != g().live.end()) { delete it->second; g().live.erase(it); } } } }
        obs = keep; c.count("census"); if (g().nullCleanups != g().deadNull) bad(fmt("%s: %d clean-up calls for objects without data, %d such objects were collected", when, g().nullCleanups, g().deadNull)); for (int t = 0; t < sh.nt; t++) { std::set<uint32_t> have, want; NKValue x; memset(&x, 0, sizeof x); uint32_t i = 0; int n = 0; while (nkxGetNextObjectOfExternalType(vm(), g().tid[t], &x, &i)) { if (!have.insert(x.objectId).second) bad("enumerated twice"); if (++n > 10000) break; } for (auto &o : obs) if (o.type == t) want.insert(o.real); if (have != want) bad(fmt("%s: enumeration of type %d yields %zu objects, %zu expected", when, t, have.size(), want.size())); } }
    void gc(const char *why) { refresh(); L(str("collect (") + why + ")"); nkxVmGarbageCollect(vm()); afterCollect(why); }
    bool build() {
        sh.nt = r.range(1, NT); sh.ns = r.range(1, NS); static const char *nm[] = {"a", "b", "c", "alpha", "A", "file", "file2", "x.y", "", "type with space", "coroutine2", "box3"}; for (int t = 0; t < sh.nt; t++) { for (int k = 0; k < 3; k++) sh.has[t][k] = r.pct(75); sh.tn[t] = fmt("%s#%d", nm[r.below(12)], t); } for (int s = 0; s < sh.ns; s++) { sh.shas[s][0] = s == 0 || r.pct(80); sh.shas[s][1] = r.pct(75); sh.sn[s] = fmt("%s%s%d", nm[r.below(12)], r.pct(50) ? "%" : "", s + (r.pct(40) ? 64 : 0)); }
        b.reset(new Bundle()); setup(*b, false); str t; for (int i = 0; i < slots; i++) t += fmt("var g%d = nil;\n", i); t += "function boom(x) { return x.y.z; }\nfunction churn(n) { for(var i = 0; i < n; ++i) { var o = object(); o.s = \"s\" + i; } }\n"; b->v.compile({{t, "life"}}); b->v.finalize(); b->v.run(); if (b->v.hasErrors()) { bad("script: " + b->v.errors()); return false; } return true; }
    void op() {
        c.count("operations"); Reg &G = g(); int k = r.below(20); refresh();
        if (k < 5 || obs.empty()) { NKValue n; memset(&n, 0, sizeof n); nkxCreateObject(vm(), &n); if (n.type != NK_VALUETYPE_OBJECTID) { bad("object creation failed"); return; } Obj o; o.real = n.objectId; obs.erase(std::remove_if(obs.begin(), obs.end(), [&](Obj &p) { if (p.real == o.real) { gone(p); return true; } return false; }), obs.end()); int t = r.range(-1, sh.nt - 1); if (t >= 0) attach(o, t, r.pct(80)); o.refs.clear(); int w = r.below(4); if (w < 2) { NKValue *p = slot(r.below(slots)); *p = n; o.rooted = true; } else if (w == 2) { nkxVmObjectAcquireHandle(vm(), &n); o.held = true; } o.reach = o.rooted || o.held; L(fmt("object %u type %d item %d%s%s", o.real, t, o.item, o.rooted ? " in a global" : "", o.held ? " held" : "")); obs.push_back(o); c.count("objects"); return; }
        Obj &o = obs[r.below((uint32_t)obs.size())];
        switch (k) {
        case 16: case 17: case 18: case 19: if (!errored) link(); break;
        case 5: { int i = r.below(slots); L(fmt("clear g%d", i)); nkxValueSetNil(vm(), slot(i)); break; }
        case 6: if (o.held) { NKValue n = val(o); L(fmt("release %u", o.real)); nkxVmObjectReleaseHandle(vm(), &n); o.held = false; } else if (alive(o)) { NKValue n = val(o); L(fmt("acquire %u", o.real)); nkxVmObjectAcquireHandle(vm(), &n); o.held = true; } break;
        case 7: case 8: gc("host request"); break;
        case 9: if (alive(o)) { int t = r.range(-1, sh.nt - 1); L(fmt("object %u gets type %d", o.real, t)); attach(o, t, r.pct(80)); } break;
        case 10: if (!failed) save(); break;
        case 11: if (!failed && !errored && r.pct(50)) loadOk(); break;
        case 12: if (!failed && r.pct(60)) loadBad(); break;
        case 13: lookups(); break;
        case 14: if (!errored) { L("churn with automatic collection"); nkxSetGarbageCollectionInterval(vm(), 1 + r.below(20)); nkxSetGarbageCollectionNewObjectInterval(vm(), r.below(5)); NKValue f = *nkxVmFindGlobalVariable(vm(), nullptr, "churn"), a, ret; nkxValueSetInt(vm(), &a, 200); memset(&ret, 0, sizeof ret); nkxVmCallFunction(vm(), &f, 1, &a, &ret); refresh(); nkxVmGarbageCollect(vm()); afterCollect("automatic collection"); } break;
        case 15: if (!errored && r.pct(15)) { L("run-time error"); errored = true; NKValue f = *nkxVmFindGlobalVariable(vm(), nullptr, "boom"), a, ret; nkxValueSetInt(vm(), &a, 1); memset(&ret, 0, sizeof ret); nkxVmCallFunction(vm(), &f, 1, &a, &ret); if (!nkxVmHasErrors(vm())) bad("no error"); } else { // shrink: host keeps its handles, so identities of held objects stay; keep it simple and hold everything
                bool all = true; for (auto &p : obs) if (!p.held) all = false; if (all) { L("shrink"); nkxVmShrink(vm()); for (int i = 0; i < slots; i++) {} } } break;
        }
        note(); }
    void save() { if (errored) { } auto before = g().serCount; str img; L("save"); g().serCount.clear(); std::vector<int> ss(g().sser, g().sser + NS); nkxVmGarbageCollect(vm()); refresh(); afterCollect("before saving"); bool ok = b->v.save(img); if (!ok && !hasUnserialisable()) { bad("save failed: " + b->v.errors()); return; } if (!ok) { return; } checkSer(ss, true); }
    bool hasUnserialisable() { for (auto &o : obs) if (o.item && !sh.has[o.type][0]) return true; return false; }
    void checkSer(std::vector<int> &ss, bool write) { c.count("saves_checked"); for (auto &o : obs) if (o.item && sh.has[o.type][0] && g().serCount[o.item] != 1) bad(fmt("serializer called %d times for a live item", g().serCount[o.item])); int n = 0; for (auto &p : g().serCount) n += p.second; int want = 0; for (auto &o : obs) if (o.item && sh.has[o.type][0]) want++; if (n != want) bad(fmt("serializers called for %d items, %d live", n, want)); for (int s = 0; s < sh.ns; s++) if (sh.shas[s][1] && g().sser[s] != ss[s] + 1) bad("subsystem serializer not called exactly once"); }
    void drop(std::unique_ptr<Bundle> &x, const char *when, bool failedLoad = false) { int wantNull = x->g.deadNull; for (auto &o : obs) if (nullTyped(o)) wantNull++; // delete a machine and settle its accounts
        Reg &G = x->g; size_t live = 0; for (auto &p : G.live) if (sh.has[p.second->type][1]) live++; bool cat = x->v.created && nkxVmHasAllocationFailure(x->v.vm()); NKVM *key = x->v.vm(); c.count(cat ? "catastrophic_deletions" : "deletions"); x->v.destroy(); if (G.note.size()) bad(str(when) + ": " + G.note); if (!cat && !failedLoad && G.nullCleanups != wantNull) bad(fmt("%s: %d clean-up calls for objects without data, %d such objects existed", when, G.nullCleanups, wantNull)); for (int s = 0; s < sh.ns; s++) if (sh.shas[s][0] && G.scl[s] != 1) bad(fmt("%s: clean-up of subsystem %d ran %d times", when, s, G.scl[s]));
        std::vector<int> rest; for (auto &p : G.live) { if (sh.has[p.second->type][1]) bad(fmt("%s: clean-up of an item never ran", when)); rest.push_back(p.first); } for (int i : rest) { delete G.live[i]; G.live.erase(i); } str l = x->v.leakReport(); if (l.size()) bad(str(when) + ": " + l); regs()->erase(key); x.reset(); }
    void loadOk() {
        nkxVmGarbageCollect(vm()); refresh(); afterCollect("before saving"); g().serCount.clear(); str img; L("save and load"); std::vector<int> ss(g().sser, g().sser + NS); bool ok = b->v.save(img); if (!ok) { if (!hasUnserialisable()) bad("save failed: " + b->v.errors()); return; } checkSer(ss, true); if (problem.size()) return;
        std::unique_ptr<Bundle> t(new Bundle()); setup(*t, true); for (int s = 0; s < sh.ns; s++) { t->g.sdata[s] = -1; } if (!t->v.load(img)) { bad("load failed: " + t->v.errors()); drop(t, "after a failed load", true); return; } c.count("loads"); if (t->g.note.size()) bad("load: " + t->g.note);
        for (int s = 0; s < sh.ns; s++) { if (sh.shas[s][1]) { if (t->g.sser[s] != 1) bad("subsystem serializer not called exactly once on load"); if (t->g.sdata[s] != g().sdata[s]) bad("subsystem data differs after load"); } else t->g.sdata[s] = g().sdata[s]; }
        t->g.next = g().next; int n = 0; for (auto &o : obs) { if (o.item && sh.has[o.type][0]) { n++; Item *a = g().live[o.item]; auto it = t->g.live.find(o.item); if (it == t->g.live.end()) { bad("item missing after load"); continue; } if (it->second->blob != a->blob || it->second->type != a->type) bad("item content differs after load"); NKValue x = val(o); if (nkxVmObjectGetExternalData(t->v.vm(), &x) != it->second) bad("item attached to another object after load"); } } if ((int)t->g.live.size() != n) bad(fmt("%zu items loaded, %d saved", t->g.live.size(), n));
        drop(b, "original after a load"); for (auto &o : obs) if (o.item && !sh.has[o.type][0]) { o.item = 0; o.refs.erase("h"); } b = std::move(t); b->v.loadTarget = false; lookups(); }
    void loadBad() { nkxVmGarbageCollect(vm()); refresh(); afterCollect("before saving"); str img; g().serCount.clear(); if (!b->v.save(img)) return; L("failed load"); std::unique_ptr<Bundle> t(new Bundle()); setup(*t, true); if (t->v.load(img, -1, r.below((uint32_t)img.size()))) bad("cut image accepted"); c.count("failed_loads"); if (r.pct(40)) nkxVmGarbageCollect(t->v.vm()); if (t->g.note.size()) bad("failed load: " + t->g.note); drop(t, "after a failed load", true); }
    void run() {
        if (!build()) return; int n = r.range(10, 120); for (int i = 0; i < n && problem.empty(); i++) op(); if (problem.empty()) lookups(); note();
        if (problem.empty()) { int e = r.below(5); L(fmt("end %d", e)); if (e == 1) gc("at the end"); else if (e == 2) { nkxForceCatastrophicFailure(vm()); c.count("forced_failures"); } else if (e == 3) { nkxSetMaxAllocatedMemory(vm(), nkxVmGetCurrentMemoryUsage(vm()) + r.below(2000)); for (int i = 0; i < 60 && !nkxVmHasAllocationFailure(vm()); i++) { NKValue x; memset(&x, 0, sizeof x); nkxCreateObject(vm(), &x); } c.count("exhausted"); } else if (e == 4) { // misuse of registration is reported and changes nothing
                uint32_t k = nkxGetErrorCount(vm()); if (nkxVmRegisterExternalType(vm(), sh.tn[0].c_str(), nullptr, nullptr, nullptr).id != NK_INVALID_VALUE) bad("second registration of a type accepted"); if (nkxGetErrorCount(vm()) == k) bad("second registration of a type not reported"); lookups(); if (nkxGetExternalSubsystemDataOrError(vm(), "no such subsystem")) bad("missing subsystem found"); if (nkxGetErrorCount(vm()) < k + 2) bad("missing subsystem not reported"); } }
        drop(b, "deletion"); }
};
void c23(Ctx &c, Rng &r) { Life l(c, r.next()); l.run(); c.evals++; c.distinct(hashStr(l.log)); c.sample(l.log.substr(0, 3000)); if (l.problem.size()) c.fail(l.problem.substr(0, 100), l.problem + "\n" + (l.log.size() > 6000 ? l.log.substr(l.log.size() - 6000) : l.log)); if (l.b) { NKVM *k = l.b->v.vm(); l.b->v.destroy(); regs()->erase(k); } }
}
ENGINE(C23, c23);

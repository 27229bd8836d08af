// Host-side monitors: a model of the whole object graph, driven by random host
// and script operations against a real machine (C06 C09 C10 C23 C26), plus
// dedicated engines for native calls (C19) and text (C22) in e_host2.cpp.
#include "vm.hpp"
#include <algorithm>
#include <cmath>
#include <memory>
namespace {
struct SV { char t = 'n'; int i = 0; float f = 0; str s; int o = -1;
    static SV I(int x) { SV v; v.t = 'i'; v.i = x; return v; } static SV F(float x) { SV v; v.t = 'f'; v.f = x; return v; } static SV S(const str &x) { SV v; v.t = 's'; v.s = x; return v; } static SV O(int x) { SV v; v.t = 'o'; v.o = x; return v; }
    static SV Fn(int x) { SV v; v.t = 'F'; v.o = x; return v; }
    bool operator<(const SV &b) const { if (t != b.t) return t < b.t; switch (t) { case 'i': return i < b.i; case 'f': return f < b.f; case 's': return s < b.s; case 'o': case 'F': return o < b.o; } return false; }
    bool same(const SV &b) const { return !(*this < b) && !(b < *this); }
    str show() const { switch (t) { case 'i': return fmt("%d", i); case 'f': return fmt("%.9gf", f); case 's': return "\"" + visible(s.substr(0, 60)) + "\""; case 'o': return fmt("obj%d", o); case 'F': return fmt("fn%d", o); } return "nil"; } };
struct SO { int id; char kind; std::map<SV, SV> m; SV held; int handles = 0; uint32_t real = 0; bool started = false; void *tag = nullptr; };
const char *const fields[] = {"name", "a", "b", "x1", "next", "value", "_u", "Name"};
const int NF = 8, NG = 8;
str preludeText() {
    str s; for (int i = 0; i < NG; i++) s += fmt("var g%d = nil;\n", i);
    s += "function s_set(o, k, v) { o[k] = v; }\nfunction s_get(o, k) { return o[k]; }\nfunction s_len(o) { return len(o); }\nfunction s_mk() { return object(); }\n";
    s = str("") + s; for (int i = 0; i < NF; i++) s += fmt("function s_fs%d(o, v) { o.%s = v; }\nfunction s_fg%d(o) { return o.%s; }\n", i, fields[i], i, fields[i]);
    for (int i = 0; i < NG; i++) s += fmt("function s_wg%d(v) { g%d = v; }\nfunction s_rg%d() { return g%d; }\n", i, i, i, i);
    s += "function s_gen(v) { while(1) { v = yield(v); } }\nfunction s_co(v) { return coroutine(s_gen, v); }\nfunction s_res(c, v) { return resume(c, v); }\nfunction s_fin(c) { return is_finished(c); }\n";
    s += "function s_nest(o, k) { var a = o; var b = k; tick(); return a[b]; }\nfunction s_incr(o, k, n) { for(var i = 0; i < n; ++i) { o[k] = o[k] + 1; } return o[k]; }\nfunction s_post(o, k) { return o[k]++; }\nfunction s_fill(o, n, step) { for(var i = 0; i < n; ++i) { o[i * step] = i; } }\nfunction s_clear(o, n, step) { for(var i = 0; i < n; ++i) { o[i * step] = nil; } }\n";
    s += "function s_mth(self, k, v) { self[k] = v; return self; }\nfunction s_mcall(o, k, v) { var old = o.call; o.call = s_mth; var r = o->call(k, v); o.call = old; return r; }\n";
    s += "function s_cat(a, b) { return a + b; }\nfunction s_eq(a, b) { return a == b; }\nfunction s_seq(a, b) { return a === b; }\nfunction s_cycle(n) { for(var i = 0; i < n; ++i) { var a = object(); var b = object(); a.x = b; b.x = a; a.t = \"g\" + i; } }\nfunction s_garb(n) { for(var i = 0; i < n; ++i) { var a = box(0 - 5); var b = coroutine(s_gen, a); boxref(a, b); resume(b); } }\n";
    s += "function s_pass(a) { return a; }\nfunction s_two(a, b) { var o = object(); o[0] = a; o[1] = b; return o; }\n";
    return s;
}
// weights of operation groups
struct W8 { int map = 10, handle = 4, gc = 3, save = 1, shrink = 1, global = 5, coro = 4, box = 5, nest = 2, text = 3, big = 1, churn = 2, conv = 0; };
struct Sim {
    Ctx &c; Rng r; W8 wt; std::unique_ptr<Vm> v; std::map<int, SO> ob; SV g[NG]; int nextId = 1; std::vector<SV> extra; str log, problem; int depth = 0; int steps = 0, gcs = 0; bool machineErr = false; int boxBorn = 0; NKVMExternalDataTypeID tagType{NK_INVALID_VALUE}; uint64_t baseUse = 0; int loads = 0; std::set<int> cleanedEver; int garbBoxes = 0; std::set<int> released; bool autoGc = false; std::vector<SV> stringsSeen;
    int nTags = 0; static char tagData[64];
    Sim(Ctx &c, uint64_t seed, const W8 &w) : c(c), r(seed), wt(w) {}
    NKVM *vm() { return v->vm(); }
    void L(const str &s) { log += s; log += "\n"; if (log.size() > 60000) log.erase(0, 20000); if (c.st) { size_t n = log.size() > 8000 ? log.size() - 8000 : 0; c.text(log.substr(n)); } }
    void bad(const str &s) { if (problem.empty()) problem = s; }
    // -------- reachability in the model
    std::set<int> reach() {
        std::vector<int> q; std::set<int> seen; auto add = [&](const SV &x) { if (x.t == 'o' && seen.insert(x.o).second) q.push_back(x.o); };
        for (auto &x : g) add(x); for (auto &x : extra) add(x); for (auto &p : ob) if (p.second.handles > 0) add(SV::O(p.first));
        while (q.size()) { int k = q.back(); q.pop_back(); auto it = ob.find(k); if (it == ob.end()) continue; for (auto &e : it->second.m) { add(e.first); add(e.second); } add(it->second.held); }
        return seen;
    }
    std::vector<int> pool(char kind = 0) { std::vector<int> o; for (int k : reach()) if (!kind || ob[k].kind == kind) o.push_back(k); return o; }
    // -------- values
    NKValue real(const SV &x) {
        NKValue n; memset(&n, 0, sizeof n); switch (x.t) { case 'i': nkxValueSetInt(vm(), &n, x.i); break; case 'f': nkxValueSetFloat(vm(), &n, x.f); break; case 's': nkxValueSetString(vm(), &n, x.s.c_str()); break; case 'o': n.type = NK_VALUETYPE_OBJECTID; n.objectId = ob[x.o].real; break; case 'F': { NKValue *f = nkxVmFindGlobalVariable(vm(), nullptr, x.o == 0 ? "s_pass" : x.o == 1 ? "s_len" : "id"); if (!f) { bad("function lost"); break; } n = *f; break; } default: nkxValueSetNil(vm(), &n); } return n; }
    bool equal(NKValue *n, const SV &x) {
        switch (x.t) {
        case 'n': return n->type == NK_VALUETYPE_NIL; case 'i': return n->type == NK_VALUETYPE_INT && n->intData == x.i; case 'f': return n->type == NK_VALUETYPE_FLOAT && n->floatData == x.f;
        case 's': { if (n->type != NK_VALUETYPE_STRING) return false; const char *s = nkxValueToString(vm(), n); return s && x.s == s; }
        case 'o': return n->type == NK_VALUETYPE_OBJECTID && n->objectId == ob[x.o].real; case 'F': { NKValue f = real(x); return n->type == NK_VALUETYPE_FUNCTIONID && n->functionId.id == f.functionId.id; } } return false; }
    str showReal(NKValue *n) { std::map<uint64_t, int> ids; str s = canonV(v->w, n, ids); if (n->type == NK_VALUETYPE_OBJECTID) { s += fmt(" id %u", n->objectId); for (auto &p : ob) if (p.second.real == n->objectId) s += fmt(" (obj%d)", p.first); } return s; }
    str rndText() {
        if (stringsSeen.size() && r.pct(35)) return stringsSeen[r.below((uint32_t)stringsSeen.size())].s;
        str s; int k = r.below(8);
        if (k == 0) s = fmt("%d", r.range(-20, 20)); else if (k == 1) s = ""; else if (k == 2) s = fields[r.below(NF)]; else if (k == 3) { int n = r.range(1, 6); while (n--) s += (char)(1 + r.below(255)); } else if (k == 4) { int n = r.range(100, 3000); char ch = 'a' + r.below(3); while (n--) s += ch; } else if (k == 5) { s = "ab"; if (r.pct(50)) s = "ba"; s += fmt("%d", r.below(50)); } else s = fmt("text %u", r.below(60));
        if (stringsSeen.size() < 400) stringsSeen.push_back(SV::S(s)); return s; }
    SV prim() { switch (r.below(9)) { case 0: case 1: case 2: return SV::I(r.pct(60) ? r.range(-5, 40) : r.pct(50) ? (int)(r.next()) : (int)(16 * r.range(0, 60))); case 3: { static const float fs[] = {0.0f, -0.0f, 1.0f, 0.5f, -1.5f, 1e10f, 3.0f, 1e-20f, 16777216.0f}; return SV::F(r.pct(60) ? fs[r.below(9)] : r.range(-4000, 4000) / 16.0f); } case 4: case 5: case 6: return SV::S(rndText()); case 7: return SV::Fn(r.below(3)); default: return SV::I(r.range(0, 8)); } }
    SV key() { auto p = pool(); if (p.size() && r.pct(22)) { if (r.pct(70)) { auto &m = ob[p[r.below((uint32_t)p.size())]].m; if (m.size()) { auto it = m.begin(); std::advance(it, r.below((uint32_t)m.size())); return it->first; } } return SV::O(p[r.below((uint32_t)p.size())]); } return prim(); }
    SV val() { auto p = pool(); if (p.size() && r.pct(45)) return SV::O(p[r.below((uint32_t)p.size())]); if (r.pct(8)) return SV(); return prim(); }
    // -------- calls into the script
    bool call(const char *fn, const std::vector<SV> &a, NKValue *ret) {
        NKValue *f = nkxVmFindGlobalVariable(vm(), nullptr, fn); if (!f) { bad(str("global function lost: ") + fn); return false; } NKValue fv = *f; std::vector<NKValue> ar; for (auto &x : a) { ar.push_back(real(x)); }
        memset(ret, 0, sizeof *ret); nkxValueSetNil(vm(), ret); nkxVmCallFunction(vm(), &fv, (uint32_t)ar.size(), ar.size() ? ar.data() : nullptr, ret); c.evals++;
        if (nkxVmHasErrors(vm())) { bad(str("error in a correct call of ") + fn + ": " + v->errors()); return false; } return true; }
    void expectCall(const char *fn, const std::vector<SV> &a, const SV &want) { NKValue n; str s = str(fn) + "("; for (auto &x : a) s += x.show() + ", "; L(s + ") = " + want.show()); if (!call(fn, a, &n)) return; if (!equal(&n, want)) bad(str(fn) + " returned " + showReal(&n) + ", expected " + want.show()); }
    SO &born(char kind, const NKValue &n) { SO o; o.id = nextId++; o.kind = kind; o.real = n.objectId; 
        auto rs = reach(); for (auto it = ob.begin(); it != ob.end();) { if (it->second.real == o.real) { if (rs.count(it->first)) bad(fmt("a new object has the identity of a living one (obj%d)", it->first)); it = ob.erase(it); } else ++it; }
        return ob[o.id] = o; }
    void store(int o, const SV &k, const SV &x) { auto &m = ob[o].m; if (x.t == 'n') m.erase(k); else m[k] = x; }
    SV load(int o, const SV &k) { auto &m = ob[o].m; auto it = m.find(k); return it == m.end() ? SV() : it->second; }
    void root(int id) { int i = r.below(NG); SV x = SV::O(id); if (r.pct(60)) setGlobal(i, x, r.pct(50)); else { auto p = pool(); if (p.empty()) setGlobal(i, x, true); else { int t = p[r.below((uint32_t)p.size())]; hostStore(t, key(), x); } } }
    void setGlobal(int i, const SV &x, bool host) { L(fmt("g%d = %s%s", i, x.show().c_str(), host ? " (host)" : "")); if (host) { NKValue n = real(x); NKValue *p = nkxVmFindGlobalVariable(vm(), nullptr, fmt("g%d", i).c_str()); if (!p) { bad("global lost"); return; } *p = n; } else { NKValue n; call(fmt("s_wg%d", i).c_str(), {x}, &n); } g[i] = x; }
    void hostStore(int o, const SV &k, const SV &x) { L(fmt("host obj%d[%s] = %s", o, k.show().c_str(), x.show().c_str())); NKValue n = real(SV::O(o)), kk = real(k), xx = real(x); if (x.t == 'n') nkxVmObjectClearEntry(vm(), &n, &kk); else { NKValue *e = nkxVmObjectFindOrAddEntry(vm(), &n, &kk, nkfalse); if (!e) { bad("host store refused: " + v->errors()); return; } *e = xx; } store(o, k, x); c.evals++; }
    // -------- whole-state check
    void verify(const char *when, bool full = true) {
        if (problem.size()) return; auto rs = reach(); c.count("state_checks");
        for (int i = 0; i < NG; i++) { NKValue *p = nkxVmFindGlobalVariable(vm(), nullptr, fmt("g%d", i).c_str()); if (!p) { bad(fmt("%s: global g%d not found", when, i)); return; } if (!equal(p, g[i])) { bad(fmt("%s: g%d is %s, expected %s", when, i, showReal(p).c_str(), g[i].show().c_str())); return; } }
        for (int k : rs) { SO &o = ob[k]; NKValue n = real(SV::O(k)); c.count("objects_checked");
            if (nkxVmObjectGetSize(vm(), &n) != o.m.size()) { bad(fmt("%s: obj%d has %u entries, expected %zu", when, k, nkxVmObjectGetSize(vm(), &n), o.m.size())); return; }
            if ((int)nkxVmObjectGetExternalHandleCount(vm(), &n) != o.handles) { bad(fmt("%s: obj%d has %u handles, expected %d", when, k, nkxVmObjectGetExternalHandleCount(vm(), &n), o.handles)); return; }
            if (full || r.pct(20)) for (auto &e : o.m) { NKValue kk = real(e.first); NKValue *x = nkxVmObjectFindOrAddEntry(vm(), &n, &kk, nktrue); c.count("entries_checked"); if (!x) { bad(fmt("%s: obj%d[%s] missing, expected %s", when, k, e.first.show().c_str(), e.second.show().c_str())); return; } NKValue xv = *x; if (!equal(&xv, e.second)) { bad(fmt("%s: obj%d[%s] is %s, expected %s", when, k, e.first.show().c_str(), showReal(&xv).c_str(), e.second.show().c_str())); return; } }
            for (int i = 0; i < 3; i++) { SV a = i == 0 ? SV::S(fmt("absent %u", r.below(9))) : prim(); if (o.m.count(a)) continue; NKValue kk = real(a); if (nkxVmObjectFindOrAddEntry(vm(), &n, &kk, nktrue)) { bad(fmt("%s: obj%d[%s] exists, expected none", when, k, a.show().c_str())); return; } }
            uint32_t t = nkxVmObjectGetExternalType(vm(), &n).id; void *d = nkxVmObjectGetExternalData(vm(), &n);
            if (o.kind == 'b') { Box *b = (Box *)d; if (t != v->w.boxType.id || !b || b->magic != 0xB0B0CAFE || b->payload != k) { bad(fmt("%s: host data of obj%d lost", when, k)); return; } if (!equal(&b->held, o.held)) { bad(fmt("%s: reference held by host data of obj%d is %s, expected %s", when, k, showReal(&b->held).c_str(), o.held.show().c_str())); return; } }
            else if (o.kind == 't') { if (t != tagType.id || d != o.tag) { bad(fmt("%s: type or data pointer of obj%d wrong", when, k)); return; } }
            else if (o.kind == 'c') { if (!isCoroObj(v->w, &n)) { bad(fmt("%s: obj%d is no coroutine any more", when, k)); return; } }
            else if (t != NK_INVALID_VALUE || d) { bad(fmt("%s: plain obj%d has external type %u data %p", when, k, t, d)); return; } }
        str why; if (!v->checkMem(why)) bad(str(when) + ": " + why);
        if (v->w.note.size()) bad(str(when) + ": " + v->w.note);
    }
    void census(const char *when) { // after a full collection: exactly the reachable objects exist
        if (problem.size()) return; auto rs = reach(); c.count("censuses"); std::set<uint32_t> wantB, wantT, wantC; for (int k : rs) { if (ob[k].kind == 'b') wantB.insert(ob[k].real); if (ob[k].kind == 't') wantT.insert(ob[k].real); if (ob[k].kind == 'c') wantC.insert(ob[k].real); }
        auto list = [&](NKVMExternalDataTypeID t) { std::set<uint32_t> o; NKValue n; memset(&n, 0, sizeof n); uint32_t i = 0; int k = 0; while (nkxGetNextObjectOfExternalType(vm(), t, &n, &i)) { if (!o.insert(n.objectId).second) bad(str(when) + ": enumeration yields an object twice"); if (++k > 200000) { bad("enumeration does not end"); break; } } return o; };
        auto diff = [&](const char *what, const std::set<uint32_t> &have, const std::set<uint32_t> &want) { for (auto x : want) if (!have.count(x)) bad(fmt("%s: reachable %s %u is gone", when, what, x)); for (auto x : have) if (!want.count(x)) bad(fmt("%s: unreachable %s %u (of %zu, reachable %zu) survived a full collection", when, what, x, have.size(), want.size())); };
        diff("host-backed object", list(v->w.boxType), wantB); diff("typed object", list(tagType), wantT); diff("coroutine", list(nkxVmFindExternalType(vm(), "coroutine")), wantC);
        if (v->w.boxes.size() != wantB.size()) bad(fmt("%s: %zu live host data blocks, %zu reachable", when, v->w.boxes.size(), wantB.size()));
        for (auto it = ob.begin(); it != ob.end();) if (!rs.count(it->first)) { released.insert(it->first); it = ob.erase(it); c.count("objects_released"); } else ++it;
        c.count("objects_reachable_at_census", rs.size());
    }
    void collect(const char *why = "collection") { L("collect"); nkxVmGarbageCollect(vm()); gcs++; c.count("collections"); if (nkxVmHasErrors(vm())) { bad("collection raised an error: " + v->errors()); return; } census(why); }
    // -------- operations
    void op() {
        int w[] = {wt.map, wt.handle, wt.gc, depth ? 0 : wt.save, depth ? 0 : wt.shrink, wt.global, wt.coro, wt.box, depth < 2 ? wt.nest : 0, wt.text, wt.big, wt.churn}; int tot = 0; for (int x : w) tot += x; int q = r.below(tot), k = 0; while (q >= w[k]) q -= w[k++];
        steps++; c.count("operations"); if (autoGc && r.pct(3)) { nkxSetGarbageCollectionInterval(vm(), 1 + r.below(60)); nkxSetGarbageCollectionNewObjectInterval(vm(), r.below(12)); }
        auto p = pool(); if (p.size() < 3 || (p.size() < 40 && r.pct(12))) { mk(); if (problem.size()) return; p = pool(); }
        auto any = [&]() { return p[r.below((uint32_t)p.size())]; }; NKValue n;
        if (p.empty()) return;
        switch (k) {
        case 0: mapOp(any()); break;
        case 1: { int o = any(); NKValue x = real(SV::O(o)); if (ob[o].handles && r.pct(55)) { L(fmt("release obj%d", o)); ob[o].handles--; nkxVmObjectReleaseHandle(vm(), &x); } else { L(fmt("acquire obj%d", o)); ob[o].handles++; nkxVmObjectAcquireHandle(vm(), &x); } if ((int)nkxVmObjectGetExternalHandleCount(vm(), &x) != ob[o].handles) bad("handle count query wrong"); c.count("handle_operations"); break; }
        case 2: collect(); break;
        case 3: saveLoad(); break;
        case 4: shrink(); break;
        case 5: { int i = r.below(NG); if (r.pct(50)) { SV x = r.pct(25) ? SV() : val(); setGlobal(i, x, r.pct(50)); } else expectCall(fmt("s_rg%d", i).c_str(), {}, g[i]); break; }
        case 6: coroOp(); break;
        case 7: boxOp(); break;
        case 8: { int o = any(); SV kk = key(); extra.push_back(SV::O(o)); extra.push_back(kk); L(fmt("nested: obj%d[%s]", o, kk.show().c_str())); depth++; c.count("nested_calls"); NKValue ret; bool ok = call("s_nest", {SV::O(o), kk}, &ret); depth--; if (ok && !equal(&ret, load(o, kk))) bad("value read after nested host activity is " + showReal(&ret) + ", expected " + load(o, kk).show()); extra.pop_back(); extra.pop_back(); L("nested end"); break; }
        case 9: { str a = rndText(), b = rndText(); if (a.size() + b.size() > 6000) a = "q"; expectCall("s_cat", {SV::S(a), SV::S(b)}, SV::S(a + b)); if (problem.size()) break; SV x = prim(), y = r.pct(40) ? x : prim(); if (x.t == y.t) expectCall(r.pct(50) ? "s_eq" : "s_seq", {x, y}, SV::I(x.same(y) || (x.t == 'f' && x.f == y.f) ? 1 : 0)); else expectCall("s_seq", {x, y}, SV::I(0)); break; }
        case 10: { int o = any(); int cnt = r.range(5, r.pct(30) ? 400 : 40), st = r.pct(50) ? 1 : r.pct(50) ? 16 : r.range(-70000, 70000); if (!st) st = 3; L(fmt("fill obj%d %d step %d", o, cnt, st)); if (!call("s_fill", {SV::O(o), SV::I(cnt), SV::I(st)}, &n)) break; for (int i = 0; i < cnt; i++) store(o, SV::I((int)((uint32_t)i * (uint32_t)st)), SV::I(i)); c.maxi("entries", ob[o].m.size()); if (r.pct(60)) { int cc = r.range(1, cnt); if (!call("s_clear", {SV::O(o), SV::I(cc), SV::I(st)}, &n)) break; for (int i = 0; i < cc; i++) store(o, SV::I((int)((uint32_t)i * (uint32_t)st)), SV()); } if (ob[o].m.size() > 600) { L("trim"); auto m = ob[o].m; int z = 0; for (auto &e : m) if (z++ % 4) hostStore(o, e.first, SV()); } break; }
        case 11: { int cnt = r.range(1, 60); bool b = r.pct(50); L(fmt("%s %d", b ? "box garbage" : "cycles", cnt)); call(b ? "s_garb" : "s_cycle", {SV::I(cnt)}, &n); if (b) garbBoxes += cnt; c.count("garbage_objects", cnt * 2); break; }
        }
    }
    void mapOp(int o) {
        SV k = key(); SV cur = load(o, k); c.count("map_operations"); NKValue n;
        switch (r.below(12)) {
        case 0: case 1: { SV x = val(); hostStore(o, k, x); break; }
        case 2: case 3: { SV x = r.pct(20) ? SV() : val(); expectCall("s_set", {SV::O(o), k, x}, SV::I(0)); store(o, k, x); break; }
        case 4: expectCall("s_get", {SV::O(o), k}, cur); break;
        case 5: { NKValue a = real(SV::O(o)), b = real(k); NKValue *e = nkxVmObjectFindOrAddEntry(vm(), &a, &b, nktrue); if (!e ? cur.t != 'n' : !equal(e, cur)) bad("host read of obj" + fmt("%d[%s]", o, k.show().c_str()) + (e ? " is " + showReal(e) : " is missing") + ", expected " + cur.show()); break; }
        case 6: expectCall("s_len", {SV::O(o)}, SV::I((int)ob[o].m.size())); break;
        case 7: { int f = r.below(NF); SV x = val(); if (r.pct(50)) { expectCall(fmt("s_fs%d", f).c_str(), {SV::O(o), x}, SV::I(0)); store(o, SV::S(fields[f]), x); } else expectCall(fmt("s_fg%d", f).c_str(), {SV::O(o)}, load(o, SV::S(fields[f]))); break; }
        case 8: if (cur.t == 'i') { int cnt = r.below(5); int nv = (int)((uint32_t)cur.i + cnt); expectCall("s_incr", {SV::O(o), k, SV::I(cnt)}, SV::I(nv)); store(o, k, SV::I(nv)); } else { hostStore(o, k, SV::I(r.range(-9, 9))); } break;
        case 9: if (cur.t == 'i') { expectCall("s_post", {SV::O(o), k}, cur); store(o, k, SV::I((int)((uint32_t)cur.i + 1))); } else { hostStore(o, k, SV()); } break;
        case 10: { SV old = load(o, SV::S("call")); SV x = val(); if (k.t == 's' && k.s == "call") break; expectCall("s_mcall", {SV::O(o), k, x}, SV::O(o)); store(o, k, x); store(o, SV::S("call"), old); break; }
        case 11: { auto p = pool(); int o2 = p[r.below((uint32_t)p.size())]; auto &m = ob[o2].m; if (m.empty()) break; auto it = m.begin(); std::advance(it, r.below((uint32_t)m.size())); SV kk = it->first; if (r.pct(50)) hostStore(o2, kk, SV()); else { expectCall("s_set", {SV::O(o2), kk, SV()}, SV::I(0)); store(o2, kk, SV()); } break; }
        }
    }
    void mk() {
        NKValue n; memset(&n, 0, sizeof n); int k = r.below(10);
        if (k < 3) { nkxCreateObject(vm(), &n); if (n.type != NK_VALUETYPE_OBJECTID) { bad("object creation failed"); return; } if (nkxVmObjectGetSize(vm(), &n)) bad("a new object is not empty"); SO &o = born('o', n); L(fmt("host creates obj%d", o.id)); root(o.id); }
        else if (k < 5) { if (!call("s_mk", {}, &n)) return; if (n.type != NK_VALUETYPE_OBJECTID) { bad("s_mk did not return an object"); return; } SO &o = born('o', n); L(fmt("script creates obj%d", o.id)); root(o.id); }
        else if (k < 6) { SV a = val(), b = val(); if (!call("s_two", {a, b}, &n)) return; if (n.type != NK_VALUETYPE_OBJECTID) { bad("s_two did not return an object"); return; } SO &o = born('o', n); int id = o.id; store(id, SV::I(0), a); store(id, SV::I(1), b); L(fmt("script creates obj%d with [0]=%s [1]=%s", id, a.show().c_str(), b.show().c_str())); root(id); }
        else if (k < 7 && tagType.id != NK_INVALID_VALUE) { nkxCreateObject(vm(), &n); SO &o = born('t', n); int id = o.id; o.tag = r.pct(80) ? &tagData[r.below(64)] : nullptr; if (loads && 0) o.tag = nullptr; if (!nkxVmObjectSetExternalType(vm(), &n, tagType) || !nkxVmObjectSetExternalData(vm(), &n, ob[id].tag)) bad("tagging refused"); L(fmt("host creates typed obj%d", id)); root(id); }
        else if (k < 9) { newBox(); }
        else { SV h = val(); if (!call("s_co", {h}, &n)) return; if (n.type != NK_VALUETYPE_OBJECTID) { bad("s_co did not return a coroutine"); return; } SO &o = born('c', n); int id = o.id; o.held = h; L(fmt("coroutine obj%d holding %s", id, h.show().c_str())); root(id); }
    }
    void newBox() { NKValue n; int id = nextId; if (!call("box", {SV::I(id)}, &n)) return; if (n.type != NK_VALUETYPE_OBJECTID) { bad("box() did not return an object"); return; } SO &o = born('b', n); boxBorn++; L(fmt("box obj%d", o.id)); root(o.id); c.count("host_objects_made"); }
    void boxOp() { auto p = pool('b'); if (p.empty()) { newBox(); return; } int o = p[r.below((uint32_t)p.size())]; if (r.pct(50)) { SV x = val(); expectCall("boxref", {SV::O(o), x}, x); ob[o].held = x; } else expectCall("boxderef", {SV::O(o)}, ob[o].held); if (r.pct(20)) expectCall("boxget", {SV::O(o)}, SV::I(o)); }
    void coroOp() { auto p = pool('c'); if (p.empty()) return; int o = p[r.below((uint32_t)p.size())]; SV x = val(); c.count("resumes"); if (!ob[o].started) { ob[o].started = true; expectCall("s_res", {SV::O(o), x}, ob[o].held); } else { expectCall("s_res", {SV::O(o), x}, x); ob[o].held = x; } if (r.pct(20)) expectCall("s_fin", {SV::O(o)}, SV::I(0)); }
    // Shrinking may renumber objects the host holds no handle on: follow the model's paths to find them again.
    void shrink() {
        std::set<int> seen; std::vector<int> q; auto add = [&](const SV &x) { if (x.t == 'o' && seen.insert(x.o).second) q.push_back(x.o); };
        auto walk = [&](bool resolve) { seen.clear(); q.clear(); auto see = [&](const SV &x, NKValue *n, const char *what) { if (x.t != 'o') return; if (resolve && !seen.count(x.o)) { if (!n || n->type != NK_VALUETYPE_OBJECTID) { bad(str("after shrink: ") + what + " is not an object any more"); return; } if (ob[x.o].handles && n->objectId != ob[x.o].real) { bad("after shrink: an object with a host handle was renumbered"); return; } ob[x.o].real = n->objectId; } add(x); };
            for (int i = 0; i < NG; i++) see(g[i], resolve ? nkxVmFindGlobalVariable(vm(), nullptr, fmt("g%d", i).c_str()) : nullptr, "a global"); for (auto &p : ob) if (p.second.handles) add(SV::O(p.first));
            while (q.size() && problem.empty()) { int k = q.back(); q.pop_back(); SO &o = ob[k]; NKValue n = real(SV::O(k)); for (auto &e : o.m) if (e.first.t != 'o' && e.second.t == 'o') { NKValue *x = nullptr, xv; if (resolve) { NKValue kk = real(e.first); x = nkxVmObjectFindOrAddEntry(vm(), &n, &kk, nktrue); if (x) xv = *x, x = &xv; } see(e.second, x, "an entry"); } if (o.kind == 'b' && o.held.t == 'o') { Box *bx = (Box *)nkxVmObjectGetExternalData(vm(), &n); see(o.held, resolve && bx ? &bx->held : nullptr, "a held reference"); } } };
        walk(false); std::vector<int> pinned; for (int k : reach()) if (!seen.count(k)) { NKValue n = real(SV::O(k)); nkxVmObjectAcquireHandle(vm(), &n); ob[k].handles++; pinned.push_back(k); }
        uint64_t before = v->w.al.vmBytes(); L("shrink"); nkxVmShrink(vm()); c.count("shrinks"); if (v->w.al.vmBytes() > before) bad("shrinking grew the machine"); if (nkxVmHasErrors(vm())) { bad("shrink raised an error: " + v->errors()); return; }
        auto rs = reach(); for (auto it = ob.begin(); it != ob.end();) if (!rs.count(it->first)) it = ob.erase(it); else ++it;
        walk(true); if (problem.size()) return; std::map<uint32_t, int> ids; for (auto &p : ob) if (!ids.insert({p.second.real, p.first}).second) bad("after shrink: two objects have one identity");
        verify("after shrink"); for (int k : pinned) { NKValue n = real(SV::O(k)); nkxVmObjectReleaseHandle(vm(), &n); ob[k].handles--; } }
    void saveLoad() {
        str img; L("save"); if (!v->save(img)) { bad("save failed: " + v->errors()); return; } c.count("saves"); if (r.pct(40)) { verify("after saving"); return; }
        L("load"); std::unique_ptr<Vm> t(new Vm()); if (!t->create(false)) { bad("target not created"); return; } registerTag(*t); if (!t->load(img)) { bad("load failed: " + t->errors()); return; } c.count("loads"); loads++;
        int n = (int)v->w.boxes.size(); if (t->w.boxLoads != n) { bad(fmt("%d host objects loaded, %d existed", t->w.boxLoads, n)); return; } if (v->w.ssSer < 1 || t->w.ssSer != 1) { bad("subsystem serializer not called exactly once on load"); return; }
        // drop the original: every clean-up exactly once
        size_t live = v->w.boxes.size(); int cl = v->w.cleanups; v->destroy(); if ((size_t)(v->w.cleanups - cl) != live) bad(fmt("%zu live host objects but %d clean-ups at deletion", live, v->w.cleanups - cl)); str l = v->leakReport(); if (l.size()) bad("deleting the original: " + l);
        for (auto &p : ob) p.second.tag = nullptr; // plain data pointers are not part of an image unless their type serialises them
        v = std::move(t); v->loadTarget = false; v->w.cs = nullptr; hook(); verify("after load"); }
    void registerTag(Vm &x) { tagType = nkxVmRegisterExternalType(x.vm(), "tag", nullptr, nullptr, nullptr); }
    void hook() { v->w.onTick = [this](World &) { if (problem.size()) return; int n = r.range(1, 4); while (n-- && problem.empty()) op(); }; autoGc = r.pct(70); if (!autoGc) { nkxSetGarbageCollectionInterval(vm(), 1 << 28); } else { nkxSetGarbageCollectionInterval(vm(), 1 + r.below(200)); nkxSetGarbageCollectionNewObjectInterval(vm(), r.below(40)); } }
    bool start() { v.reset(new Vm()); if (!v->create()) { bad("create"); return false; } registerTag(*v); v->compile({{preludeText(), "prelude"}}); v->finalize(); v->run(); if (v->hasErrors() || !v->ended()) { bad("prelude: " + v->errors()); return false; } hook(); nkxVmGarbageCollect(vm()); nkxVmShrink(vm()); baseUse = nkxVmGetCurrentMemoryUsage(vm()); return true; }
    void run(int n) {
        if (!start()) return; for (int i = 0; i < n && problem.empty(); i++) { op(); if (r.pct(4)) verify("periodic check"); } verify("final check"); if (problem.empty()) collect("final collection"); verify("after the final collection");
        if (problem.empty()) misuse();
        if (problem.empty()) { L("drop everything"); int mode = r.below(2); for (int i = 0; i < NG; i++) if (!nkxVmHasErrors(vm())) setGlobal(i, SV(), true); else { NKValue *p = nkxVmFindGlobalVariable(vm(), nullptr, fmt("g%d", i).c_str()); nkxValueSetNil(vm(), p); g[i] = SV(); } for (auto &p : ob) while (p.second.handles) { NKValue x = real(SV::O(p.first)); nkxVmObjectReleaseHandle(vm(), &x); p.second.handles--; } stringsSeen.clear();
            nkxVmGarbageCollect(vm()); census("after dropping everything"); if (mode) nkxVmGarbageCollect(vm()); if (v->w.boxes.size()) bad("host data alive with nothing reachable"); nkxVmShrink(vm()); uint64_t now = nkxVmGetCurrentMemoryUsage(vm()); c.maxi("final_minus_base", now > baseUse ? now - baseUse : 0); if (!machineErr && now > baseUse + 64) bad(fmt("memory in use with nothing reachable: %llu, at the start %llu", (unsigned long long)now, (unsigned long long)baseUse)); }
        size_t live = v->w.boxes.size(); int cl = v->w.cleanups; v->destroy(); if (problem.empty() && (size_t)(v->w.cleanups - cl) != live) bad("clean-ups at deletion do not match live host objects"); str l = v->leakReport(); if (l.size()) bad("after deletion: " + l); c.count("clean_ups", v->w.cleanups);
    }
    void misuse() { // reported misuse changes nothing
        if (!r.pct(50)) return; machineErr = true; auto p = pool(); if (p.empty()) return; int o = p[r.below((uint32_t)p.size())]; NKValue n = real(SV::O(o)); uint32_t e0 = nkxGetErrorCount(vm()); int k = r.below(6); L(fmt("misuse %d on obj%d", k, o)); c.count("misuses");
        if (k < 3) { while (ob[o].handles) { nkxVmObjectReleaseHandle(vm(), &n); ob[o].handles--; } if (nkxGetErrorCount(vm()) != e0) bad("releasing held handles raised an error"); nkxVmObjectReleaseHandle(vm(), &n); if (k == 1) nkxVmObjectReleaseHandle(vm(), &n); if (nkxGetErrorCount(vm()) == e0) bad("releasing a handle that is not held was not reported"); auto rs = reach(); if (!rs.count(o)) setLost(o); }
        else { NKValue x; memset(&x, 0, sizeof x); if (k == 3) nkxValueSetInt(vm(), &x, (int)n.objectId); else if (k == 4) nkxValueSetString(vm(), &x, "text"); else { x.type = NK_VALUETYPE_OBJECTID; x.objectId = 0x7ffffff0u + r.below(8); } switch (r.below(4)) { case 0: nkxVmObjectAcquireHandle(vm(), &x); break; case 1: nkxVmObjectReleaseHandle(vm(), &x); break; case 2: nkxVmObjectGetSize(vm(), &x); break; default: nkxVmObjectGetExternalHandleCount(vm(), &x); } if (nkxGetErrorCount(vm()) == e0) bad("use of a non-object as an object was not reported"); }
        verify("after reported misuse"); nkxVmGarbageCollect(vm()); census("collection after reported misuse"); verify("after reported misuse and collection"); }
    void setLost(int) {}
};
char Sim::tagData[64];
void sim(Ctx &c, Rng &r, const W8 &w, int n) {
    Sim s(c, r.next(), w); s.run(c.thorough ? n * 3 : n); c.distinct(hashStr(s.log)); c.sample(s.log.substr(0, 3000)); if (s.problem.size()) { str l = s.log.size() > 6000 ? "...\n" + s.log.substr(s.log.size() - 6000) : s.log; c.fail(s.problem.substr(0, s.problem.find(':') == str::npos ? 80 : s.problem.find(':')), s.problem + "\n" + l); if (s.v) { s.v->w.onTick = nullptr; } }
}
void c06(Ctx &c, Rng &r) { W8 w; w.map = 40; w.big = 6; w.handle = 1; w.nest = 1; w.gc = 1; w.text = 2; w.coro = 1; sim(c, r, w, 400); }
void c10(Ctx &c, Rng &r) { W8 w; w.handle = 25; w.gc = 6; w.save = 3; w.shrink = 3; w.map = 12; sim(c, r, w, 350); }
// C08: object graphs reached through fields, keys, handles, host data and coroutines, with collections in between
void c08g(Ctx &c, Rng &r) { W8 w; w.gc = 14; w.map = 20; w.box = 10; w.coro = 10; w.handle = 6; w.churn = 6; w.nest = 2; w.text = 4; sim(c, r, w, 250); }
void c21g(Ctx &c, Rng &r) { W8 w; w.shrink = 12; w.gc = 4; w.map = 16; w.box = 6; w.coro = 8; w.handle = 6; w.churn = 6; w.text = 4; sim(c, r, w, 250); }
void c11g(Ctx &c, Rng &r) { W8 w; w.save = 12; w.gc = 3; w.map = 16; w.box = 8; w.coro = 8; w.handle = 8; w.churn = 3; w.text = 4; w.shrink = 2; sim(c, r, w, 250); }
// C09: steady activity keeps memory bounded with automatic collection only
void c09steady(Ctx &c, Rng &r) {
    struct G { const char *name, *text; };
    static const G gs[] = {
        {"text from numbers", "var s = \"n\" + i; n = n + 1;"}, {"growing text dropped", "var s = \"\"; for(var j = 0; j < 20; ++j) { s = s + \"x\" + i; }"}, {"number rendering", "var s = \"\" + (0.5 * i); n = n + s;"},
        {"objects", "var o = object(); o.a = i; o[i] = \"v\";"}, {"cycles", "var o = object(); var p = object(); o.p = p; p.o = o; p[o] = o;"}, {"chains", "var h = nil; for(var j = 0; j < 10; ++j) { var o = object(); o.next = h; h = o; }"},
        {"unstarted coroutines", "var k = coroutine(gen, i);"}, {"suspended coroutines", "var k = coroutine(gen, object()); resume(k); resume(k, i);"}, {"finished coroutines", "var k = coroutine(once, i); resume(k);"}, {"coroutine cycles", "var o = object(); var k = coroutine(gen, o); o.k = k; resume(k);"},
        {"host objects", "var b = box(i); boxref(b, object());"}, {"host object cycles", "var b = box(i); var o = object(); o.b = b; boxref(b, o);"}, {"host object text", "var b = box(i); boxref(b, \"text\" + i);"},
        {"keys set and removed", "keep[i] = i; keep[\"k\" + i] = object(); keep[i] = nil; keep[\"k\" + i] = nil;"}, {"one slot overwritten", "keep.slot = object(); keep.slot = \"t\" + i;"}, {"object keys", "var o = object(); keep[o] = i; keep[o] = nil;"}, {"global replaced", "last = object(); last.prev = \"p\" + i;"},
        {"calls with temporaries", "fn(object(), \"a\" + i);"}, {"callbacks", "cb(fn, object(), \"b\" + i);"}, {"recursion", "rec(12);"}, {"methods", "var o = object(); o.m = mth; o->m(\"m\" + i);"}, {"handles", "var o = object(); keep.h = o; keep_(o); drop_(o);"}, {"nested coroutines", "var k = coroutine(outer, i); resume(k); resume(k);"}, {"large maps dropped", "var o = object(); for(var j = 0; j < 25; ++j) { o[j] = j; }"}, {"text keys dropped", "var o = object(); o[\"q\" + i] = 1;"}};
    int n = sizeof gs / sizeof *gs; int k = r.range(1, 3); str body, names; bool onlyText = true; for (int i = 0; i < k; i++) { const G &g = gs[r.below(n)]; str t = g.text; size_t p; while ((p = t.find("keep_")) != str::npos) t.replace(p, 5, "keep"); while ((p = t.find("drop_")) != str::npos) t.replace(p, 5, "drop"); if (str(g.name) == "handles") { t = "{ var o = object(); keep(o); drop(o); }"; } body += "        { " + t + " }\n"; names += str(i ? " + " : "") + g.name; }
    size_t q; while ((q = body.find("keep.")) != str::npos) body.replace(q, 5, "kept."); while ((q = body.find("keep[")) != str::npos) body.replace(q, 5, "kept[");
    str t = "var n = 0; var last = nil; var kept = object();\nfunction gen(v) { while(1) { v = yield(v); } }\nfunction once(v) { return v; }\nfunction outer(v) { var c = coroutine(gen, \"in\" + v); resume(c); yield(c); resume(c); }\nfunction fn(a, b) { a.x = b; return a; }\nfunction rec(d) { var o = object(); o.d = \"d\" + d; if(d > 0) { return rec(d - 1); } return o; }\nfunction mth(self, x) { self.x = x; return self; }\nfunction round(from, cnt) {\n    for(var i = from; i < from + cnt; ++i) {\n" + body + "    }\n}\n";
    int mode = r.below(3); // 0: one endless loop in slices, 1: host calls a function repeatedly, 2: endless loop inside a coroutine
    if (mode == 0) t += "var z = 0; while(1) { round(z, 50); z = z + 50; }\n"; else if (mode == 2) t += "function all(x) { var z = 0; while(1) { round(z, 50); z = z + 50; yield(z); } }\nvar cc = coroutine(all, 0); while(1) { resume(cc); }\n";
    c.text(t); c.sample(names + "\n" + t); Vm v; v.build({{t, "s"}}); if (v.hasErrors()) { c.fail("steady program rejected", v.errors() + t); return; }
    uint32_t gi = 0, gn = 0; bool dflt = r.pct(35); if (!dflt) { gi = 1 + r.below(r.pct(50) ? 50 : 2000); gn = r.below(r.pct(50) ? 20 : 600); nkxSetGarbageCollectionInterval(v.vm(), gi); nkxSetGarbageCollectionNewObjectInterval(v.vm(), gn); }
    // warm-up long enough for several collection cycles, then a longer stretch must not need more memory
    bool slow = names.find("large maps") != str::npos; uint64_t unit = dflt ? (slow ? 200000 : 40000) : 4000 + 8ull * gi + (slow ? 700ull : 60ull) * gn; if (c.thorough) unit *= 2; uint64_t host = 0;
    auto stretch = [&](uint64_t instr) { uint64_t from = 0; v.w.al.peakBytes = v.w.al.vmBytes(); uint64_t pk = 0; if (mode == 1) { if (!v.ended()) v.run(); NKValue *f = nkxVmFindGlobalVariable(v.vm(), nullptr, "round"); if (!f) return (uint64_t)0; NKValue fv = *f, a[2], ret; uint64_t calls = instr / 300 + 1; for (uint64_t i = 0; i < calls && !v.hasErrors(); i++) { nkxValueSetInt(v.vm(), &a[0], (int)(host += 3)); nkxValueSetInt(v.vm(), &a[1], 3); nkxVmCallFunction(v.vm(), &fv, 2, a, &ret); } } else while (from < instr && !v.hasErrors()) { v.step(1000); from += 1000; } pk = v.w.al.peakBytes; return pk; };
    c.phase("steady"); uint64_t p1 = stretch(unit * 3), p2 = stretch(unit * 9); c.evals++; c.count("steady_runs"); c.maxi("peak_bytes", p2); c.count(("activity: " + names.substr(0, names.find(" +"))).c_str()); c.distinct(hashStr(names, gi * 131 + gn + mode));
    if (v.hasErrors()) { c.fail("steady program failed", v.errors() + t); return; }
    if (p2 > p1 + p1 / 2 + 8192) { c.fail("memory grows without bound", names + fmt(" (mode %d, interval %u, new objects %u%s): peak %llu, three times as long later: peak %llu\n", mode, gi, gn, dflt ? ", defaults" : "", (unsigned long long)p1, (unsigned long long)p2) + t); return; }
    if (v.w.note.size()) { c.fail("steady", v.w.note); return; }
    // what is left after a collection is small, and every dead host object was finalised
    nkxVmGarbageCollect(v.vm()); if (mode == 1 && v.w.boxes.size() > 1) { c.fail("unreachable host objects survive a full collection", names + fmt(": %zu alive\n", v.w.boxes.size()) + t); return; } if (v.w.boxes.size() > 60) { c.fail("unreachable host objects survive a full collection", names + fmt(": %zu alive\n", v.w.boxes.size()) + t); return; } c.count("clean_ups", v.w.cleanups);
    v.w.handles.clear(); v.w.kept.clear(); v.destroy(); str l = v.leakReport(); if (l.size()) c.fail("after deletion", l + t);
}
void c09(Ctx &c, Rng &r) { if (r.pct(60)) { c09steady(c, r); return; } W8 w; w.gc = 10; w.churn = 8; w.box = 12; w.coro = 10; w.handle = 6; w.save = 1; w.map = 14; sim(c, r, w, 300); }
}
ENGINE(C09, c09); ENGINE(C08G, c08g); ENGINE(C21G, c21g); ENGINE(C11G, c11g);
ENGINE(C06, c06); ENGINE(C10, c10);

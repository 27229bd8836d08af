// C12: no saved image, however damaged or hostile, can harm the host.
#include "hostile.hpp"
#include <algorithm>
namespace {
struct Rec { str img; std::vector<uint32_t> cuts; };  // image and the sizes of the writer's calls
nkbool recWriter(void *data, nkuint32_t size, void *ud, nkbool write) { Rec *o = (Rec *)ud; if (!write) return nkfalse; MS_CHECK(data, size); o->cuts.push_back((uint32_t)o->img.size()); o->img.append((char *)data, size); return nktrue; }
struct Rd { const str *in; size_t pos; bool garbage; Rng *r; uint64_t calls; };
nkbool rdReader(void *data, nkuint32_t size, void *ud, nkbool write) { Rd *o = (Rd *)ud; if (write) return nkfalse; o->calls++; if (o->pos + size > o->in->size()) { if (!o->garbage || o->calls > 20000) return nkfalse; for (uint32_t i = 0; i < size; i++) ((char *)data)[i] = (char)o->r->below(o->r->pct(50) ? 3 : 256); return nktrue; } memcpy(data, o->in->data() + o->pos, size); o->pos += size; return nktrue; }
Rec source(Ctx &c, Rng &r, bool bare) {
    Rec rec; Vm v; v.w.traceMax = 1000; if (bare) { v.createBare(); v.w.cs = nkxCompilerCreate(v.vm()); } else v.create(); std::vector<Piece> ps; int k = r.below(10); Program p;
    if (k < 1 || bare) ps = {{"var g0 = 1; function f(a) { return a + 1; } var g1 = object(); g1[1] = f; var g2 = coroutine(f, 2); while(1) g0 = f(g0);", "t"}};
    else if (k < 5) { GenOpts g; g.stmts = r.range(4, 20); g.boxes = r.pct(50); g.handles = r.pct(30); g.callable = true; g.coroHeavy = r.pct(40); g.objHeavy = r.pct(30); generate(p, r, g); PrintOpts po; po.r = &r; ps = printProgram(p, po); }
    else if (k < 7) ps = {{templateProgram(r, false), "t"}};
    else if (k < 8) ps = {{"var g0 = object(); var g1 = coroutine(function(a) { while(1) { a = yield(a); } }, 5); resume(g1); g0.c = g1; g0[g1] = box(4); boxref(g0[g1], g0); keep(g0); var g2 = coroutine(function() { var e = coroutine(function() { while(1) { g0.n = \"s\" + 1; yield(3); } }); while(1) { resume(e); g0.k = e; id(4); } }); resume(g2);", "t"}};
    else ps = {{wildProgram(r, r.range(2, 12)), "t"}};
    nkxSetMaxAllocatedMemory(v.vm(), 16 << 20); v.compile(ps); if (r.pct(97)) v.finalize(); nkxSetRemainingInstructionLimit(v.vm(), 4000); uint32_t n = r.pct(10) ? 0 : r.pct(50) ? r.range(1, 60) : r.range(1, 3000); nkxVmIterate(v.vm(), n); if (nkxVmHasAllocationFailure(v.vm())) return rec; if (r.pct(30)) nkxVmGarbageCollect(v.vm());
    nkxVmSerialize(v.vm(), recWriter, &rec, nktrue); c.maxi("image_bytes", rec.img.size()); c.count("source_images"); return rec; }
uint32_t nasty(Rng &r, uint32_t old) { switch (r.below(16)) { case 0: return 0; case 1: return 1; case 2: return 0xffffffffu; case 3: return 0x7fffffffu; case 4: return 0x80000000u; case 5: return old + 1; case 6: return old - 1; case 7: return old * 2; case 8: return 1u << r.below(32); case 9: return (1u << r.below(32)) - 1; case 10: return r.below(16); case 11: return r.below(300); case 12: return r.below(70000); case 13: return old ^ (1u << r.below(32)); case 14: return 0x10000000u + r.below(1000); default: return (uint32_t)r.next(); } }
str mutate(Rng &r, const Rec &a, const Rec &b, str &log) {
    str s = a.img; int m = r.pct(60) ? r.range(1, 2) : r.range(1, 12); while (m--) { if (s.empty()) break; size_t i = r.below((uint32_t)s.size()); switch (r.below(12)) {
        case 0: s[i] = (char)(s[i] ^ (1 << r.below(8))); log += fmt("flip@%zu ", i); break; case 1: s[i] = (char)r.next(); log += fmt("byte@%zu ", i); break;
        case 2: case 3: case 4: case 5: case 6: { if (a.cuts.size() < 2) break; size_t k = r.pct(25) ? r.below((uint32_t)std::min<size_t>(a.cuts.size(), 60)) : r.below((uint32_t)a.cuts.size()); size_t p = a.cuts[k], e = k + 1 < a.cuts.size() ? a.cuts[k + 1] : a.img.size(); size_t n = e - p; if (n >= 4) p += 4 * r.below((uint32_t)(n / 4)); if (p + 4 > s.size()) break; uint32_t v; memcpy(&v, &s[p], 4); if (n < 4) { s[p] = (char)nasty(r, (unsigned char)s[p]); log += fmt("small@%zu ", p); break; } uint32_t q = nasty(r, v); memcpy(&s[p], &q, 4); log += fmt("word[%zu]@%zu:%u->%u ", k, p, v, q); break; }
        case 7: { size_t p = i & ~(size_t)3; if (p + 4 > s.size()) break; uint32_t v; memcpy(&v, &s[p], 4); v = nasty(r, v); memcpy(&s[p], &v, 4); log += fmt("w@%zu=%u ", p, v); break; }
        case 8: if (r.pct(40)) { s.resize(i); log += fmt("cut@%zu ", i); } break; case 9: { size_t n = r.range(1, 40); s.erase(i, n); log += fmt("del@%zu,%zu ", i, n); break; } case 10: { size_t j = r.below((uint32_t)s.size()), n = std::min<size_t>(s.size() - j, r.range(1, 64)); if (r.pct(50)) s.insert(i, s.substr(j, n)); else for (size_t q = 0; q < n && i + q < s.size(); q++) s[i + q] = s[j + q]; log += fmt("copy@%zu<-%zu,%zu ", i, j, n); break; }
        default: { if (b.cuts.empty() || a.cuts.empty()) break; size_t k = r.below((uint32_t)b.cuts.size()), l = r.below((uint32_t)a.cuts.size()); if (a.cuts[l] <= s.size()) { s = s.substr(0, a.cuts[l]) + b.img.substr(b.cuts[k]); log += fmt("splice@%u<-%u ", a.cuts[l], b.cuts[k]); } } } }
    return s; }
void c12(Ctx &c, Rng &r) {
    Rec a = source(c, r, r.pct(5)), b = source(c, r, false); if (a.img.empty()) return; int rounds = c.thorough ? 60 : 40; for (int q = 0; q < rounds; q++) {
        str log, img; int how = r.below(20); if (how == 0) { for (int i = r.range(0, 400); i--;) img += (char)r.next(); log = "random "; } else if (how == 1) { img = a.img.substr(0, 8 + r.below(24)); for (int i = r.range(0, 2000); i--;) img += (char)(r.pct(70) ? r.below(4) : r.next()); log = "random behind the header "; } else img = mutate(r, a, b, log); if (q == 0) { img = a.img; log = "intact "; }
        c.text(log); c.evals++; c.distinct(hashStr(img)); Vm v; v.w.traceMax = 1000; v.loadTarget = true; bool bare = r.pct(5); c.phase("create"); if (bare) { v.createBare(); v.loadTarget = true; } else v.create(false); NKVM *vm = v.vm(); uint32_t mem = 1u << r.range(20, 25); nkxSetMaxAllocatedMemory(vm, mem); uint32_t stack = r.pct(50) ? r.range(1, 70000) : 65536; nkxSetMaxStackSize(vm, stack); uint32_t budget = r.range(1, 6000); nkxSetRemainingInstructionLimit(vm, budget); if (r.pct(50)) nkxSetGarbageCollectionInterval(vm, r.range(10, 3000));
        if (r.pct(20)) { c.phase("earlier load"); str l0; str first = r.pct(60) ? b.img : mutate(r, b, a, l0); Rng g0 = r.fork(); Rd rd0{&first, 0, false, &g0, 0}; bool ok0 = nkxVmSerialize(vm, rdReader, &rd0, nkfalse); if (ok0) nkxVmIterate(vm, r.range(0, 200)); c.count("loads_into_used_machine"); v.w.handles.clear(); log = "after an earlier load (" + l0 + "): " + log; c.text(log); if (nkxGetRemainingInstructionLimit(vm) > budget || nkxGetMaxAllocatedMemory(vm) > mem) c.fail("limits", "loading raised a limit"); budget = std::min(budget, nkxGetRemainingInstructionLimit(vm)); }
        Rng g = r.fork(); Rd rd{&img, 0, r.pct(15), &g, 0}; c.phase("load"); bool ok = nkxVmSerialize(vm, rdReader, &rd, nkfalse); c.count(ok ? "loaded" : "refused"); str prob; if (q == 0 && !ok && !bare && a.img.size() < 200000) { /* refused by a limit */ c.count("intact_refused"); }
        if (ok && nkxVmHasErrors(vm)) c.count("loaded_with_errors"); Rng rr = r.fork(); c.phase("run"); v.w.handles.clear(); if (nkxGetRemainingInstructionLimit(vm) > budget) prob = "loading raised the instruction limit"; if (nkxGetMaxAllocatedMemory(vm) > mem) prob = "loading raised the memory limit"; if (nkxGetMaxStackSize(vm) > stack) prob = "loading raised the stack limit";
        uint64_t before = v.w.nativeCalls; if (rr.pct(50)) nkxVmExecuteProgram(vm); else for (int k = 0; k < 30 && !v.ended(); k++) nkxVmIterate(vm, rr.range(1, 400)); if (v.w.nativeCalls - before > budget && v.w.nativeCalls > 20000) prob = "more native calls than instructions in the budget"; c.count("native_calls", v.w.nativeCalls - before); if (ok) c.count(nkxVmHasAllocationFailure(vm) ? "ran_out_of_memory" : nkxVmHasErrors(vm) ? "ran_into_error" : nkxVmProgramHasEnded(vm) ? "ran_to_end" : "ran");
        c.phase("host operations"); nkxSetRemainingInstructionLimit(vm, 2000); hostOps(v, rr, rr.range(2, 10), c); if (rr.pct(30)) { c.phase("save and load again"); str again; if (v.save(again)) { Vm w2; w2.create(false); w2.w.traceMax = 1000; nkxSetMaxAllocatedMemory(w2.vm(), mem); nkxSetRemainingInstructionLimit(w2.vm(), 2000); if (w2.load(again)) { c.count("reloaded"); nkxVmIterate(w2.vm(), 500); hostOps(w2, rr, 3, c); } w2.w.note.clear(); w2.destroy(); w2.w.note.clear(); str l = w2.leakReport(); if (prob.empty() && l.size()) prob = "reloaded: " + l; } }
        if (!nkxVmHasAllocationFailure(vm)) { str m; if (prob.empty() && !v.checkMem(m)) prob = m; } if (v.w.al.peakBytes > mem && prob.empty()) prob = "memory limit exceeded"; c.phase("delete"); v.destroy(); v.w.note.clear(); str l = v.leakReport(); if (prob.empty() && l.size()) prob = l; if (prob.size()) { c.fail(prob.substr(0, 60), prob + "\n" + log); return; } }
    c.sample("(see counters)"); }
}
ENGINE(C12, c12);

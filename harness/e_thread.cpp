// C20: several machines in one process, on one thread and on many.
#include "hostile.hpp"
#include <atomic>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <thread>
#include <chrono>

namespace {
// One machine's whole life, taken one host call at a time.  Every decision
// comes from the life's own random numbers, so a life run again, alone, has to
// repeat every observation to the byte.
struct Life {
    // what to do (fixed before any thread starts)
    Program p; std::vector<str> files; std::vector<Piece> ps; ModelResult m; bool modelled = false; uint64_t seed = 0; int kind = 0; Limits l; uint64_t refuseAt = 0; bool refuseForever = false; uint32_t mx = 50; int saves = 0, saves0 = 0;
    // where it is
    std::unique_ptr<Vm> v; std::unique_ptr<Rng> r; std::unique_ptr<Ctx> own; int phase = 0; size_t piece = 0; uint64_t steps = 0, ops = 0; bool done = false; str log, problem; std::function<void()> inNative;
    uint64_t hops = 0, records = 0, errors = 0, refused = 0;

    void reset() { v.reset(new Vm()); r.reset(new Rng(seed)); own.reset(new Ctx()); phase = 0; piece = 0; steps = ops = 0; done = false; log.clear(); problem.clear(); hops = 0; }
    void note(const char *what) {
        NKVM *vm = v->vm(); if (!vm) return;
        log += fmt("%s cur=%u peak=%u err=%u len=%u end=%d fail=%d stk=%u fld=%u max=%u gci=%u gcn=%u left=%u rec=%d\n", what, nkxVmGetCurrentMemoryUsage(vm), nkxVmGetPeakMemoryUsage(vm), nkxGetErrorCount(vm), nkxGetErrorLength(vm), (int)nkxVmProgramHasEnded(vm), (int)nkxVmHasAllocationFailure(vm),
            nkxGetMaxStackSize(vm), nkxGetMaxFieldsPerObject(vm), nkxGetMaxAllocatedMemory(vm), nkxGetGarbageCollectionInterval(vm), nkxGetGarbageCollectionNewObjectInterval(vm), nkxGetRemainingInstructionLimit(vm), v->w.records);
    }
    bool step() {   // one host call (or so); false when over
        if (done) return false; Alloc::tls = &v->w.al; Rng &q = *r; ops++;
        switch (phase) {
        case 0: v->w.keys = p.keys; if (refuseAt) { v->w.al.failAt = refuseAt; v->w.al.failForever = refuseForever; }
            v->w.onNat = [this](World &) { if (inNative) { inNative(); Alloc::tls = &v->w.al; } };
            if (!v->create()) { log += "not created: " + (v->vm() ? v->errors() : str("-")) + "\n"; phase = 6; break; } note("created"); phase = 1; break;
        case 1: if (piece < ps.size()) { std::vector<Piece> one(1, ps[piece++]); bool ok = v->compile(one); note(ok ? "compiled" : "rejected"); if (ok) break; } phase = 2; break;
        case 2: v->finalize(); v->limits(l); note("finalized"); log += v->errors(); phase = 3; break;
        case 3: {
            if (v->ended() || steps > 60000) { phase = 4; break; }
            int k = q.below(100);
            if (k < 62) { uint32_t n = 1 + q.below(mx); v->step(n); steps += n; note("ran"); }
            else if (k < 70) { nkxVmGarbageCollect(v->vm()); note("collected"); }
            else if (k < 74) { nkxVmShrink(v->vm()); note("shrunk"); }
            else if (k < 80) { log += v->errors() + "|"; if (p.globals.size()) log += v->global(q.pick(p.globals)->name); log += "\n"; }
            else if (k < 84) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); nkxDbgDumpState(v->vm(), modelled ? nullptr : ps.empty() ? "" : ps[0].text.c_str(), f); fclose(f); log += fmt("dump %zu %llx\n", n, (unsigned long long)hashBytes(b, n)); free(b); }
            else if (k < 88) { NKValue x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); nkxValueSetString(v->vm(), &x, fmt("text %u", q.below(9)).c_str()); nkxValueSetFloat(v->vm(), &y, q.below(1000) * 0.37f);
                const char *s = nkxValueToString(v->vm(), &y); log += s ? s : "NULL"; log += fmt(" %d %g\n", nkxValueToInt(v->vm(), &y), nkxValueToFloat(v->vm(), &y)); }
            else if (k < 92 && saves) {
                saves--; str img; v->w.boxSer = 0; bool ok = v->save(img); log += fmt("image %d %zu %llx\n", (int)ok, img.size(), (unsigned long long)hashStr(img)); note("saved");
                if (ok && !refuseAt && q.pct(70)) {
                    std::unique_ptr<Vm> t(new Vm()); Alloc::tls = &t->w.al; if (!t->create(false)) { problem = "load target not created: " + t->errors(); done = true; return false; }
                    if (!t->load(img)) { problem = "load of a good image failed: " + t->errors(); done = true; return false; }
                    t->carry(*v); t->w.onNat = v->w.onNat; v->w.onNat = nullptr; v->destroy(); str lk = v->leakReport(); if (lk.size()) { problem = lk; done = true; return false; }
                    v = std::move(t); Alloc::tls = &v->w.al; v->limits(l); hops++; note("loaded");
                }
            } else if (!modelled && k < 97) { hostOps(*v, q, 1 + q.below(6), *own); note("host operations"); }
            break; }
        case 4: {
            v->w.onNat = nullptr; if (q.pct(50)) nkxVmGarbageCollect(v->vm()); note("final"); RunResult a; if (!v->ended()) a.timeout = true; collect(*v, &p, a); records = v->w.records; errors = nkxGetErrorCount(v->vm());
            for (auto &e : v->errorList()) log += e + "\n"; log += a.trace; for (auto &g : a.globals) log += g.first + "=" + g.second + "\n";
            if (modelled) { str d = agree(a, m, files); if (d.size()) problem = "differs from the reference interpreter: " + d; }
            str why; if (!refuseAt && !v->checkMem(why)) problem += why; if (own->failures) problem += "host operations"; phase = 5; break; }
        default: { v->w.onNat = nullptr; refused = v->w.al.refused; v->destroy(); str lk = v->leakReport(); if (lk.size()) problem += lk; log += fmt("over: %llu requests, %llu releases\n", (unsigned long long)v->w.al.requests, (unsigned long long)v->w.al.frees); done = true; return false; }
        }
        return true;
    }
};
void makeLife(Ctx &c, Rng &r, Life &f) {
    f.seed = r.next(); f.kind = r.below(100); f.mx = r.pct(40) ? 1 + r.below(8) : 1 + r.below(400); f.saves = f.saves0 = r.pct(50) ? r.range(1, 4) : 0;
    if (f.kind < 72) {
        GenOpts g; g.stmts = r.range(3, 12); g.funcs = r.range(1, 4); g.depth = 2; g.boxes = r.pct(60); g.handles = r.pct(40); g.coroHeavy = r.pct(45); g.objHeavy = r.pct(40); g.strHeavy = r.pct(40); g.faultPct = 15; g.tick = r.pct(30);
        generate(f.p, r, g); PrintOpts po; po.r = &r; f.ps = printProgram(f.p, po, &f.files); ModelOpts mo; mo.maxSteps = 12000; f.m = runModel(f.p, mo); f.modelled = !f.m.discard;
        if (r.pct(40)) { f.l.gcInterval = 1 + r.below(40); f.l.gcNew = 1 + r.below(8); }
        if (r.pct(30)) { f.modelled = false; int k = r.below(5); if (k == 0) f.l.instr = 1 + r.below(800); else if (k == 1) f.l.stack = 4 + r.below(60); else if (k == 2) f.l.fields = 1 + r.below(5); else if (k == 3) f.l.mem = 4000 + r.below(60000); else { f.refuseAt = 1 + r.below(900); f.refuseForever = r.pct(50); } }
        // small limits of one machine must not be felt by the others; large ones neither
        if (f.modelled && r.pct(30)) { f.l.instr = 4000000; f.l.stack = 65536; f.l.fields = 100000; f.l.mem = 200000000; }
    } else {
        str kind; int n = r.pct(80) ? 1 : r.range(2, 3); for (int i = 0; i < n; i++) { Piece q; q.text = f.kind < 86 ? templateProgram(r, false) : hostileText(c, r, &kind); if (q.text.size() > 20000) q.text.resize(20000); q.file = fmt("h%d.nks", i); f.ps.push_back(q); }
        f.l.instr = 3000 + r.below(30000); f.l.stack = 2000; f.l.fields = 2000; f.l.mem = 1000000 + r.below(2000000); f.mx = 1 + r.below(4000);
    }
}
str whole(std::vector<std::unique_ptr<Life>> &ls) { str s; for (size_t i = 0; i < ls.size(); i++) s += fmt("--- machine %zu\n", i) + showPieces(ls[i]->ps); return s; }

void c20(Ctx &c, Rng &r) {
    static bool first = true; bool spark = first; first = false;   // the very first machines of the process are made by racing threads
    int n = r.pct(70) ? r.range(2, 4) : r.range(2, 8); int mode = spark ? 0 : r.below(10); const char *name;
    std::vector<std::unique_ptr<Life>> ls; for (int i = 0; i < n; i++) { ls.emplace_back(new Life()); makeLife(c, r, *ls.back()); }
    // some machines run the same script as another one
    if (r.pct(25) && n > 2) { ls[1]->ps.clear(); Rng a(7); uint64_t s = r.next(); for (int i = 0; i < 2; i++) { Rng q(s); ls[i].reset(new Life()); makeLife(c, q, *ls[i]); } ls[1]->seed = r.next(); c.count("same_script"); }
    str text = whole(ls); c.text(text); c.sample(text); for (auto &l : ls) l->reset();
    uint64_t switches = 0;
    if (mode < 5) {
        name = "machines on several threads"; c.phase(name); c.count("threaded_cases"); c.count("threads", n); pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, n); std::vector<std::thread> th; std::atomic<int> running{0}; std::atomic<uint64_t> overlapped{0};
        for (int i = 0; i < n; i++) { Life *l = ls[i].get(); th.emplace_back([l, &bar, &running, &overlapped] { pthread_barrier_wait(&bar); running.fetch_add(1, std::memory_order_relaxed); uint64_t o = 0; while (l->step()) { if (running.load(std::memory_order_relaxed) > 1) o++; } running.fetch_sub(1, std::memory_order_relaxed); overlapped.fetch_add(o, std::memory_order_relaxed); }); }
        for (auto &t : th) t.join(); pthread_barrier_destroy(&bar); c.count("calls_made_while_other_threads_ran", overlapped.load());
    } else if (mode < 7) {
        name = "machines interleaved on one thread"; c.phase(name); c.count("interleaved_cases"); int left = n, last = -1; while (left) { int i = r.below(n); if (ls[i]->done) continue; int k = r.pct(60) ? 1 : 1 + r.below(12); if (i != last) { switches++; last = i; } while (k--) if (!ls[i]->step()) { left--; break; } }
    } else if (mode < 9) {
        name = "machines handed from thread to thread"; c.phase(name); c.count("handed_cases"); int T = r.range(2, 4); std::vector<std::mutex> mu(n); std::vector<std::thread> th; std::atomic<uint64_t> sw{0}; std::vector<int> owner(n, -1);
        for (int t = 0; t < T; t++) { uint64_t s = r.next(); th.emplace_back([&, t, s] { Rng q(s); for (;;) { int alive = 0; for (int i = 0; i < n; i++) { std::unique_lock<std::mutex> g(mu[i], std::try_to_lock); if (!g.owns_lock()) { alive++; continue; } if (ls[i]->done) continue; alive++; if (q.pct(40)) continue; if (owner[i] != t) { owner[i] = t; sw++; } int k = 1 + q.below(6); while (k-- && ls[i]->step()) {} } if (!alive) return; std::this_thread::yield(); } }); }
        for (auto &t : th) t.join(); switches = sw;
    } else {
        name = "machines used from another's native functions"; c.phase(name); c.count("nested_cases"); uint64_t s = r.next(); Rng q(s); std::vector<Life *> stack; std::vector<char> busy(n, 0);
        std::function<void(int)> drive = [&](int skip) { if (q.pct(70)) return; int i = q.below(n); if (busy[i] || ls[i]->done) return; busy[i] = 1; switches++; int k = 1 + q.below(4); while (k-- && ls[i]->step()) {} busy[i] = 0; };
        for (int i = 0; i < n; i++) ls[i]->inNative = [&drive, i] { drive(i); };
        int left = 1; while (left) { left = 0; for (int i = 0; i < n; i++) if (!ls[i]->done) { left++; busy[i] = 1; for (int k = 0; k < 3 && ls[i]->step(); k++) {} busy[i] = 0; } }
        for (auto &l : ls) l->inNative = nullptr;
    }
    c.count("switches", switches); uint64_t h = hashStr(text) ^ mode; c.distinct(h);
    for (int i = 0; i < n; i++) {
        Life &l = *ls[i]; c.evals++; c.count("machines"); c.count("host_calls", l.ops); c.count("records", l.records); c.count("loads", l.hops); c.count("refused_allocations", l.refused); if (l.errors) c.count("machines_with_errors"); if (l.modelled) c.count("judged_by_the_reference");
        if (l.problem.size()) { c.fail(str(name) + ": a machine misbehaves", fmt("machine %d of %d: ", i, n) + l.problem + "\n" + text); return; }
    }
    c.phase("each machine alone");
    for (int i = 0; i < n; i++) {
        Life &l = *ls[i]; str log = l.log; Life solo; solo.p = std::move(l.p); solo.files = l.files; solo.ps = l.ps; solo.m = l.m; solo.modelled = l.modelled; solo.seed = l.seed; solo.l = l.l; solo.refuseAt = l.refuseAt; solo.refuseForever = l.refuseForever; solo.mx = l.mx; solo.saves = solo.saves0 = l.saves0; solo.reset(); while (solo.step()) {} c.evals++; c.count("solo_comparisons");
        if (solo.log != log) { c.fail(str(name) + ": a machine behaves differently alone", fmt("machine %d of %d\n", i, n) + diffText(log, solo.log, "with others", "alone") + "\n" + showPieces(l.ps)); return; }
    }
}
ENGINE(C20, c20);
}

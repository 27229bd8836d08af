// Monitors that perturb an execution (collections, slices, saves, shrinks,
// observers, layout) and hold the result against the reference interpreter.
#include "vm.hpp"

RunResult runReal(Program *p, const std::vector<Piece> &ps, Limits *l, str &problems, Vm *keep);
namespace {
struct Case { Program p; std::vector<str> files; std::vector<Piece> ps; ModelResult m; };
void feats(Ctx &c, Case &k) {
    ModelResult &m = k.m;
    for (auto &f : k.p.feat) c.count(("gen_" + f.first).c_str(), f.second);
    c.count("records", m.records); c.count("calls", m.calls); c.count("yields", m.yields); c.count("resumes", m.resumes); c.count("objects", m.objects); c.count("boxes", m.boxes);
    if (m.error) c.count("faulting_programs"); c.maxi("coroutine_nesting", m.maxCoroNest);
    if (m.records > 1) c.distinct(hashStr(m.trace));
}
bool prep(Ctx &c, Rng &r, Case &k, const GenOpts &g, PrintOpts po = PrintOpts(), uint64_t maxSteps = 20000) {
    generate(k.p, r, g); po.r = &r; if (r.pct(20)) { po.directives = true; c.count("directive_runs"); } if (r.pct(15)) po.pieces = r.range(2, 4); if (!po.pad && r.pct(4)) { static const int pd[] = {24, 30, 60, 61, 62, 63, 125, 126, 253, 254, 255, 300}; po.pad = pd[r.below(12)]; c.count("long_name_runs"); } k.ps = printProgram(k.p, po, &k.files); c.text(showPieces(k.ps));
    ModelOpts mo; mo.maxSteps = maxSteps; k.m = runModel(k.p, mo); if (k.m.discard) { c.count("discarded"); return false; }
    feats(c, k); return true;
}
GenOpts mixed(Rng &r) {
    GenOpts g; g.stmts = r.range(4, 14); g.funcs = r.range(1, 4); g.depth = 2; g.boxes = r.pct(60); g.handles = r.pct(50); g.coroHeavy = r.pct(45); g.objHeavy = r.pct(40); g.faultPct = 8; g.tick = r.pct(30); g.bulkPct = 2; return g;
}
// judges the machine's final state against the model
bool judge(Ctx &c, Vm &v, Case &k, const str &what) {
    RunResult a; collect(v, &k.p, a); if (!v.ended()) a.timeout = true;
    str d = agree(a, k.m, k.files); c.evals++;
    if (d.empty()) for (size_t i = 0; i < v.w.kept.size(); i++) { str n = fmt("#kept%zu", i); if (k.m.globals[n] != a.globals[n]) d = "host-held value " + n + ": real " + a.globals[n] + ", expected " + k.m.globals[n]; }
    if (d.size()) { c.fail(what, d + "\n" + showPieces(k.ps)); return false; }
    return true;
}
bool finish(Ctx &c, Vm &v, Case &k, const char *what) {
    str why; bool ok = v.checkMem(why); v.destroy(); str l = v.leakReport(); if (!ok) l += why;
    if (l.size()) { c.fail(str(what) + ": host-side bookkeeping", l + "\n" + showPieces(k.ps)); return false; }
    return true;
}
bool start(Ctx &c, Vm &v, Case &k) {
    v.w.keys = k.p.keys;
    if (!v.build(k.ps)) { RunResult a; a.compileErr = true; collect(v, nullptr, a); c.fail("well-formed program rejected", a.errText + "\n" + showPieces(k.ps)); return false; }
    return true;
}
uint32_t countSteps(Case &k, uint32_t cap) { Vm v; v.w.keys = k.p.keys; if (!v.build(k.ps)) return 0; uint32_t n = 0; while (!v.ended() && n < cap) { v.step(1); n++; } return n; }

// ------------------------------------------------------------ C08
// Many globals, each the only reference to a fresh value, in a full or nearly full static space.
void c08globals(Ctx &c, Rng &r) {
    int n = r.range(1, 130), m = r.pct(50) ? r.range(1, 40) : 0; str t;
    for (int i = 0; i < n; i++) { static const char *const f[] = {"var v%d = \"t\" + %d;\n", "var v%d = object(); v%d.x = \"o\" + %d;\n", "var v%d = function() { return %d; };\n", "var v%d; v%d = coroutine(function(a) { yield(a); return a; }, \"z\" + %d);\n"}; int k = r.below(4); t += k == 0 || k == 2 ? fmt(f[k], i, i) : fmt(f[k], i, i, i); }
    if (m) { t += "function loc() {\n"; for (int i = 0; i < m; i++) t += fmt("var l%d = \"l\" + %d;\n", i, i); t += "tick(); junk(); return "; for (int i = 0; i < m; i++) t += fmt(i ? " + l%d" : "l%d", i); t += ";\n}\n"; }
    t = "function junk() { for(var i = 0; i < 80; ++i) { var a = object(); a.b = \"junk\" + i; } return 0; }\n" + t + "tick(); junk();\n"; if (m) t += "out(loc());\n";
    for (int i = 0; i < n; i++) t += fmt("out(v%d);\n", i);
    c.text(t); RunResult a[2];
    for (int k = 0; k < 2; k++) {
        Vm v; c.phase(k ? "many globals, collected" : "many globals"); if (!v.build({{t, "g.nks"}})) { c.fail("well-formed program rejected", v.errors() + t); return; }
        Limits l; l.gcInterval = k && r.pct(50) ? 1 + r.below(5) : 100000; l.gcNew = k ? 1 + r.below(20) : 100000; v.limits(l); if (k) v.w.onTick = [&](World &w) { nkxVmGarbageCollect(w.vm); c.count("collections"); };
        a[k].timeout = !v.run(); collect(v, nullptr, a[k]); c.evals++; v.w.onTick = nullptr; v.destroy(); str le = v.leakReport(); if (le.size()) { c.fail("host-side bookkeeping", le + t); return; }
    }
    c.count("full_global_runs"); str d = agreeRuns(a[1], a[0], false, false); if (a[0].error || a[0].timeout) d = "program failed: " + a[0].errText; if (d.size()) c.fail("collection of values held by globals", d + "\n" + t);
}
void c08(Ctx &c, Rng &r) {
    if (r.pct(20)) return c08globals(c, r);
    Case k; GenOpts g = mixed(r); g.strHeavy = r.pct(30); if (!prep(c, r, k, g)) return;
    c.sample(showPieces(k.ps));
    for (int variant = 0; variant < 4; variant++) {
        Vm v; if (!start(c, v, k)) return; uint64_t gcs = 0; str name;
        Rng q = r.fork();
        if (variant == 0) { name = "collection after every instruction"; c.phase(name.c_str()); uint32_t n = 0; while (!v.ended() && n < 6000) { v.step(1); nkxVmGarbageCollect(v.vm()); gcs++; n++; } v.run(); }
        else if (variant == 1) { name = "collection at random instructions"; c.phase(name.c_str()); uint32_t m = 1 + q.below(60), n = 0; while (!v.ended() && n++ < 20000) { v.step(1 + q.below(m)); nkxVmGarbageCollect(v.vm()); gcs++; } }
        else if (variant == 2) {
            static const uint32_t iv[] = {1, 2, 3, 5, 7, 16, 50, 200, 1000}; Limits l; l.gcInterval = iv[q.below(9)]; l.gcNew = 1 + (q.pct(60) ? q.below(3) : q.below(60)); name = fmt("automatic collection, interval %u after %u new objects", l.gcInterval, l.gcNew - 1);
            c.phase(name.c_str()); v.limits(l); v.run(); name = "automatic collection"; gcs = 1;
        } else {
            name = "collection from native functions"; c.phase(name.c_str()); int pc = q.pct(50) ? 100 : 30; v.w.onNat = [&](World &w) { if (q.pct(pc)) { nkxVmGarbageCollect(w.vm); gcs++; } };
            v.w.onTick = [&](World &w) { nkxVmGarbageCollect(w.vm); gcs++; }; v.run(); v.w.onNat = nullptr;
        }
        c.count("collections", gcs); c.count("mark_callbacks", v.w.marks); c.count("host_objects_finalised_early", v.w.cleanups);
        if (!judge(c, v, k, name)) return;
        nkxVmGarbageCollect(v.vm()); if (!judge(c, v, k, "collection after the end")) return;
        if (!finish(c, v, k, name.c_str())) return;
    }
}
// ------------------------------------------------------------ C15
void c15(Ctx &c, Rng &r) {
    Case k; GenOpts g = mixed(r); if (r.pct(40)) g.callbacks = true; if (!prep(c, r, k, g)) return;
    c.sample(showPieces(k.ps));
    std::vector<size_t> len; // trace length after n instructions
    { Vm v; if (!start(c, v, k)) return; c.phase("single steps"); len.push_back(0); while (!v.ended() && len.size() < 400000) { v.step(1); len.push_back(v.w.trace.size()); } if (!judge(c, v, k, "single steps")) return; if (!finish(c, v, k, "single steps")) return; }
    { Vm v; if (!start(c, v, k)) return; c.phase("one call"); nkbool ok = nkxVmExecuteProgram(v.vm()); if ((bool)ok == v.hasErrors()) { c.fail("one call: wrong return value", showPieces(k.ps)); return; } if (!judge(c, v, k, "one call")) return; }
    for (int i = 0; i < 3; i++) { Vm v; if (!start(c, v, k)) return; c.phase("random slices"); uint32_t mx = i == 0 ? 3 : i == 1 ? 40 : 2000; uint32_t n = 0; while (!v.ended() && n++ < 400000) { v.step(r.pct(5) ? 0 : 1 + r.below(mx)); c.count("slices"); } if (!judge(c, v, k, "random slices")) return; if (!finish(c, v, k, "random slices")) return; }
    // executing after the end changes nothing
    { Vm v; if (!start(c, v, k)) return; v.run(); size_t t = v.w.trace.size(); c.phase("iterate after the end"); for (int i = 0; i < 3; i++) v.step(1 + r.below(50)); if (v.w.trace.size() != t) { c.fail("execution continued after the end", showPieces(k.ps)); return; } if (!judge(c, v, k, "iterate after the end")) return; }
    // budgets; without script callbacks instruction counts of the slices are exact
    uint64_t T = len.size() - 1; bool nested = k.m.cbs > 0;
    for (int i = 0; i < 4; i++) {
        Vm v; if (!start(c, v, k)) return; Limits l; static const uint32_t iv[] = {1, 2, 3, 7, 10, 64, 1000, 5000}; uint32_t I = iv[r.below(8)]; l.gcInterval = I; if (r.pct(60)) l.gcNew = 1 + (r.pct(70) ? r.below(3) : r.below(40));
        uint64_t B = r.pct(70) ? 1 + r.below((uint32_t)T + 2) : T + I + r.below(50); l.instr = (uint32_t)B; v.limits(l); c.phase("instruction budget");
        if (nkxGetRemainingInstructionLimit(v.vm()) != B) { c.fail("budget query", showPieces(k.ps)); return; }
        if (r.pct(50)) v.run(); else { uint32_t n = 0; while (!v.ended() && n++ < 400000) v.step(1 + r.below(30)); }
        c.count("budget_runs"); c.evals++;
        if (nested) { // only boundedness and the prefix property are judged
            if (v.w.trace.compare(0, str::npos, k.m.trace, 0, v.w.trace.size()) != 0) { c.fail("budgeted run is not a prefix", showPieces(k.ps)); return; } continue; }
        RunResult a; collect(v, &k.p, a); bool stopped = a.errText.find("nstruction") != str::npos;
        str ctx = fmt("budget %llu interval %u program length %llu error '%s'\n", (unsigned long long)B, I, (unsigned long long)T, a.errText.c_str()) + showPieces(k.ps);
        if (stopped) c.count("budget_stops");
        if (B >= T + I && stopped) { c.fail("a program that fits the budget was stopped", ctx); return; }
        if (!stopped) {
            if (T > B + I) { c.fail("a program longer than the budget was not stopped", ctx); return; }
            if (!judge(c, v, k, "budget large enough")) return;
        } else {
            size_t t = v.w.trace.size(); size_t lo = B >= 2 * (uint64_t)I ? len[std::min<uint64_t>(B - 2 * I, T)] : 0, hi = len[std::min<uint64_t>(B + I, T)];
            if (t > hi || v.w.trace != k.m.trace.substr(0, t)) { c.fail("stopped later than the budget allows", ctx); return; }
            if (t < lo) { c.fail("stopped long before the budget", ctx); return; }
            size_t t2 = v.w.trace.size(); v.step(100); if (v.w.trace.size() != t2) { c.fail("execution continued after the budget ran out", ctx); return; }
        }
        if (!finish(c, v, k, "budget")) return;
    }
}
// ------------------------------------------------------------ C21
void c21(Ctx &c, Rng &r) {
    Case k; GenOpts g = mixed(r); if (!prep(c, r, k, g)) return;
    c.sample(showPieces(k.ps)); uint32_t T = countSteps(k, 8000);
    for (int variant = 0; variant < 3; variant++) {
        Vm v; if (!start(c, v, k)) return; Rng q = r.fork(); uint64_t n = 0; str what = variant == 0 ? "shrink at one instruction" : variant == 1 ? "shrink at many instructions" : "collect and shrink";
        c.phase(what.c_str()); uint32_t at = q.below(T + 1), mx = variant == 0 ? 0 : 1 + q.below(variant == 1 ? 12 : 80); bool bad = false; uint32_t it = 0;
        while (!v.ended() && it++ < 20000 && !bad) {
            v.step(variant == 0 ? (at ? at : 1) : 1 + q.below(mx));
            if (variant == 0 && n) continue;
            if (variant == 2 || q.pct(20)) nkxVmGarbageCollect(v.vm());
            uint32_t before = nkxVmGetCurrentMemoryUsage(v.vm()); nkxVmShrink(v.vm()); uint32_t after = nkxVmGetCurrentMemoryUsage(v.vm()); n++;
            if (after > before) { c.fail("memory use grew", fmt("%u -> %u\n", before, after) + showPieces(k.ps)); return; }
            if (after < before) c.count("shrinks_that_freed");
        }
        c.count("shrinks", n); v.run();
        if (!judge(c, v, k, what)) return;
        nkxVmShrink(v.vm()); if (!judge(c, v, k, "shrink after the end")) return;
        nkxVmGarbageCollect(v.vm()); nkxVmShrink(v.vm()); if (!judge(c, v, k, "collect and shrink after the end")) return;
        if (!finish(c, v, k, what.c_str())) return;
    }
}
// ------------------------------------------------------------ C24
void c24(Ctx &c, Rng &r) {
    Case k; GenOpts g = mixed(r); g.faultPct = 30; g.handles = false; if (!prep(c, r, k, g)) return;
    c.sample(showPieces(k.ps));
    for (int i = 0; i < 4; i++) {
        PrintOpts po; po.r = &r; po.random = r.pct(80); po.parens = r.pct(60); po.blocks = r.pct(50); po.comments = r.pct(60); po.rename = r.pct(50); if (!po.rename && r.pct(15)) { static const int pd[] = {24, 30, 60, 61, 62, 63, 125, 126, 253, 254, 255, 300}; po.pad = pd[r.below(12)]; c.count("long_name_runs"); } po.oneLine = r.pct(15); po.crlf = r.pct(25); po.directives = r.pct(25); po.pieces = r.pct(50) ? 1 : r.range(2, 5); po.fileBase = r.pct(50) ? "f" : "src/some file-";
        std::vector<str> files; k.ps = printProgram(k.p, po, &files); k.files = files; c.text(showPieces(k.ps)); c.phase("layout variant");
        if (po.pieces > 1) c.count("multi_piece_runs"); if (po.rename) c.count("renamed_runs"); if (po.crlf) c.count("crlf_runs"); if (po.directives) c.count("directive_runs"); if (po.comments) c.count("comment_runs"); if (po.oneLine) c.count("one_line_runs");
        ModelResult m2 = runModel(k.p); if (m2.trace != k.m.trace) { c.count("model_changed"); return; } // blocks may not change meaning
        k.m.globals = m2.globals; k.m.errStmt = m2.errStmt; k.m.errCond = m2.errCond;
        Vm v; if (!start(c, v, k)) return; v.run(); if (!judge(c, v, k, "layout variant")) return; if (!finish(c, v, k, "layout variant")) return;
        c.distinct(hashStr(showPieces(k.ps)));
    }
}
// ------------------------------------------------------------ C11
bool loadOf(Ctx &c, Vm &from, Vm &to, Case &k, const str &img, const char *what) {
    if (c.caseIdx % 3 == 0) { to.w.shuffle = 1 + (uint32_t)img.size(); c.count("shuffled_targets"); }
    if (!to.create(false)) { c.fail(str(what) + ": target not created", to.errors()); return false; }
    if (c.caseIdx % 4 < 2 && to.w.shuffle) { str why; uint64_t n = 0; if (!to.nativesOk(why, n)) { c.fail("a native of a fresh machine is not itself", why); return false; } c.count("function_values_made_before_load", n); } // whatever the target had before is replaced
    if (!to.load(img)) { c.fail(str(what) + ": load of a good image failed", to.errors() + "\n" + showPieces(k.ps)); return false; }
    to.carry(from);
    return true;
}
// Machines with next to nothing in them: no natives, no functions, no host types, perhaps no program.
void c11bare(Ctx &c, Rng &r) {
    int kind = r.below(8), n = r.range(1, 6); str t; std::vector<str> g;
    if (kind > 1) {
        for (int i = 0; i < n; i++) { g.push_back(fmt("g%d", i)); t += r.pct(30) ? fmt("var g%d = \"t%d\";\n", i, r.below(9)) : r.pct(30) ? fmt("var g%d = %d.5;\n", i, r.below(99)) : fmt("var g%d = %d;\n", i, r.below(99)); }
        if (r.pct(70)) { g.push_back("n"); t += fmt("var n = 0; while(n < %d) { ", r.range(1, 12)); for (int i = 0; i < n; i++) t += fmt("g%d = g%d %s; ", i, i, r.pct(50) ? "+ n" : r.pct(50) ? "+ 1" : "+ (n * 3)"); t += "++n; }\n"; }
        if (r.pct(40)) { g.push_back("o"); t += fmt("var o = object(); o.a = %d; o[\"b\"] = \"x\" + o.a; o.c = object(); o.c.d = o; g0 = o.b + o.c.d.a;\n", r.below(99)); }
        if (r.pct(25)) { g.push_back("w"); t += fmt("var w = 1; for(var i = 0; i < %d; ++i) { w = w + w; if(w > 1000) { break; } }\n", r.range(1, 20)); }
        if (r.pct(20)) { g.push_back("f"); t += fmt("function f(a, b) { return a - b; }\ng0 = f(%d, 4);\n", r.below(99)); }
    }
    c.text(t); c.distinct(hashStr(t)); c.count("bare_runs"); str ref; size_t steps = 0;
    auto state = [&](Vm &v) { str o; for (auto &x : g) { NKValue *y = nkxVmFindGlobalVariable(v.vm(), nullptr, x.c_str()); if (!y) { o += x + " is missing\n"; continue; } std::map<uint64_t, int> ids; str d; dumpV(v.w, y, ids, 3, d); o += x + " " + d + "\n"; } return o + v.errors(); };
    auto make = [&](Vm &v) { c.phase("bare machine"); if (!v.createBare()) return false; if (kind) { v.w.cs = nkxCompilerCreate(v.vm()); if (kind > 1) v.compile({{t, "b.nks"}}); v.finalize(); } if (v.hasErrors()) { c.fail("well-formed program rejected", v.errors() + t); return false; } return true; };
    { Vm v; if (!make(v)) return; while (!v.ended() && steps < 3000) { v.step(1); steps++; } ref = state(v); v.destroy(); str l = v.leakReport(); if (l.size()) { c.fail("host-side bookkeeping", l + t); return; } }
    for (int k = 0; k < 3; k++) {
        Vm v, u; if (!make(v)) return; v.step(r.below((uint32_t)steps + 1)); str img;
        if (r.pct(30)) { c.phase("shrink"); nkxVmShrink(v.vm()); } if (r.pct(30)) { c.phase("collect"); nkxVmGarbageCollect(v.vm()); } if (r.pct(30)) { c.phase("dump"); FILE *f = fopen("/dev/null", "w"); nkxDbgDumpState(v.vm(), r.pct(50) ? t.c_str() : "", f); fclose(f); } c.phase("save"); if (!v.save(img)) { c.fail("save failed", v.errors() + t); return; } c.count("images");
        if (!u.createBare()) return; u.loadTarget = true; c.phase("load"); if (!u.load(img)) { c.fail("load of a good image failed", u.errors() + t); return; }
        Vm *both[] = {&v, &u}; for (auto *m : both) { if (kind) m->run(); c.evals++; str s = state(*m); if (s != ref || (kind && !m->ended())) { c.fail(m == &u ? "loaded machine continues" : "original continues after saving", diffText(s, ref, "continued", "undisturbed") + t); return; } str why; if (!m->checkMem(why)) { c.fail("accounting after load", why + t); return; } m->destroy(); str l = m->leakReport(); if (l.size()) { c.fail("host-side bookkeeping", l + t); return; } }
    }
}
void c11(Ctx &c, Rng &r) {
    if (r.pct(4)) return c11bare(c, r);
    Case k; GenOpts g = mixed(r); if (!prep(c, r, k, g)) return;
    c.sample(showPieces(k.ps)); uint32_t T = countSteps(k, 8000);
    for (int variant = 0; variant < 3; variant++) {
        std::unique_ptr<Vm> v(new Vm()); if (!start(c, *v, k)) return; Rng q = r.fork(); int hops = variant == 0 ? 1 : variant == 1 ? q.range(2, 5) : 20; uint32_t mx = variant == 2 ? 1 + q.below(60) : T + 1;
        Limits l; if (q.pct(40)) { l.gcInterval = 1 + q.below(20); l.gcNew = 1 + q.below(3); v->limits(l); }
        for (int h = 0; h < hops; h++) {
            uint32_t n = variant == 0 ? q.below(T + 1) : 1 + q.below(mx); if (n) v->step(n);
            bool over = v->ended(); if (over && variant == 2) h = hops;
            str img, img2; v->w.serLog.clear(); v->w.boxSer = 0; int ss0 = v->w.ssSer; int live = (int)v->w.boxes.size(); c.phase("save");
            if (!v->save(img)) { c.fail("save failed", v->errors() + "\n" + showPieces(k.ps)); return; }
            if (v->w.boxSer != live || v->w.ssSer != ss0 + 1) { c.fail("serializers not called once per item", fmt("%d calls for %d live host objects, %d subsystem calls\n", v->w.boxSer, live, v->w.ssSer - ss0) + showPieces(k.ps)); return; }
            std::vector<int> wl = v->w.serLog; c.count("images"); c.maxi("image_bytes", img.size());
            if (q.pct(30)) { if (!v->save(img2) || img2 != img) { c.fail("saving twice gives different images", showPieces(k.ps)); return; } }
            std::unique_ptr<Vm> t(new Vm()); c.phase("load"); v->w.ssData = 1000 + h; if (!v->save(img)) { c.fail("save failed", ""); return; }
            t->w.ssData = -1; if (!loadOf(c, *v, *t, k, img, "load")) return;
            if (t->w.boxLoads != live || t->w.serLog != wl) { c.fail("serializers not called once per item on load", fmt("%d of %d\n", t->w.boxLoads, live) + showPieces(k.ps)); return; }
            if (t->w.ssLoaded != 1000 + h) { c.fail("subsystem data stream lost", showPieces(k.ps)); return; }
            if (nkxGetGarbageCollectionInterval(t->vm()) != nkxGetGarbageCollectionInterval(v->vm()) || nkxGetGarbageCollectionNewObjectInterval(t->vm()) != nkxGetGarbageCollectionNewObjectInterval(v->vm())) { c.fail("collection settings lost", showPieces(k.ps)); return; }
            str why; if (!t->checkMem(why)) { c.fail("accounting after load", why + "\n" + showPieces(k.ps)); return; }
            if (q.pct(40)) { str img3; c.phase("save of the loaded machine"); if (!t->save(img3)) { c.fail("save of the loaded machine failed", t->errors() + "\n" + showPieces(k.ps)); return; } c.count(img3 == img ? "resave_identical" : "resave_different_bytes");
                Vm u; if (!loadOf(c, *t, u, k, img3, "load of second generation")) return; u.run(); if (!judge(c, u, k, "second generation")) return; if (!finish(c, u, k, "second generation")) return; }
            if (variant != 2 || q.pct(20)) { c.phase("original continues"); int mk = v->w.marks, cl = v->w.cleanups; v->run(); if (!judge(c, *v, k, "original continues after saving")) return; int om = v->w.marks - mk, oc = v->w.cleanups - cl; if (!finish(c, *v, k, "original")) return;
                if (variant == 0 && l.gcInterval && q.pct(70)) { // collections come at the same instructions in the copy
                    int tm = t->w.marks, tc = t->w.cleanups; c.phase("loaded machine continues"); t->run(); if (!judge(c, *t, k, "loaded machine continues")) return; tm = t->w.marks - tm; tc = t->w.cleanups - tc; c.count("collection_schedules_compared", om > 0); if (tm != om || tc != oc) { c.fail("a loaded machine collects at other times", fmt("%d marks and %d clean-ups in the original, %d and %d in the copy\n", om, oc, tm, tc) + showPieces(k.ps)); return; } } }
            if (l.gcInterval) t->limits(l);
            v = std::move(t);
            if (variant == 1 && over) break;
        }
        c.phase("loaded machine continues"); v->run(); if (!judge(c, *v, k, "loaded machine continues")) return;
        if (q.pct(50)) { nkxVmGarbageCollect(v->vm()); if (!judge(c, *v, k, "loaded machine after a collection")) return; }
        if (q.pct(60)) { str why; uint64_t n = 0; c.phase("natives of a loaded machine"); if (!v->nativesOk(why, n)) { c.fail("a native is no longer itself after loading", why + "\n" + showPieces(k.ps)); return; } c.count("natives_called_after_load", n); }
        if (!finish(c, *v, k, "loaded machine")) return;
    }
}
// ------------------------------------------------------------ C27
nkbool nullWriter(void *data, nkuint32_t size, void *ud, nkbool) { MS_CHECK(data, size); (*(uint64_t *)ud)++; return nktrue; }
str observe(Vm &v, Case &k, FILE *sink, bool &bad, str &why) {
    NKVM *vm = v.vm(); str o; auto num = [&](const char *n, uint64_t x) { o += fmt("%s=%llu ", n, (unsigned long long)x); };
    uint32_t m0 = nkxVmGetCurrentMemoryUsage(vm);
    { uint32_t p1 = nkxVmGetPeakMemoryUsage(vm), p2 = nkxVmGetPeakMemoryUsage(vm); if (p1 != p2 || p1 < m0 || p1 < v.seenPeak) { bad = true; why = fmt("peak of memory use %u, then %u, earlier %u, now in use %u", p1, p2, v.seenPeak, m0); } v.seenPeak = p1; }
    num("err", nkxGetErrorCount(vm)); num("len", nkxGetErrorLength(vm)); num("has", nkxVmHasErrors(vm)); num("end", nkxVmProgramHasEnded(vm)); num("alloc", nkxVmHasAllocationFailure(vm)); num("mem", m0);
    num("stk", nkxGetMaxStackSize(vm)); num("fld", nkxGetMaxFieldsPerObject(vm)); num("maxmem", nkxGetMaxAllocatedMemory(vm)); num("gci", nkxGetGarbageCollectionInterval(vm)); num("gcn", nkxGetGarbageCollectionNewObjectInterval(vm)); num("left", nkxGetRemainingInstructionLimit(vm));
    o += v.errors(); num("type", nkxVmFindExternalType(vm, "box").id); num("notype", nkxVmFindExternalType(vm, "no such").id); o += nkxVmGetExternalTypeName(vm, v.w.boxType); if (nkxVmGetExternalTypeName(vm, NKVMExternalDataTypeID{12345})) o += "?";
    num("ss", (uint64_t)(nkxGetExternalSubsystemData(vm, "ss") == v.w.ssPtr)); num("noss", (uint64_t)nkxGetExternalSubsystemData(vm, "other"));
    o += nkxVmFindGlobalVariable(vm, nullptr, "no such variable") ? "found " : "missing ";
    num("ud", nkxGetUserData(vm) == &v.w);
    for (auto *g : k.p.globals) { NKValue *x = nkxVmFindGlobalVariable(vm, nullptr, g->name.c_str()); if (!x) { o += g->name + " missing "; continue; } std::map<uint64_t, int> ids; NKValue y = *x; o += canonV(v.w, &y, ids) + " "; if (y.type == NK_VALUETYPE_OBJECTID) { num("h", nkxVmObjectGetExternalHandleCount(vm, &y)); num("t", nkxVmObjectGetExternalType(vm, &y).id); num("d", nkxVmObjectGetExternalData(vm, &y) != nullptr && isBoxObj(v.w, &y)); } }
    { NKValue x; uint32_t i = 0; int n = 0; while (nkxGetNextObjectOfExternalType(vm, v.w.boxType, &x, &i)) { n++; if (n > 100000) { bad = true; why = "enumeration does not end"; break; } } num("boxes", n); if (n != (int)v.w.boxes.size()) { bad = true; why = fmt("enumeration found %d host objects, %zu are live", n, v.w.boxes.size()); } }
    for (auto *g : k.p.globals) { NKValue *x = nkxVmFindGlobalVariable(vm, nullptr, g->name.c_str()); if (!x || x->type != NK_VALUETYPE_OBJECTID) continue; NKValue ob = *x, key; memset(&key, 0, sizeof key); nkxValueSetInt(vm, &key, 987654); if (nkxVmObjectFindOrAddEntry(vm, &ob, &key, nktrue)) o += "phantom "; nkxValueSetFloat(vm, &key, 77.25f); if (nkxVmObjectFindOrAddEntry(vm, &ob, &key, nktrue)) o += "phantom "; }
    if (sink) { nkxDbgDumpState(vm, "", sink); }
    uint64_t w = 0; if (!nkxVmSerialize(vm, nullWriter, &w, nktrue)) { bad = true; why = "save failed: " + v.errors(); } num("chunks", w);
    uint32_t m1 = nkxVmGetCurrentMemoryUsage(vm); if (m1 != m0) { bad = true; why = fmt("memory use changed from %u to %u by observing", m0, m1); }
    return o;
}
void c27(Ctx &c, Rng &r) {
    Case k; GenOpts g = mixed(r); g.faultPct = 20; if (!prep(c, r, k, g, PrintOpts(), 6000)) return;
    c.sample(showPieces(k.ps)); uint32_t T = countSteps(k, 8000); FILE *sink = fopen("/dev/null", "w");
    for (int variant = 0; variant < 2; variant++) {
        Vm v; if (!start(c, v, k)) { fclose(sink); return; } if (r.pct(40)) { Limits l; l.gcInterval = 1 + r.below(20); l.gcNew = 1 + r.below(3); v.limits(l); }
        uint32_t mx = variant == 0 ? 1 + r.below(5) : 1 + r.below(T + 1); uint32_t it = 0, cap = 300; c.phase("observers between instructions");
        do {
            bool bad = false; str why; bool dump = r.pct(50); uint32_t left = nkxGetRemainingInstructionLimit(v.vm()); (void)left;
            str a = observe(v, k, dump ? sink : nullptr, bad, why), b = observe(v, k, dump ? sink : nullptr, bad, why); c.count("observations", 2); c.evals++;
            if (!bad && a != b) { bad = true; why = "repeated observation differs:\n" + a + "\n" + b; }
            if (bad) { c.fail("observing changed something", why + "\n" + showPieces(k.ps)); fclose(sink); return; }
            if (v.ended()) break; v.step(it < cap ? 1 + r.below(mx) : 2000);
        } while (it++ < 2000);
        if (!judge(c, v, k, "observed run")) break; if (!finish(c, v, k, "observed run")) break;
    }
    fclose(sink);
}
// ------------------------------------------------------------ C14
struct L14 { Program &p; Rng &r; int mask; Var *obj = nullptr; std::vector<Stmt *> *pre; int n = 0; std::vector<Var *> params; std::vector<Expr *> args; bool inFn = false; int *slots; std::vector<Var *> *locals;
    Expr *wrap(Expr *lit) {   // a literal, or something that holds it at run time
        if (!r.pct(mask)) return lit;
        int k = r.below(inFn ? 4 : 3); Var *v = p.V(fmt("L%d", (int)p.vr.size())); v->type = 'n';
        if (k == 3) { v->slot = (*slots)++; params.push_back(v); args.push_back(lit); return p.R(v); }
        if (k == 2) { Expr *x = p.E(E_INDEX); x->a = {p.R(obj), p.I(1000 + n)}; Expr *y = p.E(E_INDEX); y->a = {p.R(obj), p.I(1000 + n)}; n++; pre->push_back(p.X(p.Asg(x, lit))); return y; }
        v->global = true; v->slot = p.nGlobals++; p.globals.push_back(v); Stmt *s = p.S(S_VAR); s->var = v; s->e = lit; pre->push_back(s); return p.R(v);
    }
};
struct T14 { int k = 0, op = 0, iv = 0; str s; std::vector<T14> a; };
T14 gen14(Rng &r, int d, char want) {
    T14 t;
    if (want == 's') { // text on the left: joins and comparisons, which never fault
        static const char *const b[] = {"", "a", "12", "3.75", "-8", "abc", "0", "0.0", "a\nb"};
        if (d <= 0 || r.pct(25)) { t.k = 2; t.s = b[r.below(9)]; return t; }
        t.k = 4; t.op = r.pct(80) ? O_ADD : O_GT + (int)r.below(7); T14 o; int k = r.below(10); if (k < 3) { o.k = 0; o.iv = r.below(3); } else if (k < 5) { o.k = 1; o.s = r.pct(50) ? "0.0" : "1.5"; } else if (k < 6) o.k = 3; else if (k < 8) o = gen14(r, 0, 'i'); else o = gen14(r, d - 2, 's'); t.a = {gen14(r, d - 1, 's'), o}; return t; }
    if (d <= 0 || r.pct(12)) {
        int k = r.below(want == 'n' ? 100 : 92);
        if (want == 'i' ? k < 88 : k < 40) { t.k = 0; static const int b[] = {0, 1, 2, 3, 7, 10, 255, 256, 65535, 65536, 16777215, 16777216, 16777217, 33554433, 123456789, 1000000007, 2147483520, 2147483583, 2147483584, 2147483646, 2147483647}; t.iv = r.pct(40) ? b[r.below(21)] : r.pct(50) ? (int)r.below(20) : (int)(r.next() & 0x7fffffff); }
        else if (k < 92) {
            t.k = 1; int m = r.below(6);
            if (m == 0) t.s = floatText((float)r.below(1000) / (1 + r.below(100)));
            else if (m == 1) { t.s = fmt("%u.", r.below(100)); for (int i = 0, n = 1 + r.below(14); i < n; i++) t.s += (char)('0' + r.below(10)); }
            else if (m == 2) { for (int i = 0, n = 1 + r.below(25); i < n; i++) t.s += (char)('0' + r.below(10)); t.s += "."; for (int i = 0, n = r.below(6); i < n; i++) t.s += (char)('0' + r.below(10)); }
            else if (m == 3) { t.s = "0."; for (int i = 0, n = r.below(12); i < n; i++) t.s += '0'; for (int i = 0, n = 1 + r.below(9); i < n; i++) t.s += (char)('0' + r.below(10)); }
            else { static const char *const b[] = {"0.0", "1.0", "0.5", "2.5", "0.1", "0.2", "0.3", "16777216.0", "16777217.0", "2147483648.0", "2147483647.0", "4294967296.0", "0.3333333333333333", "1.00000011920928955", "0.00000000000000000000000000000000000001", "99999999999999999999999999999999999999.0"}; t.s = b[r.below(16)]; }
            if (t.s.size() > 60) t.s = "1.5";
        }
        else if (k < 97) { static const char *const b[] = {"", "a", "12", "3.75", "-8", "abc", "2147483648", "0x10", " 7", "1e2"}; t.k = 2; t.s = b[r.below(10)]; }
        else t.k = 3;
        return t;
    }
    int k = r.below(10);
    if (k < 2) { t.k = 5; t.a = {gen14(r, d - 1, want)}; }
    else if (k < 3) { t.k = 6; t.a = {gen14(r, d - 1, r.pct(90) ? want : 'n')}; }
    else { t.k = 4; t.op = r.pct(70) ? (int)r.below(want == 'f' && r.pct(97) ? 4 : 5) : (int)r.below(14); if (want == 'i' && t.op >= O_DIV && t.op <= O_MOD && r.pct(60)) t.op = r.below(3); t.a = {gen14(r, d - 1, want), gen14(r, d - 1, r.pct(85) ? want : r.pct(80) ? 'f' : 'n')};
        if (r.pct(12)) { // an operand that looks as if it changed nothing
            T14 z; z.k = r.pct(70) ? 0 : 1; z.iv = r.below(3); z.s = fmt("%d.0", (int)r.below(3)); if (r.pct(10)) { z.k = 2; z.s = ""; } int side = r.pct(70); t.a[side] = z; t.op = r.pct(85) ? r.below(4) : r.below(14); if (r.pct(50)) { T14 o; static const char *const b[] = {"", "a", "12", "3.75", "-8", "abc", "0", "0.0"}; if (r.pct(45)) { o.k = 2; o.s = b[r.below(8)]; t.a[!side] = o; } else t.a[!side] = gen14(r, d - 1, "fn"[r.below(2)]); } } }
    return t;
}
Expr *mk14(L14 &l, const T14 &t) {
    Program &p = l.p; Expr *e;
    switch (t.k) {
    case 0: return l.wrap(p.I(t.iv));
    case 1: return l.wrap(p.Flt(t.s));
    case 2: return l.wrap(p.Str(t.s));
    case 3: return l.wrap(p.E(E_NIL));
    case 4: { Expr *a = mk14(l, t.a[0]), *b = mk14(l, t.a[1]); return p.B(t.op, a, b); }
    default: e = p.E(t.k == 5 ? E_NEG : E_NOT); e->a = {mk14(l, t.a[0])}; return e;
    }
}
void c14(Ctx &c, Rng &r) {
    int n = 1 + r.below(10); std::vector<T14> ts; std::vector<int> cx; std::vector<T14> safe;
    for (int i = 0; i < n; i++) { ts.push_back(gen14(r, r.range(1, 5), r.pct(20) ? 's' : r.pct(50) ? 'i' : r.pct(80) ? 'f' : 'n')); cx.push_back(r.below(9)); }
    uint64_t seed = r.next(); str base;
    for (int variant = 0; variant < 4; variant++) {
        Case k; Program &p = k.p; Rng q(seed + variant); int mask = variant == 0 ? 0 : variant == 1 ? 100 : q.range(10, 80);
        Var *out = p.V("out"); out->native = true; out->nativeId = (int)p.natives.size(); p.natives.push_back("out");
        auto call = [&](Expr *f, std::vector<Expr *> a) { Expr *e = p.E(E_CALL); e->a = a; e->a.insert(e->a.begin(), f); return e; };
        auto gv = [&](const str &nm, Expr *e) { Stmt *s = p.S(S_VAR); s->var = p.V(nm); s->var->global = true; s->var->slot = p.nGlobals++; p.globals.push_back(s->var); s->e = e; p.body.push_back(s); return s->var; };
        Var *obj = gv("obj", p.E(E_OBJECT)), *obj2 = gv("obj2", p.E(E_OBJECT)); (void)obj2;
        p.keys.push_back({'i', 0, 0, ""}); p.keys.push_back({'s', 0, 0, "w"});
        for (int i = 0; i < n; i++) {
            L14 l{p, q, mask}; l.obj = obj; l.pre = &p.body; l.n = i * 40; Expr *tag = p.Str(fmt("e%d", i));
            auto O = [&](Expr *e) { return p.X(call(p.R(out), {tag, e})); };
            switch (cx[i]) {
            case 0: case 1: { Expr *e = mk14(l, ts[i]); p.body.push_back(O(e)); break; }
            case 2: { Expr *e = mk14(l, ts[i]); Var *v = gv(fmt("x%d", i), e); p.body.push_back(O(p.R(v))); break; }
            case 3: { Stmt *s = p.S(S_IF); s->e = mk14(l, ts[i]); s->body.push_back(O(p.I(1))); s->hasElse = true; s->els.push_back(O(p.I(2))); p.body.push_back(s); break; }
            case 4: { Stmt *s = p.S(S_WHILE); s->e = mk14(l, ts[i]); s->body.push_back(O(p.I(1))); s->body.push_back(p.S(S_BREAK)); p.body.push_back(s); break; }
            case 5: case 6: { // function whose parameters are some of the literals; the result is returned or used in a condition
                Func *f = p.F(); f->name = fmt("fn%d", i); l.inFn = true; l.slots = &f->nslots; Expr *e = mk14(l, ts[i]); f->params = l.params;
                Stmt *rt = p.S(S_RETURN); rt->e = e; f->body.push_back(rt);
                Stmt *s = p.S(S_FUNC); s->fn = f; s->var = p.V(f->name); s->var->global = true; s->var->slot = p.nGlobals++; p.globals.push_back(s->var); p.body.push_back(s);
                p.body.push_back(O(call(p.R(s->var), l.args))); break; }
            case 7: { Expr *e = mk14(l, ts[i]); Expr *x = p.E(E_FIELD); x->a = {p.R(obj2)}; x->s = "w"; Expr *y = p.E(E_FIELD); y->a = {p.R(obj2)}; y->s = "w"; p.body.push_back(p.X(p.Asg(x, e))); p.body.push_back(O(y)); break; }
            default: { Expr *e = mk14(l, ts[i]); Expr *u = p.E(E_NOT); u->a = {e}; p.body.push_back(O(p.B(O_ADD, p.Str(""), u))); break; }
            }
        }
        PrintOpts po; po.r = &q; po.parens = q.pct(50); k.ps = printProgram(p, po, &k.files); c.text(showPieces(k.ps)); c.phase(variant == 0 ? "literals only" : "literals held by variables");
        k.m = runModel(p); if (k.m.discard) { c.count("discarded"); return; }
        if (variant == 0) { base = k.m.trace; c.sample(showPieces(k.ps)); c.count("expressions", n); if (k.m.error) c.count("faulting_programs"); c.distinct(hashStr(showPieces(k.ps))); }
        c.count("records", k.m.records);
        Vm v; if (!start(c, v, k)) return; v.run(); if (!judge(c, v, k, variant == 0 ? "literals only" : "literals held by variables")) return;
        if (v.w.trace != base) { c.fail("literal and variable versions differ", diffText(base, v.w.trace, "literals", "variables") + showPieces(k.ps)); return; }
        if (!finish(c, v, k, "run")) return;
    }
}
ENGINE(C14, c14);
ENGINE(C08, c08); ENGINE(C15, c15); ENGINE(C21, c21); ENGINE(C24, c24); ENGINE(C11, c11); ENGINE(C27, c27);
}

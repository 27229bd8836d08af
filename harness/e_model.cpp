// Model-differential monitors: the real machine against the reference interpreter.
#include "vm.hpp"
#include <algorithm>

static void addFeat(Ctx &c, Program &p, ModelResult &m) {
    for (auto &f : p.feat) c.count(("gen_" + f.first).c_str(), f.second);
    c.count("records", m.records); c.count("calls", m.calls); c.count("yields", m.yields); c.count("resumes", m.resumes); c.count("objects", m.objects); c.count("natives", m.ncalls); c.count("callbacks", m.cbs);
    if (m.error) c.count("faulting_programs"); c.maxi("depth", m.maxDepth); c.maxi("coroutine_nesting", m.maxCoroNest);
}
RunResult runReal(Program *p, const std::vector<Piece> &ps, Limits *l, str &problems, Vm *keep) {
    RunResult r; { Vm own; Vm &v = keep ? *keep : own; if (p) v.w.keys = p->keys;
        if (!v.build(ps)) { r.compileErr = true; collect(v, nullptr, r); }
        else { if (l) v.limits(*l); r.timeout = !v.run(); collect(v, p, r); }
        str why; if (!v.checkMem(why)) problems += "accounting: " + why + "; ";
        if (!keep) { v.destroy(); problems += v.leakReport(); } }
    return r;
}
// Runs one program of profile g; reports under the property's name.
static void modelCase(Ctx &c, Rng &r, GenOpts g, PrintOpts po) {
    Program p; generate(p, r, g);
    if (r.pct(3)) { static const int pd[] = {24, 30, 60, 61, 62, 63, 125, 126, 253, 254, 255, 300}; po.pad = pd[r.below(12)]; c.count("long_name_runs"); }
    po.r = &r; std::vector<str> files; auto ps = printProgram(p, po, &files);
    c.text(showPieces(ps));
    ModelResult m = runModel(p); c.evals++;
    if (c.verbose) fprintf(stderr, "model: discard=%d(%s) error=%d(%s line %d) steps=%llu\n%s", m.discard, m.why.c_str(), m.error, m.errWhat.c_str(), m.errLine(), (unsigned long long)m.steps, m.trace.c_str());
    if (m.discard) { c.count("discarded"); c.count(("discard_" + m.why).c_str()); return; }
    c.phase("run"); str prob; RunResult a = runReal(&p, ps, nullptr, prob, nullptr);
    if (prob.size()) { c.fail("host-side bookkeeping", prob + "\n" + showPieces(ps)); return; }
    if (m.discard) return;
    addFeat(c, p, m);
    if (m.records > 1) c.distinct(hashStr(m.trace));
    c.sample(showPieces(ps) + "--- observed\n" + a.trace);
    str d = agree(a, m, files);
    if (d.size()) c.fail("differs from language rules", d + "\n" + showPieces(ps));
}
static GenOpts profile(Rng &r, const char *k) {
    GenOpts g; str s = k; g.bulkPct = s == "C05" ? 6 : 2;
    if (s == "C05") { g.stmts = r.range(6, 18); g.funcs = 4; g.funcHeavy = true; g.nest = 4; g.depth = 2; g.coroutines = r.pct(20); g.boxes = r.pct(20); g.faultPct = 5; }
    else if (s == "C07") { g.stmts = r.range(6, 16); g.funcs = 6; g.coroHeavy = true; g.depth = 2; g.faultPct = 10; g.boxes = r.pct(20); }
    else if (s == "C17") { g.stmts = r.range(4, 16); g.faultPct = 95; g.depth = 2; g.nest = 4; g.boxes = r.pct(20); }
    else if (s == "C04") { g.stmts = r.range(4, 12); g.depth = r.range(2, 5); g.exprHeavy = true; g.outPct = 60; g.nest = 2; g.coroutines = r.pct(15); g.funcs = 2; g.faultPct = 8; }
    return g;
}
static void c05(Ctx &c, Rng &r) { PrintOpts po; modelCase(c, r, profile(r, "C05"), po); }
static void c07(Ctx &c, Rng &r) { PrintOpts po; modelCase(c, r, profile(r, "C07"), po); }
static void c04(Ctx &c, Rng &r) { PrintOpts po; modelCase(c, r, profile(r, "C04"), po); }
// The list of errors: native functions and the host report several, in order, with and without a place of their own.
namespace {
struct Rep { bool place = false; str text, file; uint32_t line = 0; };
struct ListSide { std::vector<Rep> reps; int calls = 0; };
thread_local ListSide *ls;
void report(NKVM *vm, const Rep &e) { if (e.place) nkxAddErrorEx(vm, e.text.c_str(), e.file.c_str(), e.line); else nkxAddError(vm, e.text.c_str()); }
void n_multi(NKVMFunctionCallbackData *d) { ls->calls++; for (auto &e : ls->reps) report(d->vm, e); }
void n_via(NKVMFunctionCallbackData *d) { NKValue r; memset(&r, 0, sizeof r); if (d->argumentCount) nkxVmCallFunction(d->vm, &d->arguments[0], 0, nullptr, &r); if (nkxVmHasErrors(d->vm)) nkxAddError(d->vm, "via failed"); else d->returnValue = r; }
str longest(Rng &r) { str s; int n = r.pct(80) ? r.range(0, 40) : r.range(1000, 5000); for (int i = 0; i < n; i++) s += "ab %s%d:#\t\"\xc3\xa9"[r.below(13)]; return s; }
void c17list(Ctx &c, Rng &r) {
    ListSide side; int n = r.pct(70) ? r.range(1, 6) : r.range(7, 150); static const char *const fn[] = {"a", "a.nks", "host", "m.nks", "b.nks", "some dir/x"};
    for (int i = 0; i < n; i++) { Rep e; e.text = fmt("e%d ", i) + longest(r); e.place = r.pct(45); e.file = r.pct(5) ? str(500, 'q') : str(fn[r.below(6)]); e.line = r.pct(80) ? r.below(3000) : 2147483647u - r.below(3); side.reps.push_back(e); }
    // the script: one call of multi() at a known place
    str t, file = "m.nks", fFile; int line = 1, fLine = 0; auto L = [&](const str &s) { t += s + "\n"; line++; };
    auto fill = [&]() { int k = r.below(4); while (k--) switch (r.below(5)) { case 0: L(""); break; case 1: L("// multi();"); break; case 2: L("out(1);"); break; case 3: { uint32_t l = r.below(500); file = fn[r.below(6)]; L(fmt("#line %u \"", l) + file + "\""); line = (int)l; break; } default: file = fn[r.below(6)]; L("#file \"" + file + "\""); } };
    fill(); int depth = r.below(4); bool via = r.pct(35), co = r.pct(20); std::vector<std::pair<str, int>> viaAt;
    L("function f0() {"); fill(); fFile = file; fLine = line; L(co ? "resume(coroutine(function() { multi(); return 1; }));" : "multi();"); L("out(\"not reached\");"); L("return 1; }");
    for (int i = 1; i <= depth; i++) { fill(); L(fmt("function f%d() {", i)); fill(); bool v = via && r.pct(60); if (v) viaAt.insert(viaAt.begin() + 0, {file, line}); L(v ? fmt("via(f%d);", i - 1) : fmt("f%d();", i - 1)); L("out(2);"); L("return 2; }"); }
    fill(); L(fmt("f%d();", depth)); L("out(3);"); std::reverse(viaAt.begin(), viaAt.end());
    c.text(t); c.phase("several errors"); ls = &side; Vm v; if (!v.create()) { c.fail("machine not created", ""); return; } auto reg = [](Vm &v) { nkbool g = v.w.cs ? nktrue : nkfalse; nkxVmSetupExternalFunction(v.vm(), v.w.cs, "multi", n_multi, g, NK_INVALID_VALUE); nkxVmSetupExternalFunction(v.vm(), v.w.cs, "via", n_via, g, NK_INVALID_VALUE); }; reg(v);
    if (!v.compile({{t, "m.nks"}})) { c.fail("well-formed program rejected", v.errors() + t); v.destroy(); return; } v.finalize();
    std::vector<str> want; auto add = [&](const Rep &e, const str &f, uint32_t l) { want.push_back((e.place ? e.file : f) + fmt(":%u: ", e.place ? e.line : l) + e.text); };
    if (r.pct(50)) { for (int k = 0; k < 100000 && !v.ended(); k++) v.step(1 + r.below(3)); } else v.run(); c.evals++;
    for (auto &e : side.reps) add(e, fFile, (uint32_t)fLine);
    for (auto &p : viaAt) want.push_back(p.first + fmt(":%d: via failed", p.second));
    auto same = [&](Vm &m, const char *what) { auto got = m.errorList(); str all = m.errors(); if (got != want || nkxGetErrorCount(m.vm()) != want.size() || !m.hasErrors()) { str s; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++; s = fmt("entry %zu of %zu (%zu reported, count %u): got '", i, want.size(), got.size(), nkxGetErrorCount(m.vm())) + (i < got.size() ? got[i].substr(0, 300) : "-") + "' expected '" + (i < want.size() ? want[i].substr(0, 300) : "-") + "'"; c.fail(what, s + "\n" + t); return false; }
        size_t len = 1; for (auto &w : want) len += w.size() + 1; if (nkxGetErrorLength(m.vm()) < len) { c.fail(what, fmt("length %u, text needs %zu\n", nkxGetErrorLength(m.vm()), len) + t); return false; } return true; };
    if (!same(v, "errors of one run")) { v.destroy(); return; }
    if (side.calls != 1 || v.w.trace.find("not reached") != str::npos || v.w.trace.find("out i3") != str::npos || v.w.trace.find("out i2") != str::npos) { c.fail("execution went on after the error", v.w.trace + t); v.destroy(); return; }
    // the host adds more; a save keeps the list
    int more = r.below(4); for (int i = 0; i < more; i++) { Rep e; e.place = true; e.text = fmt("later %d ", i) + longest(r); e.file = fn[r.below(6)]; e.line = r.below(100); report(v.vm(), e); add(e, "", 0); } if (!same(v, "errors added by the host")) { v.destroy(); return; }
    str img; if (r.pct(60) && v.save(img)) { Vm w; w.create(false); reg(w); c.phase("errors after loading"); if (w.load(img) || nkxGetErrorCount(w.vm())) { c.count("loaded_lists"); if (!same(w, "errors of a loaded machine")) { w.destroy(); v.destroy(); return; } } w.destroy(); str le = w.leakReport(); if (le.size()) { c.fail("host-side bookkeeping", le + t); v.destroy(); return; } if (!same(v, "errors after saving")) { v.destroy(); return; } }
    v.destroy(); str le = v.leakReport(); if (le.size()) { c.fail("host-side bookkeeping", le + t); return; }
    c.count("error_lists"); c.count("errors_in_lists", want.size()); c.maxi("longest_list", (int)want.size()); c.distinct(hashStr(t));
}
}
static void c17(Ctx &c, Rng &r) { if (r.pct(8)) return c17list(c, r); PrintOpts po; po.pieces = r.pct(50) ? 1 : r.range(2, 4); po.directives = r.pct(40); if (po.directives) c.count("directive_runs"); po.random = r.pct(25); po.crlf = r.pct(10); po.comments = r.pct(30); static const char *const fb[] = {"f", "f", "f1", "a", "main.nks"}; po.fileBase = fb[r.below(5)]; modelCase(c, r, profile(r, "C17"), po); }
ENGINE(C05, c05); ENGINE(C07, c07); ENGINE(C04, c04); ENGINE(C17, c17);

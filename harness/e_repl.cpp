// C25: interactive sessions.  A random program is fed piece by piece, with
// pieces that do not compile, pieces that fault, pieces that run out of budget
// or of stack in between; the whole session is held against the reference
// interpreter, which ends only the faulting piece.
#include "vm.hpp"
str badPiece(Rng &r, int id, Program &p);
namespace { void c25(Ctx &c, Rng &r); }
str badPiece(Rng &r, int id, Program &p) {
    str s; int n = r.below(4);
    for (int i = 0; i < n; i++) switch (r.below(8)) {
        case 0: s += "out(\"BAD\");\n"; break; case 1: s += "gi = 12345;\n"; break; case 2: s += r.pct(50) && p.globals.size() ? "var " + p.globals[r.below(p.globals.size())]->name + " = 77;\n" : fmt("var zz%d_%d = 5;\n", id, i); break;
        case 3: s += fmt("function zf%d_%d(a) { out(\"BAD\"); var q = a; return q; }\n", id, i); break; case 4: s += "{ var q = 1; out(q); gi = q; }\n"; break;
        case 5: s += "for(var i = 0; i < 3; ++i) { out(\"BAD\", i); }\n"; break; case 6: s += "box(99);\n"; break; default: s += "if(gi) { out(\"BAD\"); } else { gi = 1; }\n"; }
    static const char *const brk[] = {"1 +;", "gi = ;", "(", ")", "}", "{", "{ out(1);", "function zz( {", "function zz@(a) { return a + 1;", "function zz@(a) { if(a) { while(1) { undefined_zz = 1; } } }", "if(1", "if(1) { out(1);", "while(1) {", "for(var i = 0; i < 3; ++i) {", "undefined_zz;", "out(undefined_zz);", "var qz = 1; var qz = 2;", "\"abc", "out(\"abc", "break;", "yield(", "resume();", "coroutine();",
        "out(function(a) { return undefined_zz; });", "gi = function(x) { function y(z) { { { 1 + + ; } } } };", "@@", "gi.;", "gi[;", "out(gi,;", "do { out(1); } while", "var xz yz;", "else { }", "5 = 6;", "++5;", "function(a) { out(a);", "out(function(a) { while(a) { { { out(a; } } } });",
        "function zz@(a) { var b = a; { var c = b; function yy(d) { var e = d; undefined_zz(e); return e; } } return 1; }", "{ var a = 1; { var b = a; { var c = b; undefined_zz = c; } } }", "while(gi) { if(gi) { break; undefined_zz = 1; } }", "for(var i = 0; i < 3; undefined_zz()) { out(i); break; }", "{ { { { var a = 1; var a = 2; } } } }", "do { break; } while(undefined_zz);", "gi = undefined_zz;", "go->undefined(1;" };
    if (r.pct(4)) { s += "gi = "; s += str(300, '('); s += "1"; s += str(300, ')'); s += ";"; }
    else if (r.pct(3)) { for (int i = 0; i < 300; i++) s += "if(gi) { "; s += "out(1);"; s += str(300, '}'); }
    else for (const char *b = brk[r.below(sizeof(brk) / sizeof(brk[0]))]; *b; b++) if (*b == '@' && b[1] != '@' && b[-1] != '@') s += fmt("%d", id); else s += *b;
    s += r.pct(60) ? "\n" : ""; if (r.pct(30)) s += "\nout(\"BAD AFTER\"); gi = 54321;\n";
    return s;
}
namespace {
// Short scripts, most of them ill-formed: something grammatical with one token too few, too many or in the wrong place.
str nearlyGood(Rng &r) {
    static const char *const G[] = {"for ( var qi = 0 ; qi < 3 ; ++ qi ) { out ( qi ) ; }", "for ( gg . i = 0 ; gg . i < 3 ; gg . i ++ ) { if ( gg . i ) { break ; } }", "while ( gg . w ) { gg . w = 0 ; break ; }", "do { gg . a = 1 ; } while ( 0 ) ;", "if ( gg ) { out ( 1 ) ; } else if ( 1 ) { out ( 2 ) ; } else { out ( 3 ) ; }", "if ( 0 ) out ( 1 ) ; else out ( 2 ) ;", "function zq ( a , b ) { var c = a ; return c + b ; }", "gg . f = function ( x , y ) { return x [ y ] . z ( 1 , 2 ) -> w ( 3 ) ; } ;", "var zv = ( 1 + 2 ) * - 3 % 4 && ! gg || gg . x == \"a\" \"b\" ;", "gg [ 1 + 2 ] = gg . a [ 3 ] ( 4 , fine ( 5 ) ) ;", "++ gg . n ; gg . n -- ; gg . n += 1 ;", "resume ( coroutine ( fine , 1 ) ) ; len ( gg ) ; is_finished ( gg ) ;", "{ var a = 1 ; { var b = a ; out ( a , b ) ; } }", "var u1 ; var u2 = 3 ; var u3 = object ( ) ;", "function zr ( ) { while ( 1 ) { for ( var k = 0 ; k < 2 ; ++ k ) { if ( k ) { return k ; } } } }", "cb ( function ( ) { do { { fine ( 1 ) ; } } while ( gg . never ) ; } ) ;", "gg -> m ( 1 , \"t\" ) [ 2 ] . q = 5 ;", "out ( ( ( 1 ) ) , - 2 , ! 3 , 4.5 , \"s\" , nil , fine ( gg . z ) ) ;"};
    static const char *const R[] = {";", ")", "(", "{", "}", "[", "]", ",", ".", "=", "+", "-", "!", "++", "--", "==", "->", "1", "1.5", "\"s\"", "var", "function", "return", "if", "else", "while", "do", "for", "break", "object", "nil", "unknown_zz", "gg", "$", "\"", "yield", "len", "resume", "coroutine", "1.2.3.4x", "#"};
    static const char *const X[] = {"break;", "if(gg) { break; }", "{ { break; } }", "out(", "out(1,", "out(1", "gg.f(1, 2", "gg->m(", "gg->", "gg.", "gg[", "gg[1", "(", "(1", "((1)", "-", "!", "1 +", "var", "var x", "var x =", "var x = 1", "return", "return 1;", "return 1", "{", "{ {", "{ var y = 1;", "if", "if(", "if(1", "if(1)", "if(1) {", "if(1) out(1); else", "while", "while(", "while(1", "while(1)", "do", "do {", "do out(1);", "do out(1); while", "do out(1); while(", "do out(1); while(0", "do out(1); while(0)", "for", "for(", "for(var i = 0;", "for(var i = 0; i < 1", "for(var i = 0; i < 1;", "for(var i = 0; i < 1; i++", "for(var i = 0; i < 1; i++)", "for(var i = 0; i < 1; i++) {", "for(var i = 0; i < 1; nosuch) out(1);", "for(var i = 0; i < 1; 1 = 2) out(1);", "function", "function q", "function q(", "function q(a", "function q(a,", "function q(a)", "function q(a) {", "function q(a) { return", "gg.f = function", "gg.f = function(", "gg.f = function(a) {", "coroutine", "coroutine(", "coroutine();", "yield(1, 2);", "resume();", "resume(1, 2, 3);", "object(1);", "len();", "len(1, 2);", "is_finished();", "is_finished(1, 2);", "len;", "1 = 2;", "++1;", "gg++++;", "++gg++;", "fine(1) = 2;", "gg.x = gg.y = 1;", "nosuch;", "nosuch = 1;", "nosuch.a = 1;", "nosuch++;", "var dd; var dd;", "function q(a, a) { return a; }", "}", "]", ")", "\"", "\"a\nb\";", "1.2.3;", "a b;", "1 2;", "#", "#foo", "@", "gg ? 1 : 2;", "if(0) { break; } else { }", "function q() { break; }", "while(1) { function qq() { break; } }"};
    if (r.pct(35)) return X[r.below(sizeof X / sizeof *X)];
    std::vector<str> t; str g = G[r.below(sizeof G / sizeof *G)], w; if (r.pct(25)) g += str(" ") + G[r.below(sizeof G / sizeof *G)]; for (char ch : g + " ") if (ch == ' ') { t.push_back(w); w.clear(); } else w += ch;
    size_t k = r.below((uint32_t)t.size()); switch (r.below(7)) { case 0: case 5: t.resize(k); break; case 1: t.erase(t.begin() + k); break; case 2: t[k] = R[r.below(sizeof R / sizeof *R)]; break; case 3: t.insert(t.begin() + k, R[r.below(sizeof R / sizeof *R)]); break; default: std::swap(t[k], t[r.below((uint32_t)t.size())]); }
    str s; for (auto &x : t) s += x + (r.pct(10) ? "\n" : " "); return s;
}
// Errors without the numbers inside their messages (some name an internal identifier); file and line are kept.
str plain(const str &e) { str o; bool head = true; for (size_t i = 0; i < e.size(); i++) { if (e[i] == '\n') head = true; if (!head && isdigit((unsigned char)e[i])) continue; o += e[i]; if (e[i] == ' ') head = false; } return o; }
// One session in which hundreds of calls and pieces fail: every one fails the same way, nothing of it stays behind.
void c25many(Ctx &c, Rng &r) {
    static const char *const B[] = {"fail();", "nt_i(\"x\");", "nt_if(1, 2);", "nt_if(1);", "nt_s(nil);", "nt_0(k);", "k(1, 2);", "resume(5);", "resume(object());", "yield(1);", "yield();", "var o = object(); return o + 1;", "return nil.a;", "return k.a;", "k[1] = 2;", "k.a = 3;", "len(k);", "boxget(object());", "boxget(5);", "boxset(box(1), \"x\");", "box(\"y\");", "boxget();", "nt_fo(boom, box(1), 4);",
        "cb(function() { fail(); });", "resume(coroutine(function(a) { fail(); }, 1));", "resume(coroutine(function(a) { return resume(coroutine(function(b) { return b + object(); }, a)); }, 1));", "cb(function() { resume(coroutine(function(a) { yield(a); cb(function() { nt_s(1); }); }, 1)); fail(); });", "return deep(40);", "return cb(deep, 20);", "resume(coroutine(deep, 30));", "var c = coroutine(function(a) { return a; }, 1); resume(c); resume(c);", "fine(1, 2);", "fine();", "boom();", "cb(fine);", "cb(fine, 1, 2);",
        "return 1 % 0;", "return 1 / 0;", "return \"a\" * 2;", "return -\"a\";", "return 1.5 % 2;", "var o = object(); o.f = 5; o->f(1);", "var o = object(); o._exec = 5; o(1);", "var o = object(); o._exec = o; o(1);", "is_finished(5);", "coroutine(5, 1);", "coroutine(fine);", "for(var i = 0; i < 5; ++i) { var q = object(); q.a = \"s\" + i; if(i == 3) { fail(); } }", "drop(object());", "keep(5);", "return resume(coroutine(fine, 1, 2));", "gg->x(1);", "gg.x.y = 1;", "return gg.x.y.z;", "return boom(k - 1)(3);"};
    const int NB = sizeof B / sizeof *B; str t = "var gg = object();\nfunction fine(n) { return n + 1; }\nfunction deep(n) { var a = object(); a.n = n; if(n) { return 1 + deep(n - 1); } fail(); return a; }\n"; int n = r.range(2, 7); t += "function boom(k) { gg.count = k;\n"; std::vector<str> snip; for (int i = 0; i < n; i++) { snip.push_back(B[r.below(NB)]); t += fmt("if(k == %d) { %s }\n", i, snip.back().c_str()); } t += "return k; }\n";
    c.text(t); c.phase("many failing calls"); c.count("sessions_of_many_failures"); Vm v; if (!v.create()) { c.fail("machine creation failed", v.errors()); return; }
    if (!nkxCompilerCompileScript(v.w.cs, t.c_str(), "many") || nkxVmHasErrors(v.vm())) { if (v.errors().find("is_finished") == str::npos) c.fail("a well-formed piece was rejected", v.errors() + t); return; }
    nkxCompilerPartiallyFinalize(v.w.cs); v.run(); uint32_t w = nkxCompilerGetInstructionWriteIndex(v.w.cs);
    auto call = [&](const char *f, int k, NKValue &ret, int args = 1) { NKValue *g = nkxVmFindGlobalVariable(v.vm(), v.w.cs, f); if (!g) g = nkxVmFindGlobalVariable(v.vm(), nullptr, f); memset(&ret, 0, sizeof ret); if (!g) return false; NKValue fv = *g, a; memset(&a, 0, sizeof a); nkxValueSetInt(v.vm(), &a, k); NKValue aa[3] = {a, a, a}; nkxVmCallFunction(v.vm(), &fv, args, aa, &ret); return true; };
    NKValue ret; if (!call("fine", 3, ret)) { c.count("not_callable_between_pieces"); return; }
    int direct = r.pct(40) ? 7 : 0; std::vector<str> first(n + direct); std::vector<int> failed(n + direct, -1); uint32_t mem = 0; int rounds = c.thorough ? 1500 : r.range(280, 700), bad = 0; bool badToo = r.pct(60); Program none; int order = r.below(3), hold = r.pct(30) ? 100000 : r.range(1, 60), id = 0, cur = 0; std::vector<std::pair<str, str>> pool;
    // the ill-formed pieces of this session, with what a fresh machine says about each
    if (badToo) for (int want = r.pct(40) ? r.range(1, 2) : r.range(3, 13), tries = 0; (int)pool.size() < want && tries < 60; tries++) {
        str b = r.pct(85) ? nearlyGood(r) : badPiece(r, 1, none); if (b.size() > 600) continue; c.phase("nearly good piece"); c.text(b); Vm f; if (!f.create()) return; nkxCompilerCompileScript(f.w.cs, t.c_str(), "many"); nkxCompilerPartiallyFinalize(f.w.cs); nkxCompilerCompileScript(f.w.cs, b.c_str(), "bad");
        if (nkxVmHasErrors(f.vm())) pool.push_back({b, f.errors()}); f.finalize(); f.destroy(); str l = f.leakReport(); if (l.size()) { c.fail("host-side bookkeeping", l + b); return; } }
    if (badToo && pool.empty()) badToo = false; for (auto &b : pool) t += "// refused: " + b.first + "\n"; c.text(t); c.phase("many failing calls"); bool onlyBad = badToo && r.pct(60); if (onlyBad) rounds = std::min(4000, 290 * (int)pool.size());
    for (int i = 0; i < rounds; i++) {
        if (badToo && (onlyBad || r.pct(50))) { // a piece that does not compile
            auto &b = pool[r.below((uint32_t)pool.size())]; uint32_t w0 = nkxCompilerGetInstructionWriteIndex(v.w.cs); bool ok = nkxCompilerCompileScript(v.w.cs, b.first.c_str(), "bad"); bad++; c.evals++; c.count("refused_pieces");
            if (ok || !nkxVmHasErrors(v.vm())) { c.fail("an ill-formed piece was accepted", fmt("after %d failures: ", i) + b.first + "\n" + t); return; }
            if (plain(v.errors()) != plain(b.second)) { c.fail("an ill-formed piece is refused differently later", fmt("refused piece %d: ", bad) + b.first + "\n" + v.errors() + "instead of\n" + b.second + t); return; }
            nkxCompilerClearReplErrorState(v.w.cs, w0); if (nkxVmHasErrors(v.vm())) { c.fail("errors remain after they were cleared", v.errors() + t); return; }
            if (nkxCompilerGetInstructionWriteIndex(v.w.cs) != w0 || !nkxCompilerIsAtRootContext(v.w.cs)) { c.fail("an ill-formed piece left something behind", b.first + "\n" + t); return; }
        }
        if (order == 0) cur = r.below(n + direct); else if (order == 1) cur = i % (n + direct); else if (i % hold == 0) cur = r.below(n + direct);
        if (onlyBad) { } else if (cur < n) call("boom", cur, ret); else switch (cur - n) { case 0: call("fine", 1, ret, 3); break; case 1: call("fail", 1, ret); break; case 2: call("nt_s", 1, ret); break; case 3: call("gg", 1, ret); break; case 4: call("fine", 1, ret, 0); break; case 5: call("nt_0", 1, ret); break; default: { NKValue x, y; memset(&x, 0, sizeof x); nkxValueSetInt(v.vm(), &x, 4); nkxVmCallFunction(v.vm(), &x, 0, nullptr, &y); } }
        c.evals++; str e = v.errors(); if (cur >= n && e.find(": ") != str::npos) e = e.substr(e.find(": ") + 2); // where the machine stood when the host called varies
        if (onlyBad) { } else if (failed[cur] < 0) { failed[cur] = e.size() > 0; first[cur] = e; if (cur < n && e.size() && e.find("many:") == str::npos) { c.fail("the error of a failing call is not located", e + t); return; } c.count(e.size() ? "failing_calls_in_pool" : "harmless_calls_in_pool"); }
        else if (plain(e) != plain(first[cur])) { c.fail("the same call fails differently later", fmt("call %d (%s), failure number %d: ", cur, cur < n ? snip[cur].c_str() : "by the host", i) + e + "instead of " + first[cur] + t); return; }
        if (e.size()) { nkxCompilerClearReplErrorState(v.w.cs, w); if (nkxVmHasErrors(v.vm()) || v.errors().size()) { c.fail("errors remain after they were cleared", v.errors() + t); return; } c.count("failed_calls"); }
        // what failing calls leave behind does not pile up
        if (!badToo && i % 100 == 99 && nkxVmHasErrors(v.vm()) == nkfalse) { nkxVmGarbageCollect(v.vm()); nkxVmShrink(v.vm()); uint32_t m = nkxVmGetCurrentMemoryUsage(v.vm()); if (i == 99) mem = m; else if (m > mem + 2048) { c.fail("failing calls use up memory", fmt("%u bytes in use after 100 calls, %u after %d\n", mem, m, i + 1) + t); return; } }
        if (i % 50 == 49 || i + 1 == rounds) {
            if (!call("fine", i, ret) || nkxVmHasErrors(v.vm()) || ret.type != NK_VALUETYPE_INT || ret.intData != i + 1) { c.fail("a good call no longer works after failures", fmt("%d failures: ", i) + v.errors() + t); return; }
            if (!badToo) continue;
            str g = fmt("gg.count = %d;\nvar ok%d = fine(gg.count);\nout(ok%d);\n", i, ++id, id); v.w.trace.clear(); if (!nkxCompilerCompileScript(v.w.cs, g.c_str(), "good")) { c.fail("a good piece no longer compiles after failures", fmt("%d failed calls, %d bad pieces: ", i, bad) + v.errors() + t); return; }
            nkxCompilerPartiallyFinalize(v.w.cs); v.run(); w = nkxCompilerGetInstructionWriteIndex(v.w.cs); if (nkxVmHasErrors(v.vm()) || v.w.trace != fmt("out i%d\n", i + 1)) { c.fail("a good piece no longer works after failures", v.errors() + v.w.trace + t); return; }
        }
    }
    c.distinct(hashStr(t)); str why; bool ok = v.checkMem(why); v.destroy(); str lk = v.leakReport(); if (!ok) lk += why; if (lk.size()) c.fail("host-side bookkeeping", lk + t);
}
void c25(Ctx &c, Rng &r) {
    if (r.pct(12)) return c25many(c, r);
    Program p; GenOpts g; bool longRun = r.pct(4);
    g.stmts = longRun ? r.range(60, 150) : r.range(6, 24); g.funcs = r.range(1, 5); g.depth = 2; g.boxes = r.pct(50); g.handles = r.pct(30); g.coroHeavy = r.pct(50); g.objHeavy = r.pct(30); g.faultEvery = r.pct(80) ? r.range(3, 20) : 0;
    generate(p, r, g); std::vector<str> files; PrintOpts po; po.r = &r; po.pieces = r.pct(50) ? (int)p.body.size() : 1 + r.below(p.body.size()); std::vector<Piece> ps = printProgram(p, po, &files);
    ModelOpts mo; mo.interactive = true; ModelResult m = runModel(p, mo); if (m.discard) { c.count("discarded"); c.count(("discard_" + m.why.substr(0, 12)).c_str()); return; }
    Vm v; v.w.keys = p.keys; if (!v.create()) { c.fail("machine creation failed", v.errors()); return; }
    str show; size_t fault = 0; int id = 0; int badPct = r.pct(70) ? 10 + r.below(50) : 0, endPct = r.pct(50) ? r.below(20) : 0; Limits l; if (r.pct(60)) { static const uint32_t iv[] = {1, 2, 3, 7, 50, 1000}; l.gcInterval = iv[r.below(6)]; l.gcNew = 1 + r.below(10); v.limits(l); }
    uint32_t stackLimit = 0; if (r.pct(30)) { stackLimit = 8192; nkxSetMaxStackSize(v.vm(), stackLimit); }
    auto bad = [&](const char *what, const str &d) { c.fail(what, d + "\n=== session:\n" + show); };
    auto cleared = [&](uint32_t w) { nkxCompilerClearReplErrorState(v.w.cs, w); if (nkxVmHasErrors(v.vm()) || nkxGetErrorCount(v.vm()) || v.errors().size()) { bad("errors remain after they were cleared", v.errors()); return false; } return true; };
    auto iterate = [&]() { uint64_t n = 0; int how = r.below(3); while (!v.ended() && n < 400000) { uint32_t k = how == 0 ? 0xffffffffu : how == 1 ? 2000 : 1 + r.below(30); nkxVmIterate(v.vm(), k); n += k > 100000 ? 100000 : k; } return v.ended(); };
    // a disturbance between two pieces; false = violation reported
    auto disturb = [&]() -> bool {
        if (r.pct(badPct)) {
            Piece b; b.text = badPiece(r, id++, p); b.file = fmt("bad%d", id); show += "=== " + b.file + " (must not compile)\n" + b.text + "\n"; c.text(show); c.phase("uncompilable piece");
            uint32_t w = nkxCompilerGetInstructionWriteIndex(v.w.cs); str before = v.w.trace; uint64_t nc = v.w.nativeCalls; c.count("uncompilable_pieces");
            bool ok = nkxCompilerCompileScript(v.w.cs, b.text.c_str(), b.file.c_str()); c.evals++;
            if (ok || !nkxVmHasErrors(v.vm())) { bad("an ill-formed piece was accepted", b.text); return false; }
            auto el = v.errorList(); str f, msg; int line; if (el.empty() || !parseErr(el[0], f, line, msg) || f != b.file || line < 1 || line > 1 + (int)std::count(b.text.begin(), b.text.end(), '\n')) { bad("the error of an ill-formed piece is not located in it", el.empty() ? str("none") : el[0]); return false; }
            if (r.pct(20)) { nkxVmIterate(v.vm(), 100); }
            if (!cleared(w)) return false;
            if (r.pct(30)) nkxVmIterate(v.vm(), 1000);
            if (v.w.trace != before || v.w.nativeCalls != nc) { bad("an ill-formed piece ran", diffText(v.w.trace, before, "real", "expected")); return false; }
        }
        if (r.pct(endPct)) {
            static const char *const t[] = {"while(1) { }", "while(1) { var a = object(); a[1] = a; }", "for(var i = 0; 1; i = i + 1) { i = i * 3; }", "{ var f = function(x) { while(1) { x = x + 1; } }; f(1); }", "resume(coroutine(function(x) { while(1) { x = x + 1; } }, 1));", "cb(function(x) { while(1) { x = x + 1; } }, 1);",
                "{ var h = function(x) { return x(x); }; h(h); }", "resume(coroutine(function(y) { var h = function(x) { return 1 + x(x); }; h(h); }, 1));", "{ var h = function(x) { return cb(x, x); }; h(h); }", "{ var h = function(x) { resume(coroutine(x, x)); }; h(h); }" };
            int k = r.below(10); bool endless = k < 6; uint32_t lim = 500 + r.below(3000); Piece b; b.text = str(t[k]) + "\n"; b.file = fmt("end%d", id++); show += "=== " + b.file + (endless ? fmt(" (endless, limit %u)\n", lim) : str(" (recursion without end)\n")) + b.text; c.text(show);
            if (k == 9) { return true; } // memory only; see C16
            uint32_t w = nkxCompilerGetInstructionWriteIndex(v.w.cs); c.phase("piece without an end"); c.count("endless_pieces");
            uint32_t oldStack = nkxGetMaxStackSize(v.vm()); if (!endless) nkxSetMaxStackSize(v.vm(), 4096);
            if (!nkxCompilerCompileScript(v.w.cs, b.text.c_str(), b.file.c_str())) { bad("a well-formed piece was rejected", v.errors()); return false; }
            nkxCompilerPartiallyFinalize(v.w.cs); uint32_t oldLim = nkxGetRemainingInstructionLimit(v.vm()); if (endless) nkxSetRemainingInstructionLimit(v.vm(), lim);
            uint64_t n = 0; while (!v.ended() && n < 2000000) { nkxVmIterate(v.vm(), 20000); n += 20000; } c.evals++;
            if (!nkxVmHasErrors(v.vm())) { bad(endless ? "an endless piece was not stopped by the instruction limit" : "an endlessly recursive piece did not fail", b.text); return false; }
            if (!cleared(w)) return false;
            nkxSetRemainingInstructionLimit(v.vm(), oldLim); nkxSetMaxStackSize(v.vm(), oldStack);
        }
        return true;
    };
    for (size_t i = 0; i < ps.size(); i++) {
        if (!disturb()) return;
        show += "=== " + ps[i].file + "\n" + ps[i].text; c.text(show); c.phase("piece"); c.count("pieces");
        uint32_t w = nkxCompilerGetInstructionWriteIndex(v.w.cs);
        bool ok = nkxCompilerCompileScript(v.w.cs, ps[i].text.c_str(), ps[i].file.c_str()); c.evals++;
        if (!ok || nkxVmHasErrors(v.vm())) { bad("a well-formed piece was rejected", v.errors()); return; }
        if (!nkxCompilerIsAtRootContext(v.w.cs)) { bad("a complete piece left the compiler inside a block", ps[i].text); return; }
        nkxCompilerPartiallyFinalize(v.w.cs);
        if (!iterate()) { bad("a piece did not finish", ps[i].text); return; }
        bool want = fault < m.caught.size() && m.caught[fault].piece == (int)i;
        if (nkxVmHasErrors(v.vm()) != want) { bad(want ? "a faulting piece did not fail" : "unexpected error", (want ? fmt("expected error (%s) at line %d", m.caught[fault].what.c_str(), m.caught[fault].line()) : v.errors()) + "\n" + diffText(v.w.trace, m.trace, "real", "expected")); return; }
        if (want) {
            auto &f = m.caught[fault++]; auto el = v.errorList(); str ef, msg; int line = 0; bool parsed = el.size() && parseErr(el[0], ef, line, msg); str wf = f.st && f.st->file < (int)files.size() ? files[f.st->file] : "?"; c.count("faulting_pieces");
            if (!parsed || ef != wf || line < f.line() || line > f.end()) { bad("the error of a faulting piece is not located where it happened", fmt("expected %s:%d..%d (%s), got: ", wf.c_str(), f.line(), f.end(), f.what.c_str()) + (el.empty() ? str("none") : el[0])); return; }
            if (v.w.trace != m.trace.substr(0, f.traceAt)) { bad("effects before a fault are lost or changed", diffText(v.w.trace, m.trace.substr(0, f.traceAt), "real", "expected")); return; }
            v.w.rec("-- fault"); if (r.pct(20)) { nkxVmIterate(v.vm(), 100); } if (!cleared(w)) return;
        }
        if (r.pct(20)) nkxVmGarbageCollect(v.vm());
        if (v.w.trace.size() > m.trace.size() || v.w.trace != m.trace.substr(0, v.w.trace.size())) { bad("a piece did something else than the program it is part of", diffText(v.w.trace, m.trace, "real", "expected")); return; }
    }
    if (!disturb()) return;
    c.phase("end of session"); v.finalize(); iterate(); if (r.pct(50)) nkxVmGarbageCollect(v.vm());
    RunResult a; collect(v, &p, a); for (auto &n : m.unset) { a.globals.erase(n); m.globals.erase(n); }
    m.error = false; str d = agree(a, m, files); c.evals++;
    if (d.empty()) for (size_t i = 0; i < v.w.kept.size(); i++) { str n = fmt("#kept%zu", i); if (m.globals[n] != a.globals[n]) d = "host-held value " + n + ": real " + a.globals[n] + ", expected " + m.globals[n]; }
    if (d.size()) { bad("the session ended in another state than the program", d); return; }
    str why; bool ok = v.checkMem(why); v.destroy(); str lk = v.leakReport(); if (!ok) lk += why; if (lk.size()) { bad("host-side bookkeeping", lk); return; }
    if (m.records > 1) c.distinct(hashStr(show)); c.count("records", m.records); c.maxi("pieces_in_session", (uint64_t)ps.size() + id); for (auto &f : p.feat) if (f.first == "fault" || f.first == "coroutine" || f.first == "chain") c.count(("gen_" + f.first).c_str(), f.second);
    c.sample(show);
}
}
ENGINE(C25, c25);

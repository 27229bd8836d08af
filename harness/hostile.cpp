#include "hostile.hpp"
#include <algorithm>
namespace {
const char *const INTS[] = {"0", "1", "2", "3", "7", "10", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999", "00017", "1000000", "(0 - 2147483647 - 1)", "(0 - 1)"};
const char *const FLTS[] = {"0.0", "1.5", "0.1", "3.4028235", "340282350000000000000000000000000000000.0", "999999999999999999999999999999999999999999999999.0", "0.00000000000000000000000000000000000000000000001", "2147483648.0", "2147483647.5", "1.", "1.2.3", "16777217.0"};
const char *const STRS[] = {"\"\"", "\"a\"", "\"12\"", "\"-3\"", "\"1.5x\"", "\"  7\"", "\"99999999999999\"", "\"1e5\"", "\"nan\"", "\"inf\"", "\"0x10\"", "\"_exec\"", "\"_data\"", "\"\\n\\t\\\"\\\\\"", "\"long text with many many characters in it, to be sure\"", "\"f\" \"g\"", "\"\xff\xfe\x80\"", "\"%s%n%d%f\""};
struct Wild {
    Rng &r; int funcs = 0, depth = 0, uid = 0, budget, noInc = 0; str inc(int d) { if (noInc) return var(); noInc++; str s = lv(d); noInc--; return s; } std::vector<str> vars; bool inFn = false, inLoop = false; Wild(Rng &r, int b) : r(r), budget(b) {}
    str var() { return vars.empty() || r.pct(2) ? str("out") : vars[r.below((uint32_t)vars.size())]; }
    template <size_t N> str of(const char *const (&a)[N]) { return a[r.below(N)]; }
    str args(int d, int lo, int hi) { str s; int n = r.range(lo, hi); for (int i = 0; i < n; i++) s += (i ? ", " : "") + ex(d - 1); return s; }
    str lv(int d) { switch (r.below(d <= 0 ? 1 : 5)) { case 0: return var(); case 1: return var() + "[" + ex(d - 1) + "]"; case 2: return var() + "." + fld(); case 3: return "(" + ex(d - 1) + ")[" + ex(d - 1) + "]"; default: return lv(d - 1) + "." + fld(); } }
    str fld() { static const char *f[] = {"a", "b", "_exec", "_data", "next", "x"}; return f[r.below(6)]; }
    str fnx(int d) { bool f = inFn, l = inLoop; inFn = true; inLoop = false; size_t nv = vars.size(); std::vector<str> keep = vars; if (r.pct(98)) { vars.erase(std::remove_if(vars.begin(), vars.end(), [](const str &v) { return v[0] != 'g'; }), vars.end()); } str s = "function("; int n = r.below(4); for (int i = 0; i < n; i++) { str p = fmt("p%d", uid++); s += (i ? ", " : "") + p; vars.push_back(p); } s += ") { "; int m = r.range(0, 3); for (int i = 0; i < m; i++) s += st(1); if (r.pct(70)) s += "return " + ex(d - 1) + "; "; s += "}"; vars = keep; (void)nv; inFn = f; inLoop = l; return s; }
    str ex(int d) {
        if (--budget < 0) d = 0;
        if (d <= 0) switch (r.below(7)) { case 0: return of(INTS); case 1: return of(FLTS); case 2: return of(STRS); case 3: return r.pct(50) ? "nil" : "object()"; default: return var(); }
        switch (r.below(24)) {
        case 0: case 1: case 2: case 3: { static const char *o[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "===", "&&", "||"}; return ex(d - 1) + " " + o[r.below(14)] + " " + ex(d - 1); }
        case 4: return "(" + ex(d - 1) + ")"; case 5: return "-(" + ex(d - 1) + ")"; case 6: return "!" + var(); case 7: return "(" + lv(d) + " = " + ex(d - 1) + ")"; case 8: if (noInc) return var(); return inc(d) + (r.pct(50) ? "++" : "--"); case 9: if (noInc) return var(); return (r.pct(50) ? "++" : "--") + inc(d); case 10: case 11: return lv(d); case 12: return fnx(d);
        case 13: return var() + "(" + args(d, 0, 3) + ")"; case 14: return lv(d) + "(" + args(d, 0, 3) + ")"; case 15: return var() + "->" + fld() + "(" + args(d, 0, 2) + ")";
        case 16: return "coroutine(" + (r.pct(60) ? var() : fnx(d)) + (r.pct(40) ? ", " + args(d, 1, 2) : "") + ")"; case 17: return "resume(" + var() + (r.pct(40) ? ", " + ex(d - 1) : "") + ")"; case 18: return r.pct(50) ? "is_finished(" + var() + ")" : "yield(" + (r.pct(50) ? ex(d - 1) : str()) + ")"; case 19: return "len(" + ex(d - 1) + ")"; case 20: return "object()";
        case 21: { static const char *n[] = {"out", "dump", "cb", "id", "box", "boxget", "boxset", "boxref", "boxderef", "fail", "tick", "keep", "drop", "nt_i", "nt_if", "nt_s", "nt_fo", "nt_sw", "nt_0"}; int k = r.below(19); if (k == 9 && r.pct(80)) k = 0; return str(n[k]) + "(" + args(d, 0, 3) + ")"; }
        case 22: return "cb(" + var() + ", " + args(d, 0, 2) + ")"; default: return "box(" + ex(0) + ")"; } }
    str st(int d) {
        if (--budget < 0) return "out(1); ";
        switch (r.below(d <= 0 ? 6 : 13)) {
        case 0: case 1: case 2: return ex(r.range(1, 4)) + ";\n"; case 3: { str e = ex(r.range(0, 3)); str n = fmt("%c%d", inFn || depth ? 'l' : 'g', uid++); vars.push_back(n); return "var " + n + (r.pct(90) ? " = " + e : str()) + ";\n"; } case 4: return lv(2) + " = " + ex(r.range(1, 3)) + ";\n"; case 5: return inFn && r.pct(30) ? "return " + ex(2) + ";\n" : "out(" + ex(2) + ");\n";
        case 6: return "if(" + ex(2) + ") " + block(d - 1) + (r.pct(40) ? "else " + block(d - 1) : str()); case 7: { bool l = inLoop; inLoop = true; str s = "while(" + ex(2) + ") " + block(d - 1); inLoop = l; return s; } case 8: { bool l = inLoop; inLoop = true; str s = "do " + block(d - 1) + "while(" + ex(1) + ");\n"; inLoop = l; return s; }
        case 9: { str i = fmt("l%d", uid++); size_t nv = vars.size(); std::vector<str> k = vars; vars.push_back(i); depth++; bool l = inLoop; inLoop = true; str s = "for(var " + i + " = " + ex(0) + "; " + (r.pct(60) ? i + " < " + of(INTS) : ex(2)) + "; " + (r.pct(60) ? i + "++" : ex(1)) + ") " + block(d - 1); inLoop = l; depth--; vars = k; (void)nv; return s; }
        case 10: return inLoop ? "break;\n" : "out(1);\n"; case 11: return block(d - 1); default: { str n = fmt("%c%d", inFn || depth ? 'l' : 'g', uid++); bool dup = r.pct(50); if (dup) vars.push_back(n); str f = fnx(2); if (!dup) vars.push_back(n); return "function " + n + f.substr(8) + "\n"; } } }
    str block(int d) { std::vector<str> k = vars; depth++; str s = "{ "; int n = r.below(4); for (int i = 0; i < n; i++) s += st(d); s += "}\n"; depth--; vars = k; return s; }
};
}
str wildProgram(Rng &r, int size) { Wild w(r, size * 14); str s; int n = r.range(2, 5); for (int i = 0; i < n; i++) { static const char *init[] = {"object()", "box(3)", "coroutine(function(a) { while(1) { a = yield(a); } }, 5)", "function(a, b) { return a; }", "\"txt\"", "2147483647", "1.5", "nil", "id", "coroutine(function() { return 1; })", "function(a) { return yield(a); }"}; str nm = fmt("g%d", w.uid++); s += "var " + nm + " = " + init[r.below(11)] + ";\n"; w.vars.push_back(nm); } for (int i = 0; i < size; i++) s += w.st(2); return s; }
str templateProgram(Rng &r, bool big) {
    auto rep = [](const str &s, int n) { str o; while (n-- > 0) o += s; return o; }; int n = big ? r.range(1, 3000) : r.range(1, 60);
    if (r.pct(12)) { // numbers at the edges, known only at run time
        static const char *v[] = {"0 - 2147483647 - 1", "2147483647", "0 - 1", "0", "1", "0 - 2147483647", "1.5", "0.0", "0 - 3000000000.0", "3000000000.0", "1000000000000.0", "\"-2147483648\"", "\"-1\"", "\"2147483648\"", "\"99999999999\"", "\"x\"", "nil", "1.0 / 0.0", "0.0 / 0.0"}; static const char *op[] = {"%", "/", "*", "-", "+", "%", "/", "<", ">=", "==", "==="};
        str s = "var a = " + str(v[r.pct(60) ? r.below(6) : r.below(19)]) + "; var b = " + v[r.pct(70) ? r.below(6) : r.below(19)] + "; "; int w = r.below(4); str e = str("a ") + op[r.below(11)] + " b"; if (r.pct(20)) e = r.pct(50) ? "a++ % b--" : "-a / -b"; if (r.pct(15)) e = "(0 + a) % (0 + b)"; if (w == 0) return s + "out(" + e + ");"; if (w == 1) return s + "function f(a, b) { return " + e + "; } out(f(a, b));"; if (w == 2) return s + "var o = object(); o[a] = b; o.r = " + e + "; out(o.r, o[a], o[b]); a++; a--; b--; out(a, b, -a, -b, !a);"; return s + "if(" + e + ") { out(1); } var i = 0; while(i < 40) { a = a " + op[r.below(5)] + " b; i++; out(a); }"; }
    switch (r.below(46)) {
    case 0: return "var s = \"ab\"; while(1) { s = s + s; }"; case 1: return "var l; while(1) { var n = object(); n.next = l; n.me = n; l = n; }"; case 2: return "function f(x) { return f(x + 1) + 1; } f(0);"; case 3: return "function f(x) { return cb(f, x + 1); } f(0);"; case 4: return "function g() { var c = coroutine(g); resume(c); yield(c); } g();";
    case 5: return "function g() { var c = coroutine(g); resume(c); } var c = coroutine(g); resume(c);"; case 6: return "var l; while(1) { var o = object(); o.c = coroutine(function(a) { yield(a); }, o); resume(o.c); o.next = l; l = o; }"; case 7: return "var o = object(); o._exec = o; o._data = o; o(1);"; case 8: return fmt("var o = object(); o._exec = out; for(var i = 0; i < %d; i++) { var p = object(); p._exec = o; p._data = i; o = p; } o(1, 2); o();", n);
    case 9: return "var o = object(); var i = 0; while(1) { o[i] = o; i++; }"; case 10: return "var o = object(); var i = 0.5; while(1) { o[i] = i; i = i * 1.001; }"; case 11: return "var o = object(); var i = 0; while(1) { o[\"k\" + i] = \"v\" + i; i++; }"; case 12: return "var o = object(); var i = 0; while(1) { var k = object(); o[k] = k; k[o] = o; }"; case 13: return "var x = 2147483647; while(1) { x = x * 31 + x; x = -x; x++; x--; x = x - 2147483647; x = x % (x / 3 + 1); }";
    case 14: { str a = INTS[r.below(17)], b = r.pct(50) ? "-" + str(INTS[r.below(17)]) : FLTS[r.below(12)]; static const char *op[] = {"+", "-", "*", "/", "%", "<", "==", "==="}; str o = op[r.below(8)]; return "var a = " + a + "; var b = " + b + "; out(a " + o + " b); out(b " + o + " a); out(" + a + " " + o + " " + b + "); out((-a - 1) " + o + " (-1)); out((0 - 2147483647 - 1) " + o + " b);"; }
    case 15: return "yield(1);"; case 16: return "var c = coroutine(function() { return 5; }); resume(c); out(is_finished(c)); resume(c); resume(c);"; case 17: return "var c; c = coroutine(function() { resume(c); }); resume(c);"; case 18: return "var c; c = coroutine(function() { cb(function() { yield(1); }); }); resume(c);"; case 19: return str("resume(") + (r.pct(50) ? "object()" : r.pct(50) ? "box(1)" : "5") + ");"; case 20: return str("is_finished(") + (r.pct(50) ? "object()" : r.pct(50) ? "box(1)" : "\"x\"") + ");";
    case 21: return "var b = box(1); boxref(b, b); boxref(b, box(2)); var o = object(); o[b] = b; boxref(boxderef(b), o); while(1) { var q = box(3); boxref(q, b); boxref(b, q); }"; case 22: return "function f() { return _argumentCount; } out(f(1" + rep(", 2", std::min(n, 230)) + "));"; case 23: { str s = "function f() {"; for (int i = 0; i < n; i++) s += fmt(" var v%d = %d;", i, i); return s + " return v0; } out(f()); f(1, 2, 3);"; } case 24: { str s; for (int i = 0; i < n; i++) s += fmt("var g%d = %d;\n", i, i); return s + "out(g0);"; }
    case 25: return "out(\"" + rep("x", n * 40) + "\");"; case 26: return "var " + rep("i", n * 40) + " = 1; out(" + rep("i", n * 40) + ");"; case 27: return "out(1" + rep("0", n * 4) + "); out(1." + rep("3", n * 4) + "); out(1" + rep(".1", n) + ");"; case 28: return "//" + rep("c", n * 40) + (r.pct(50) ? "\nout(1);" : ""); case 29: return "#file \"" + rep("f", n * 40) + "\"\n#line 4294967295\nout(nosuch);\n+\n"; case 30: return rep("out(1);\n", n * 4);
    case 31: return rep("#line 99999999999999999999\n", n) + "fail();"; case 32: return "while(1) { function f() { } }"; case 33: return "for(var i = 0; 1; i++) { var s = \"s\" + i; }"; case 34: return "do { var o = object(); o.a = o; } while(1);"; case 35: return rep("{", std::min(n, 100)) + "var x = 1; while(1) x++;" + rep("}", std::min(n, 100)); case 36: return "var a = object(); var b = a; " + fmt("for(var i = 0; i < %d; i++) { b.n = object(); b = b.n; } dump(a); a = nil;", n * 10) + "var c = object(); for(var i = 0; i < 100; i++) c[i] = i; out(len(c));"; case 37: return "var o = object(); o.f = function(s) { s.f(s); }; o->f();";
    case 38: return "var c = coroutine(function(d) { while(1) { var e = coroutine(function(x) { yield(x); yield(x); }, d); resume(e); yield(e); } }, 3); var l = object(); var i = 0; while(1) { l[i] = resume(c); resume(l[i]); i++; }"; case 39: return "function f(a, b, c) { return out; } f(f, f(f), f(f(f)))(f()(f))(out(f, f()));"; case 40: return "var x = function() { return x; }; while(x) x = x();"; case 41: return "keep(object()); var k = object(); keep(k); keep(k); drop(k); drop(k); drop(k);"; case 42: return "cb(out, 1, 2); cb(cb, cb, out); cb(cb, cb, cb, cb, out, 1); cb(coroutine); "; case 43: return "cb(function() { cb(function() { fail(); }); out(1); }); out(2);"; case 44: return "var c = coroutine(cb, out, 1); resume(c);";
    default: return "var s = \"\"; for(var i = 0; i < " + fmt("%d", n) + "; i++) s = s + i; var o = object(); o[s] = s; out(len(o), s === s + \"\", s + o, o + s, 1 + s, s + 1.5, s + out, -s, s * 2);"; } }
static str mutateBytes(Rng &r, str s) { int m = r.range(1, 8); while (m-- && s.size()) { size_t i = r.below((uint32_t)s.size()); switch (r.below(9)) { case 0: s[i] = (char)r.next(); break; case 1: s.erase(i, r.range(1, 4)); break; case 2: s.insert(i, 1, (char)r.next()); break; case 3: { static const char *x[] = {"\"", "\\", "//", "#", "(", ")", "{", "}", "[", "]", ";", "\n", "\"\n", "#line 3\n", "\\\"", "=", "+", "-", "++", "->", ".", ",", "function", "var ", "return ", "break;", "coroutine(", "yield()", "999999999999", "\r", "\t", "\xff", "#file \"x", "1.", "&&", "&", "|", "object()", "else "}; s.insert(i, x[r.below(39)]); break; } case 4: s.resize(i); break; case 5: { size_t j = r.below((uint32_t)s.size()), n = std::min<size_t>(s.size() - j, r.range(1, 60)); s.insert(i, s.substr(j, n)); break; } case 6: { size_t n = r.range(1, 60); s.erase(i, n); break; } case 7: s[i] = (char)(s[i] ^ (1 << r.below(8))); break; default: { size_t n = r.range(2, 300); s.insert(i, str(n, s[i])); } } } return s; }
str hostileText(Ctx &c, Rng &r, str *kind) {
    str s; switch (r.below(9)) {
    case 0: { *kind = "random_bytes"; int n = r.range(0, r.pct(20) ? 4000 : 60); bool ascii = r.pct(60); for (int i = 0; i < n; i++) s += (char)(ascii ? 32 + r.below(96) : 1 + r.below(255)); break; }
    case 1: { *kind = "token_soup"; static const char *x[] = {"var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break", "coroutine", "yield", "resume", "is_finished", "object", "len", "===", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "->", "+", "-", "*", "/", "%", "<", ">", "=", "!", "(", ")", "[", "]", "{", "}", ";", ",", ".", "a", "b", "f", "x", "out", "cb", "1", "2", "99999999999", "1.5", "1.2.3", "\"s\"", "\"\"", "\"un", "\n", "// c\n", "#line 5\n", "#file \"q\"\n", "#", "_exec", "_data", "_argumentCount", "_functionId", "_returnPointer"}; int n = r.range(1, 80); for (int i = 0; i < n; i++) { s += x[r.below(69)]; if (r.pct(85)) s += " "; } break; }
    case 2: case 3: *kind = "wild"; s = wildProgram(r, r.range(1, 25)); break;
    case 4: *kind = "wild_mutated"; s = mutateBytes(r, wildProgram(r, r.range(1, 15))); break;
    case 5: *kind = "template"; s = templateProgram(r, r.pct(60)); break;
    case 6: *kind = "template_mutated"; s = mutateBytes(r, templateProgram(r, r.pct(20))); break;
    case 7: { *kind = "generated_mutated"; Program p; GenOpts g; g.stmts = r.range(3, 12); g.boxes = r.pct(50); g.handles = r.pct(30); generate(p, r, g); PrintOpts po; po.r = &r; po.random = po.comments = po.directives = r.pct(50); auto ps = printProgram(p, po); s = mutateBytes(r, ps[0].text); break; }
    default: { *kind = "nested"; static const char *o[] = {"(", "[", "{", "if(x) ", "x(", "x[", "-", "!", "++", "function() { ", "function f(", "while(1) ", "x = ", "x.a = ", "\"a\" ", "1 + ", "1 * (", "x->f(", "coroutine(", "for(;", "for(var i = ", "do ", "else ", "return ", "var x = ", "#", "// ", ", ", ";", "} ", ") ", "x && ", "x||", "x == "}; int k = r.range(1, 3); str u, w = "var x;"; for (int i = 0; i < k; i++) u += o[r.below(34)]; int n = r.pct(50) ? r.range(1, 300) : r.range(300, c.thorough ? 60000 : 15000); while (n--) w += u; s = w + (r.pct(50) ? "1;" : ""); } }
    for (auto &ch : s) if (!ch) ch = 1; return s; }
void hostOps(Vm &v, Rng &r, int n, Ctx &c, bool calls) {
    for (int i = 0; i < n && v.w.vm; i++) { NKVM *vm = v.w.vm; NKValue x, y, z; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); memset(&z, 0, sizeof z); nkxValueSetNil(vm, &x); y = z = x;
        switch (r.below(18)) { case 0: nkxVmGarbageCollect(vm); break; case 1: nkxVmShrink(vm); break; case 2: { FILE *f = fopen("/dev/null", "w"); nkxDbgDumpState(vm, r.pct(50) ? "var x;\nout(x);\n" : nullptr, f); fclose(f); break; } case 3: { str img; v.save(img); c.count("saves"); break; } case 4: nkxVmIterate(vm, r.range(0, 300)); break; case 5: nkxVmExecuteProgram(vm); break;
        case 6: { nkxCreateObject(vm, &x); nkxValueSetString(vm, &y, "k"); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &x, &y, nkfalse); if (e) nkxValueSetInt(vm, e, 5); nkxVmObjectClearEntry(vm, &x, &y); break; }
        case 7: case 8: { if (!calls) break; str nm = fmt("g%d", r.below(8)); if (r.pct(30)) nm = r.pct(50) ? "f" : "out"; NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, nm.c_str()); if (!g) break; NKValue f = *g, a[3]; for (auto &q : a) { memset(&q, 0, sizeof q); NKValue *o = nkxVmFindGlobalVariable(vm, nullptr, fmt("g%d", r.below(8)).c_str()); if (o) q = *o; else nkxValueSetInt(vm, &q, (int)r.next()); } nkxVmCallFunction(vm, &f, r.below(4), a, r.pct(80) ? &z : nullptr); c.count("host_calls"); break; }
        case 9: { str nm = fmt("g%d", r.below(8)); NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, nm.c_str()); if (!g) break; NKValue q = *g; nkxValueToInt(vm, &q); nkxValueToFloat(vm, &q); const char *s = nkxValueToString(vm, &q); if (s) hashStr(s); nkxVmObjectGetSize(vm, &q); nkxVmObjectGetExternalType(vm, &q); break; } case 10: { str nm = fmt("g%d", r.below(8)); NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, nm.c_str()); if (!g || g->type != NK_VALUETYPE_OBJECTID) break; NKValue q = *g; nkxVmObjectAcquireHandle(vm, &q); nkxVmGarbageCollect(vm); nkxVmObjectReleaseHandle(vm, &q); break; }
        case 11: nkxSetGarbageCollectionInterval(vm, r.range(1, 2000)); break; case 12: nkxSetRemainingInstructionLimit(vm, r.range(0, 3000)); break; case 13: { v.errors(); nkxVmHasErrors(vm); nkxGetErrorCount(vm); nkxVmProgramHasEnded(vm); break; } case 14: { uint32_t k = 0; int lim = 0; while (nkxGetNextObjectOfExternalType(vm, v.w.boxType, &x, &k) && ++lim < 100000) nkxVmObjectGetExternalData(vm, &x); NKVMExternalDataTypeID ct = nkxVmFindExternalType(vm, "coroutine"); k = 0; lim = 0; while (nkxGetNextObjectOfExternalType(vm, ct, &x, &k) && ++lim < 100000) { } break; }
        case 15: nkxSetMaxFieldsPerObject(vm, r.range(1, 300)); break; case 16: nkxSetMaxStackSize(vm, r.range(1, 5000)); break; default: nkxSetGarbageCollectionNewObjectInterval(vm, r.range(0, 300)); } } }

// C22: text keeps its bytes.  C26: the host and the script see the same variables and conversions.
#include "vm.hpp"
#include "lang.hpp"
#include <memory>
#include <cmath>
#include <climits>
#include <algorithm>
namespace {
struct TSide { Vm *v = nullptr; str log; std::vector<str> host; int nvars = 0; std::vector<std::pair<int, str>> reads; int pauses = 0; std::function<void(int)> pause; };
thread_local TSide *ts;
str hexs(const str &s) { return fmt("%zu:", s.size()) + visible(s); }
void nput(NKVMFunctionCallbackData *d) { str l = "put"; for (uint32_t i = 0; i < d->argumentCount; i++) { NKValue a = d->arguments[i]; if (a.type == NK_VALUETYPE_STRING) { const char *s = nkxValueToString(d->vm, &a); l += " s" + hexs(s ? s : "?"); } else if (a.type == NK_VALUETYPE_INT) l += fmt(" i%d", a.intData); else if (a.type == NK_VALUETYPE_FLOAT) { uint32_t b; memcpy(&b, &a.floatData, 4); l += fmt(" f%08x", b); } else if (a.type == NK_VALUETYPE_NIL) l += " n"; else l += " ?"; } ts->log += l + "\n"; if (d->argumentCount) d->returnValue = d->arguments[0]; }
void nget(NKVMFunctionCallbackData *d) { int i = d->argumentCount ? d->arguments[0].intData : 0; nkxValueSetString(d->vm, &d->returnValue, ts->host[i % ts->host.size()].c_str()); }
void npause(NKVMFunctionCallbackData *d) { int k = d->argumentCount ? d->arguments[0].intData : 0; if (ts->pause) ts->pause(k); }
struct TCase {
    Ctx &c; Rng r; std::vector<str> pool, var; std::vector<bool> has; std::map<str, int> okeys; std::map<str, str> omap; str log, text; std::vector<str> host; std::map<int, std::vector<std::pair<int, str>>> pauseReads; std::map<int, std::pair<int, str>> pauseWrites; int np = 0; bool pathological = false;
    TCase(Ctx &c, uint64_t s) : c(c), r(s) {}
    str randStr() {
        int n = r.pct(10) ? 0 : r.pct(80) ? r.range(1, 12) : r.pct(80) ? r.range(10, 80) : r.range(200, 1500); str s; int mode = r.below(5);
        for (int i = 0; i < n; i++) switch (mode) { case 0: s += (char)r.range(1, 255); break; case 1: s += "ab"[r.below(2)]; break; case 2: s += "\n\r\t\"\\%{}/#;'"[r.below(12)]; break; case 3: s += (char)r.range(128, 255); break; default: s += (char)r.range(32, 126); }
        return s; }
    str near(const str &s) { // different text that is easily confused with s
        str t = s; switch (r.below(7)) { case 0: t += (char)r.range(1, 255); break; case 1: if (t.size()) t.pop_back(); break; case 2: if (t.size()) t[r.below((uint32_t)t.size())] ^= 0x20; break; case 3: if (t.size() >= 3) { int i = r.below((uint32_t)t.size() - 2); t[i]++; t[i + 1] -= 2; t[i + 2]++; } break; case 4: if (t.size() >= 2) std::swap(t[0], t[t.size() - 1]); break; case 5: if (t.size()) t[t.size() - 1] ^= 0x80; break; default: t = t + t; }
        str u; for (char ch : t) if (ch) u += ch; return u.size() > 2000 ? u.substr(0, 2000) : u; }
    bool literal(const str &s, str &out) { // as one or more adjacent literals; false when it cannot be written
        std::vector<str> toks; size_t i = 0; while (i < s.size()) { char ch = s[i]; if (ch == '\n') toks.push_back("\\n"), i++; else if (ch == '"') toks.push_back("\\\""), i++; else if (ch == '\r') toks.push_back(r.pct(60) ? "\\r" : "\r"), i++; else if (ch == '\t') toks.push_back(r.pct(60) ? "\\t" : "\t"), i++;
            else if (ch == '\\') { if (i + 1 < s.size() && s[i + 1] == '\\') { toks.push_back("\\\\"); i += 2; } else if (i + 1 < s.size() && !strchr("nrt\"\n\r\t", s[i + 1])) { toks.push_back(str("\\") + s[i + 1]); i += 2; } else return false; } else toks.push_back(str(1, ch)), i++; }
        static const char *gap[] = {"", " ", "\n", "\t", "// comment \"\n"};
        out = "\""; for (size_t k = 0; k < toks.size(); k++) { out += toks[k]; if (r.pct(toks.size() > 100 ? 1 : 7)) { out += "\""; out += gap[r.below(5)]; out += "\""; c.count("joined_literals"); while (r.pct(15)) { out += "\""; out += gap[r.below(5)]; out += "\""; c.count("empty_pieces"); } } }
        if (r.pct(6)) { int n = r.range(1, 3); while (n--) { str g = gap[r.below(5)]; if (r.pct(50)) out = "\"\"" + g + out; else out += "\"" + g + "\""; } c.count("empty_pieces"); } out += "\""; return true; }
    void P(const str &s) { text += s + "\n"; }
    void put(int i) { P(fmt("put(v%d);", i)); log += "put s" + hexs(var[i]) + "\n"; }
    void build() {
        int n = r.range(4, 12); int np0 = r.range(4, 14); for (int i = 0; i < np0; i++) pool.push_back(i && r.pct(50) ? near(pool[r.below((uint32_t)pool.size())]) : randStr()); for (int i = 0; i < 6; i++) host.push_back(r.pct(50) ? pool[r.below((uint32_t)pool.size())] : randStr());
        P("var o = object(); var o2 = object();"); P("function idf(x) { return x; }"); P("function two(a, b) { var l = a; { var l2 = b; l = l2; } return l; }"); P("var echo = coroutine(function(x) { while(1) { x = yield(x); } }, 0); resume(echo);");
        for (int i = 0; i < n; i++) { P(fmt("var v%d = \"\";", i)); var.push_back(""); }
        int st = r.range(10, 60); for (int s = 0; s < st; s++) {
            int i = r.below(n), j = r.below(n), k = r.below(n); switch (r.below(19)) {
            case 0: case 1: case 2: { const str &p = r.pct(80) ? pool[r.below((uint32_t)pool.size())] : randStr(); str l; if (!literal(p, l)) break; P(fmt("v%d = ", i) + l + ";"); var[i] = p; c.count("literals"); break; }
            case 3: { int h = r.below((uint32_t)host.size()); P(fmt("v%d = get(%d);", i, h)); var[i] = host[h]; break; }
            case 4: { if (var[j].size() + var[k].size() > 3000) break; P(fmt("v%d = v%d + v%d;", i, j, k)); var[i] = var[j] + var[k]; c.count("concatenations"); break; }
            case 5: { str l; const str &p = pool[r.below((uint32_t)pool.size())]; if (!literal(p, l) || p.size() + var[j].size() > 3000) break; bool left = r.pct(50); P(left ? fmt("v%d = ", i) + l + fmt(" + v%d;", j) : fmt("v%d = v%d + ", i, j) + l + ";"); var[i] = left ? p + var[j] : var[j] + p; break; }
            case 6: P(fmt("v%d = idf(v%d);", i, j)); var[i] = var[j]; break;
            case 7: P(fmt("v%d = two(v%d, v%d);", i, j, k)); var[i] = var[k]; break;
            case 8: P(fmt("v%d = resume(echo, v%d);", i, j)); var[i] = var[j]; c.count("through_coroutine"); break;
            case 9: P(fmt("o.f%d = v%d;", k, j)); okeys[fmt("f%d", k)] = 1; omap[fmt("f%d", k)] = var[j]; break;
            case 10: if (okeys.count(fmt("f%d", k))) { P(fmt("v%d = o.f%d;", i, k)); var[i] = omap[fmt("f%d", k)]; } break;
            case 11: P(fmt("o[v%d] = v%d;", j, k)); omap[var[j]] = var[k]; okeys[var[j]] = 1; c.count("keys"); break;
            case 12: { auto it = omap.find(var[j]); P(fmt("put(o[v%d]);", j)); log += it == omap.end() ? "put n\n" : "put s" + hexs(it->second) + "\n"; c.count("key_lookups"); break; }
            case 13: P(fmt("put(v%d == v%d, v%d === v%d, v%d != v%d);", i, j, i, j, i, j)); { bool e = var[i] == var[j]; log += fmt("put i%d i%d i%d\n", e, e, !e); } c.count("comparisons"); break;
            case 14: { str l; const str &p = r.pct(50) ? var[j] : near(var[j]); if (!literal(p, l)) break; P(fmt("put(v%d == ", j) + l + fmt(", o[v%d] === o[", j) + l + "]);"); bool e = p == var[j]; auto a = omap.find(var[j]), b = omap.find(p); bool same = (a == omap.end() && b == omap.end()) || (a != omap.end() && b != omap.end() && a->second == b->second); log += fmt("put i%d i%d\n", e, same); c.count("comparisons"); break; }
            case 15: { P(fmt("pause(%d);", np)); if (r.pct(50)) { for (int q = 0; q < n; q++) pauseReads[np].push_back({q, var[q]}); } else { str w = r.pct(50) ? pool[r.below((uint32_t)pool.size())] : randStr(); pauseWrites[np] = {i, w}; var[i] = w; } np++; c.count("host_accesses"); break; }
            case 16: numbers(i); break;
            case 17: { P(fmt("o2 = object(); o2.s = v%d; o2[v%d] = idf;", j, k)); P(fmt("v%d = ", i) + (var[k] == "s" ? fmt("v%d;", j) : fmt("o2[v%d](o2.s);", k))); var[i] = var[j]; break; }
            default: put(i); } }
        for (int i = 0; i < n; i++) put(i); P("put(len(o));"); log += fmt("put i%zu\n", omap.size()); }
    str numText() { // text that looks like a number, or nearly
        switch (r.below(8)) { case 0: return fmt("%d", (int)r.next()); case 1: return fmt("%d.%u", r.range(-999, 999), r.below(100000)); case 2: return fmt(" \t%d", r.range(-99, 99)); case 3: return fmt("%dabc", r.range(-99, 99)); case 4: return "abc"; case 5: return fmt("+%d", r.below(1000)); case 6: return fmt("%dE%d", r.range(-99, 99), r.range(-4, 4)); default: return r.pct(50) ? "" : fmt(".%u", r.below(1000)); } }
    void numbers(int i) {
        c.count("number_texts"); switch (r.below(5)) {
        case 0: { int x = r.pct(50) ? r.range(-1000, 1000) : (int)r.next(); if (x == INT_MIN) x = 0; P(fmt("v%d = \"\" + (%d);", i, x)); var[i] = fmt("%d", x); break; }
        case 1: { float f = r.pct(60) ? r.range(-100000, 100000) / 64.0f : ldexpf((float)r.range(1, 1 << 24), r.range(-30, 60)); if (!(fabsf(f) < 1e20f)) f = 1.5f; P(fmt("v%d = \"\" + (", i) + (f < 0 ? "-" : "") + floatText(fabsf(f)) + ");"); var[i] = mFloatToStr(f); break; }
        case 2: { str t = numText(), l; if (!literal(t, l)) break; P("put(0 + " + l + ");"); log += fmt("put i%d\n", mAtoi(t.c_str())); break; }
        case 3: { str t = numText(), l; if (!literal(t, l)) break; P("put(0.0 + " + l + ");"); float f = (float)atof(t.c_str()); f = 0.0f + f; uint32_t b; memcpy(&b, &f, 4); log += fmt("put f%08x\n", b); break; }
        default: { float f = r.range(-1000, 1000) / 32.0f; P(fmt("v%d = ", i) + (f < 0 ? "-" : "") + floatText(fabsf(f)) + fmt("; put(0.0 + (\"\" + v%d)); v%d = \"\" + v%d;", i, i, i)); f = 0.0f + (float)atof(mFloatToStr(f).c_str()); uint32_t b; memcpy(&b, &f, 4); log += fmt("put f%08x\n", b); var[i] = mFloatToStr(f == 0 ? f : f); if (f == 0) { } } } }
    void setup(Vm &v, bool target) { NKCompilerState *cs = target ? nullptr : v.w.cs; nkbool g = cs ? nktrue : nkfalse; nkxVmSetupExternalFunction(v.vm(), cs, "put", nput, g, NK_INVALID_VALUE); nkxVmSetupExternalFunction(v.vm(), cs, "get", nget, g, 1, NK_VALUETYPE_INT); nkxVmSetupExternalFunction(v.vm(), cs, "pause", npause, g, 1, NK_VALUETYPE_INT); }
    void run() {
        build(); c.text(text); for (int variant = 0; variant < 5; variant++) {
            Vm v; v.create(); setup(v, false); TSide S; S.v = &v; S.host = host; ts = &S; Vm *live = &v; std::unique_ptr<Vm> t; str prob;
            S.pause = [&](int k) { NKVM *vm = live->vm(); auto rd = pauseReads.find(k); if (rd != pauseReads.end()) for (auto &x : rd->second) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, fmt("v%d", x.first).c_str()); const char *s = g && g->type == NK_VALUETYPE_STRING ? nkxValueToString(vm, g) : nullptr; if (!s || x.second != s) { if (prob.empty()) prob = fmt("the host reads v%d as ", x.first) + (s ? hexs(s) : str("(no text)")) + ", expected " + hexs(x.second); } } auto wr = pauseWrites.find(k); if (wr != pauseWrites.end()) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, fmt("v%d", wr->second.first).c_str()); if (g) { NKValue x; memset(&x, 0, sizeof x); nkxValueSetString(vm, &x, wr->second.second.c_str()); *nkxVmFindGlobalVariable(vm, nullptr, fmt("v%d", wr->second.first).c_str()) = x; } } };
            if (!v.compile({{text, "t"}})) { c.fail("rejected", v.errors() + "\n" + text); v.destroy(); return; } v.finalize(); c.evals++;
            if (variant == 1) { nkxSetGarbageCollectionInterval(v.vm(), 1); nkxSetGarbageCollectionNewObjectInterval(v.vm(), 1); }
            if (variant == 2) { for (int q = 0; q < 100000 && !v.ended(); q++) { v.step(1); if (r.pct(8)) { if (r.pct(50)) nkxVmShrink(v.vm()); else nkxVmGarbageCollect(v.vm()); } } }
            else if (variant == 3 || variant == 4) { int hops = variant == 3 ? 1 : r.range(2, 5); for (int h = 0; h < hops && prob.empty(); h++) { int stop = r.below(600); for (int q = 0; q < stop && !live->ended(); q++) live->step(1); if (live->ended()) break; str img; if (!live->save(img)) { prob = "save failed: " + live->errors(); break; } std::unique_ptr<Vm> t2(new Vm()); t2->create(false); setup(*t2, true); if (!t2->load(img)) { prob = "load failed: " + t2->errors(); t2->destroy(); break; } if (t) t->destroy(); t = std::move(t2); live = t.get(); c.count("loads"); } if (prob.empty()) live->run(); }
            else v.run();
            if (prob.empty() && live->hasErrors()) prob = "unexpected error: " + live->errors(); if (prob.empty() && S.log != log) prob = "text differs: " + diffText(S.log, log, "real", "expected");
            if (prob.empty()) for (size_t i = 0; i < var.size() && prob.empty(); i++) { NKValue *g = nkxVmFindGlobalVariable(live->vm(), nullptr, fmt("v%zu", i).c_str()); const char *s = g ? nkxValueToString(live->vm(), g) : nullptr; if (!s || var[i] != s) prob = fmt("at the end the host reads v%zu as ", i) + (s ? hexs(s) : str("(none)")) + ", expected " + hexs(var[i]); }
            if (prob.size()) c.fail(prob.substr(0, prob.find(':')).substr(0, 60), fmt("variant %d: ", variant) + prob + "\n" + text);
            if (t) { t->destroy(); str l = t->leakReport(); if (l.size()) c.fail("leak", l); } v.destroy(); str l = v.leakReport(); if (l.size()) c.fail("leak", l); ts = nullptr; if (prob.size()) return; }
        c.distinct(hashStr(text)); c.sample(text.substr(0, 1500)); }
};
void c22(Ctx &c, Rng &r) { TCase t(c, r.next()); t.run(); }

// ------------------------------------------------------------------ C26
void nhello(NKVMFunctionCallbackData *d) { nkxValueSetInt(d->vm, &d->returnValue, d->argumentCount ? d->arguments[0].intData * 2 + 1 : -5); }
struct GV { char t = 'i'; int i = 0; float f = 0; str s; int ref = -1; }; // o: field id = i; F: function
struct GCase {
    Ctx &c; Rng r; std::vector<str> names; std::map<str, GV> val; std::set<str> fns, locals, pre; std::vector<Piece> ps; str prob; std::unique_ptr<Vm> cur; str hist;
    GCase(Ctx &c, uint64_t s) : c(c), r(s) {}
    void bad(const str &s) { if (prob.empty()) prob = s; }
    bool reserved(const str &s) { static const std::set<str> k = {"var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break", "yield", "resume", "coroutine", "is_finished", "len", "object", "out", "dump", "cb", "id", "box", "boxget", "boxset", "boxref", "boxderef", "fail", "tick", "keep", "drop", "nt_i", "nt_if", "nt_s", "nt_fo", "nt_sw", "nt_0", "hello"}; return k.count(s) > 0; }
    str newName() { for (;;) { str s; if (names.size() && r.pct(50)) { s = names[r.below((uint32_t)names.size())]; switch (r.below(6)) { case 0: s += "abAB_09"[r.below(7)]; break; case 1: if (s.size() > 1) s.pop_back(); break; case 2: s[r.below((uint32_t)s.size())] ^= 0x20; break; case 3: s = "_" + s; break; case 4: s = s + s; break; default: std::reverse(s.begin(), s.end()); } } else { int n = r.pct(80) ? r.range(1, 6) : r.pct(70) ? r.range(7, 40) : r.range(250, 700); for (int i = 0; i < n; i++) s += "abxyzABXYZ_"[r.below(11)]; }
            bool ok = !s.empty() && s.size() < 1500; for (size_t i = 0; i < s.size(); i++) if (!(isalpha((unsigned char)s[i]) || s[i] == '_' || (i && isdigit((unsigned char)s[i])))) ok = false; if (ok && !reserved(s) && std::find(names.begin(), names.end(), s) == names.end() && s.find("fn__") != 0) return s; } }
    GV rnd() { GV g; switch (r.below(5)) { case 0: case 1: g.t = 'i'; g.i = r.pct(60) ? r.range(-99, 99) : (int)r.next() | 1; break; case 2: g.t = 'f'; g.f = r.range(-9999, 9999) / 16.0f; break; case 3: { g.t = 's'; int n = r.below(10); while (n--) g.s += "abc XYZ019"[r.below(10)]; break; } default: g.t = r.pct(50) ? 'n' : 'o'; g.i = r.below(1000); } return g; }
    str T(const GV &g) { switch (g.t) { case 'i': return g.i == INT_MIN ? "(-2147483647 - 1)" : fmt("%d", g.i); case 'f': return (g.f < 0 ? "-" : "") + floatText(fabsf(g.f)); case 's': return quoteStr(g.s); case 'o': return fmt("mk(%d)", g.i); default: return "nil"; } }
    void set(NKVM *vm, NKValue *p, const GV &g) { switch (g.t) { case 'i': nkxValueSetInt(vm, p, g.i); break; case 'f': nkxValueSetFloat(vm, p, g.f); break; case 's': nkxValueSetString(vm, p, g.s.c_str()); break; case 'n': nkxValueSetNil(vm, p); break; default: { NKValue o; memset(&o, 0, sizeof o); nkxCreateObject(vm, &o); NKValue k; memset(&k, 0, sizeof k); *p = o; nkxValueSetString(vm, &k, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &o, &k, nkfalse); if (e) nkxValueSetInt(vm, e, g.i); } } }
    bool same(NKVM *vm, NKValue *p, const GV &g, str &got) { std::map<uint64_t, int> ids; got = canonV(cur->w, p, ids); switch (g.t) { case 'i': return p->type == NK_VALUETYPE_INT && p->intData == g.i; case 'f': return p->type == NK_VALUETYPE_FLOAT && p->floatData == g.f; case 's': { if (p->type != NK_VALUETYPE_STRING) return false; const char *s = nkxValueToString(vm, p); return s && g.s == s; } case 'n': return p->type == NK_VALUETYPE_NIL; default: { if (p->type != NK_VALUETYPE_OBJECTID) return false; NKValue k, o = *p; memset(&k, 0, sizeof k); nkxValueSetString(vm, &k, "tag"); NKValue *e = nkxVmObjectFindOrAddEntry(vm, &o, &k, nktrue); return e && e->type == NK_VALUETYPE_INT && e->intData == g.i; } } }
    void checkAll(const char *when) { NKVM *vm = cur->vm(); for (auto &p : val) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, p.first.c_str()); str got; if (!g) { bad(str(when) + ": global " + p.first + " not found"); return; } c.count("reads"); if (!same(vm, g, p.second, got)) bad(str(when) + ": global " + p.first + " is " + got + ", expected " + T(p.second)); }
        for (auto &f : fns) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, f.c_str()); if (!g || g->type != NK_VALUETYPE_FUNCTIONID) bad(str(when) + ": function " + f + " not found"); }
        std::set<uintptr_t> addr; for (auto &p : val) if (!addr.insert((uintptr_t)nkxVmFindGlobalVariable(vm, nullptr, p.first.c_str())).second) bad("two variables share one place");
        uint32_t e = nkxGetErrorCount(vm); for (int i = 0; i < 6; i++) { str n = r.pct(15) ? "" : r.pct(20) ? "var" : r.pct(40) && locals.size() ? *locals.begin() : newName(); if (val.count(n) || fns.count(n)) continue; c.count("missing_names"); if (nkxVmFindGlobalVariable(vm, nullptr, n.c_str())) bad(str(when) + ": " + n + " does not exist but is found"); } if (nkxGetErrorCount(vm) != e) bad("looking for a missing name adds an error"); }
    bool callF(const str &f, std::vector<NKValue> a, NKValue &ret) { NKVM *vm = cur->vm(); NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, f.c_str()); if (!g) { bad("function " + f + " not found"); return false; } NKValue fv = *g; memset(&ret, 0, sizeof ret); nkxVmCallFunction(vm, &fv, (uint32_t)a.size(), a.size() ? a.data() : nullptr, &ret); return true; }
    void conversions() { // the host's conversions and the script's are the same
        NKVM *vm = cur->vm(); for (int i = 0; i < 12 && prob.empty(); i++) { GV g = rnd(); if (g.t == 'o') g.t = 'i'; if (g.t == 's') { static const char *nt[] = {"12", "-7", "3.75", " 42", "abc", "", "1e3", "99999999999", "0x10", "-0", "+5", "2147483647", "12abc", ".5", "-.25"}; g.s = nt[r.below(15)]; if (r.pct(30)) g.s = fmt("%d.%d", r.range(-999, 999), r.below(999)); } if (g.t == 'f' && r.pct(30)) g.f = ldexpf((float)r.range(-9999, 9999), r.range(-10, 20));
            NKValue v; memset(&v, 0, sizeof v); set(vm, &v, g); NKValue a; c.count("conversions"); std::map<uint64_t, int> ids; str what = canonV(cur->w, &v, ids);
            { const char *s = nkxValueToString(vm, &v); str hs = s ? s : "(null)"; NKValue x = v; if (callF("toS__", {x}, a)) { if (nkxVmHasErrors(vm)) { bad("script conversion to text fails for " + what + ": " + cur->errors()); return; } const char *t = nkxValueToString(vm, &a); if (!t || hs != t) bad("text of " + what + ": host " + hs + ", script " + (t ? t : "?")); } }
            if (g.t == 'n') continue;
            { int hi = nkxValueToInt(vm, &v); NKValue x = v; if (callF("toI__", {x}, a) && !nkxVmHasErrors(vm) && (a.type != NK_VALUETYPE_INT || a.intData != hi)) bad("integer of " + what + fmt(": host %d, script %d", hi, a.intData)); }
            { float hf = nkxValueToFloat(vm, &v); NKValue x = v; if (callF("toF__", {x}, a) && !nkxVmHasErrors(vm) && (a.type != NK_VALUETYPE_FLOAT || (a.floatData != hf && !(hf != hf && a.floatData != a.floatData)))) bad("float of " + what + fmt(": host %g, script %g", hf, a.floatData)); }
            { NKValue x = v; callF("lit__", {x}, a); }
            if (nkxVmHasErrors(vm)) bad("conversion added an error: " + cur->errors()); } }
    void run() {
        int pieces = r.range(1, 4); cur.reset(new Vm()); cur->create(); NKVM *vm = cur->vm(); NKCompilerState *cs = cur->w.cs;
        int npre = r.below(5); for (int i = 0; i < npre; i++) { str n = newName(); names.push_back(n); GV g = rnd(); NKValue *p = nkxCompilerCreateGlobalVariable(cs, n.c_str()); if (!p) { bad("predefining " + n + " failed"); break; } set(vm, p, g); if (r.pct(20)) { nkxVmGarbageCollect(vm); p = nkxVmFindGlobalVariable(vm, cs, n.c_str()); if (p && g.t == 'o') set(vm, p, g); } val[n] = g; pre.insert(n); }
        if (r.pct(70)) { nkxCompilerCreateCFunctionVariable(cs, "hello", nhello); fns.insert("hello"); }
        std::vector<str> order; str text = "function mk(n) { var o = object(); o.tag = n; return o; }\nfunction toS__(v) { return \"\" + v; }\nfunction toI__(v) { return 0 + v; }\nfunction toF__(v) { return 0.0 + v; }\nfunction lit__(v) { return v; }\n"; for (const char *f : {"mk", "toS__", "toI__", "toF__", "lit__", "out", "dump", "id", "cb"}) fns.insert(f); std::map<str, GV> before = val; std::vector<std::map<str, GV>> hostWrites;
        str expectLog; int nv = r.range(3, r.pct(15) ? 90 : 20); int perPiece = nv / pieces + 1; int made = 0;
        for (auto &n : pre) { text += "out(" + n + fmt(" == %s);\n", val[n].t == 'o' ? "0" : T(val[n]).c_str()); expectLog += val[n].t == 'o' ? "out i0\n" : "out i1\n"; if (val[n].t == 'o') { text += "out(" + n + fmt(".tag);\n"); expectLog += fmt("out i%d\n", val[n].i); } }
        if (fns.count("hello")) { text += "out(hello(20));\n"; expectLog += "out i41\n"; }
        for (int p = 0; p < pieces; p++) { for (int i = 0; i < perPiece && made < nv; i++, made++) { str n = newName(); names.push_back(n); GV g = rnd(); val[n] = g; order.push_back(n); if (r.pct(85)) text += "var " + n + " = " + T(g) + ";\n"; else { text += "var " + n + ";\n" + n + " = " + T(g) + ";\n"; }
                text += "function get__" + fmt("%d", made) + "() { return " + n + "; }\nfunction set__" + fmt("%d", made) + "(fn__arg) { " + n + " = fn__arg; return " + n + "; }\n"; fns.insert(fmt("get__%d", made)); fns.insert(fmt("set__%d", made));
                if (r.pct(20)) { str l = "loc" + fmt("%d", made); locals.insert(l); text += "{ var " + l + " = 5; { var " + n + " = \"shadow\"; } }\n"; } if (r.pct(10)) { str l = "inner" + fmt("%d", made); locals.insert(l); text += "function u" + fmt("%d", made) + "(" + l + ") { var " + n + " = " + l + "; return " + n + "; }\nu" + fmt("%d", made) + "(9);\n"; fns.insert(fmt("u%d", made)); } if (r.pct(15) && pre.size()) { const str &q = *pre.begin(); GV g2 = rnd(); text += q + " = " + T(g2) + ";\n"; val[q] = g2; } }
            ps.push_back({text, fmt("p%d", p)}); text.clear(); }
        str all = showPieces(ps); c.text(all); bool ok = true; for (auto &p : ps) { if (!nkxCompilerCompileScript(cs, p.text.c_str(), p.file.c_str()) || nkxVmHasErrors(vm)) { bad("rejected: " + cur->errors()); ok = false; break; }
            // look-ups while compiling
            for (int i = 0; i < 3; i++) { str n = r.pct(50) ? names[r.below((uint32_t)names.size())] : newName(); bool want = all.find("var " + n + " ") != str::npos || all.find("var " + n + ";") != str::npos || pre.count(n); NKValue *g = nkxVmFindGlobalVariable(vm, cs, n.c_str()); if (g && !want) bad("compiling: " + n + " found"); if (!g && pre.count(n)) bad("compiling: " + n + " not found"); } if (nkxVmHasErrors(vm)) bad("look-up while compiling adds an error: " + cur->errors()); }
        if (ok && prob.empty()) {
            cur->finalize(); for (auto &n : pre) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, n.c_str()); str got; if (!g) bad("predefined " + n + " not found"); else if (!same(vm, g, before[n], got)) bad("predefined " + n + " is " + got); } // before running
            cur->run(); c.evals++; if (cur->hasErrors()) bad("unexpected error: " + cur->errors()); if (prob.empty() && cur->w.trace != expectLog) bad("predefined values: " + diffText(cur->w.trace, expectLog, "real", "expected")); checkAll("after running");
            for (int s = r.range(5, 40); s-- > 0 && prob.empty();) { vm = cur->vm(); switch (r.below(9)) {
                case 0: case 1: { if (names.empty()) break; str n = names[r.below((uint32_t)names.size())]; GV g = rnd(); hist += "host writes " + n + " = " + T(g) + "\n"; NKValue x; memset(&x, 0, sizeof x); set(vm, &x, g); NKValue *p = nkxVmFindGlobalVariable(vm, nullptr, n.c_str()); if (!p) { bad("lost " + n); break; } *p = x; val[n] = g; c.count("writes"); break; }
                case 2: { int k = r.below(nv); NKValue ret; if (!order.size()) break; hist += fmt("script reads %s\n", order[k].c_str()); if (callF(fmt("get__%d", k), {}, ret)) { str got; if (nkxVmHasErrors(vm)) bad("error: " + cur->errors()); else if (!same(vm, &ret, val[order[k]], got)) bad("the script reads " + order[k] + " as " + got + ", expected " + T(val[order[k]])); } c.count("script_reads"); break; }
                case 3: { int k = r.below(nv); GV g = rnd(); NKValue x, ret; memset(&x, 0, sizeof x); set(vm, &x, g); hist += "script writes " + order[k] + " = " + T(g) + "\n"; val[order[k]] = g; if (callF(fmt("set__%d", k), {x}, ret)) { str got; if (!same(vm, &ret, g, got)) bad("the script's write returns " + got); } c.count("script_writes"); break; }
                case 4: checkAll("later"); break;
                case 5: hist += "collect\n"; nkxVmGarbageCollect(vm); checkAll("after a collection"); break;
                case 6: hist += "shrink\n"; nkxVmShrink(vm); checkAll("after shrinking"); break;
                case 7: if (r.pct(40)) { hist += "save and load\n"; str img; if (!cur->save(img)) { bad("save failed: " + cur->errors()); break; } std::unique_ptr<Vm> t(new Vm()); t->create(false); if (fns.count("hello")) nkxVmRegisterExternalFunction(t->vm(), "hello", nhello); if (!t->load(img)) { bad("load failed: " + t->errors()); t->destroy(); break; } cur->destroy(); str l = cur->leakReport(); if (l.size()) bad(l); cur = std::move(t); checkAll("after loading"); c.count("loads"); } break;
                default: conversions(); } } }
        if (prob.size()) c.fail(prob.substr(0, 50), prob + "\n" + hist + all.substr(0, 20000)); cur->destroy(); str l = cur->leakReport(); if (l.size() && prob.empty()) c.fail("leak", l); c.distinct(hashStr(all + hist)); c.sample(all.substr(0, 1500)); }
};
void c26(Ctx &c, Rng &r) { GCase g(c, r.next()); g.run(); }
}
ENGINE(C22, c22);
ENGINE(C26, c26);

// C18: exactly the well-formed scripts are accepted.  An independent tokenizer, parser and scope
// checker for the language decides mutated programs; the real compiler must agree, name the line,
// and nothing of a rejected script may run.
#include "vm.hpp"
#include <algorithm>
#include <memory>
namespace {
struct Tk { str s; char k; int line = 0; }; // k: i int, f float, s string, n name, w keyword, b built-in form, p punctuation
const char *const KW[] = {"var", "function", "return", "if", "else", "while", "do", "for", "newobject", "nil", "break"};
const char *const BF[] = {"coroutine", "yield", "resume", "is_finished", "object", "len"};
const char *const PU[] = {"===", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "->", "+", "-", "*", "/", "%", "<", ">", "=", "!", "(", ")", "[", "]", "{", "}", ";", ",", "."};
char wordKind(const str &s) { for (auto k : KW) if (s == k) return 'w'; for (auto k : BF) if (s == k) return 'b'; return 'n'; }
bool lex(const str &t, std::vector<Tk> &out) { // text the printer made: no comments or directives
    size_t i = 0; int line = 1; while (i < t.size()) { unsigned char c = t[i]; if (c == '\n') { line++; i++; continue; } if (c == ' ' || c == '\t' || c == '\r') { i++; continue; } size_t b = i;
        if (c == '"') { i++; while (i < t.size() && t[i] != '"') i += t[i] == '\\' ? 2 : 1; i++; if (i > t.size()) return false; out.push_back({t.substr(b, i - b), 's', line}); }
        else if (isdigit(c)) { bool d = false; while (i < t.size() && (isdigit((unsigned char)t[i]) || t[i] == '.')) d |= t[i++] == '.'; out.push_back({t.substr(b, i - b), d ? 'f' : 'i', line}); }
        else if (isalpha(c) || c == '_' || c >= 0x80) { while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || (unsigned char)t[i] >= 0x80)) i++; str w = t.substr(b, i - b); out.push_back({w, wordKind(w), line}); }
        else { bool ok = false; for (auto p : PU) if (!t.compare(i, strlen(p), p)) { out.push_back({p, 'p', line}); i += strlen(p); ok = true; break; } if (!ok) return false; } }
    return true; }
const char *const ROOT[] = {"out", "dump", "cb", "id", "box", "boxget", "boxset", "boxref", "boxderef", "fail", "tick", "keep", "drop", "nt_i", "nt_if", "nt_s", "nt_fo", "nt_sw", "nt_0"};

struct Nd { int k; str s; std::vector<Nd *> a; int tok; }; // k: NAME LIT FORM(called) BARE(built-in not called) IDX CALL INC NEG NOT BIN ASG FN
enum { NAME, LIT, FORM, BARE, IDX, CALL, INC, NEG, NOT, BIN, ASG, FN };
struct Ref {
    std::vector<Tk> t; size_t p = 0; struct Sc { std::set<str> names; bool loop = false, fn = false; int parent = -1; }; std::vector<Sc> sc; int cur = 0; bool bad = false; int depth = 0, maxDepth = 0;
    struct Er { int lo, hi; str what; size_t tok; }; std::vector<Er> errs; std::vector<std::unique_ptr<Nd>> nodes;
    int ln(size_t k) { if (t.empty()) return 1; return t[std::min(k, t.size() - 1)].line; }
    Nd *N(int k, int tok, std::vector<Nd *> a = {}) { nodes.emplace_back(new Nd{k, "", a, tok}); return nodes.back().get(); }
    bool at(const char *s) { return p < t.size() && (t[p].k == 'p' || t[p].k == 'w') && t[p].s == s; }
    bool syn(const str &w) { if (!bad) { size_t b = p ? p - 1 : 0; while (b && t[b].k == 's' && t[b - 1].k == 's') b--; errs.push_back({ln(b), ln(p), w, p}); } bad = true; return false; }
    bool need(const char *s) { if (!at(s)) return syn(str("expected ") + s); p++; return true; }
    void decl(const str &w, int tok, int hi) { errs.push_back({ln(tok), hi, w, (size_t)tok}); }
    int push(bool loop = false) { Sc s; s.loop = loop; s.parent = cur; sc.push_back(s); int o = cur; cur = (int)sc.size() - 1; return o; }
    bool lookup(const str &n) { for (int k = cur; k >= 0; k = sc[k].parent) if (sc[k].names.count(n)) return true; return false; }
    void add(const str &n, int tok) { if (!sc[cur].names.insert(n).second) decl("declared twice: " + n, tok, std::max(ln(p), ln((size_t)tok + 1))); }
    bool ending() { return p >= t.size() || at(")") || at("]") || at(",") || at(";"); }
    static int prec(const str &s) { static const std::map<str, int> m = {{"*", 5}, {"/", 5}, {"%", 5}, {"+", 6}, {"-", 6}, {">", 8}, {"<", 8}, {">=", 8}, {"<=", 8}, {"==", 9}, {"!=", 9}, {"===", 9}, {"&&", 13}, {"||", 14}, {"=", 15}}; auto i = m.find(s); return i == m.end() ? -1 : i->second; }
    struct D { Ref &r; D(Ref &r) : r(r) { if (++r.depth > r.maxDepth) r.maxDepth = r.depth; } ~D() { r.depth--; } };
    Nd *unary() { D d(*this);
        if (at("-") || at("!") || at("++") || at("--")) { int k = at("-") ? NEG : at("!") ? NOT : INC, tok = (int)p; p++; Nd *x = unary(); return x ? N(k, tok, {x}) : nullptr; }
        Nd *v = nullptr; int tok = (int)p;
        if (at("(")) { p++; v = expr(); if (!v || !need(")")) return nullptr; }
        else if (ending()) { syn("value missing"); return nullptr; }
        else if (at("function")) { if (!function(false)) return nullptr; v = N(FN, tok); }
        else if (t[p].k == 'n') { v = N(NAME, tok); v->s = t[p].s; p++; }
        else if (t[p].k == 'i' || t[p].k == 'f' || at("nil") || at("newobject")) { p++; v = N(LIT, tok); }
        else if (t[p].k == 's') { while (p < t.size() && t[p].k == 's') p++; v = N(LIT, tok); }
        else if (t[p].k == 'b') { str nm = t[p].s; p++; if (at("(")) { std::vector<Nd *> a; if (!args(a)) return nullptr; v = N(FORM, tok, a); v->s = nm; } else { v = N(BARE, tok); } }
        else { syn("not a value: " + t[p].s); return nullptr; }
        for (;;) { tok = (int)p;
            if (at("[")) { p++; Nd *i = expr(); if (!i || !need("]")) return nullptr; v = N(IDX, tok, {v, i}); }
            else if (at(".")) { p++; if (p >= t.size() || t[p].k != 'n') { syn("field name missing"); return nullptr; } p++; v = N(IDX, tok, {v}); }
            else if (at("->")) { p++; if (p >= t.size() || t[p].k != 'n') { syn("method name missing"); return nullptr; } p++; if (!at("(")) { syn("call missing"); return nullptr; } std::vector<Nd *> a = {v}; if (!args(a)) return nullptr; v = N(CALL, tok, a); }
            else if (at("(")) { std::vector<Nd *> a = {v}; if (!args(a)) return nullptr; v = N(CALL, tok, a); }
            else if (at("++") || at("--")) { p++; v = N(INC, tok, {v}); }
            else return v; } }
    bool args(std::vector<Nd *> &a) { p++; while (p < t.size() && !at(")")) { Nd *e = expr(); if (!e) return false; a.push_back(e); if (at(",")) p++; else if (!at(")")) return syn("expected , or )"); } return need(")"); }
    Nd *expr(int lim = 100) { D d(*this); Nd *l = unary(); if (!l) return nullptr; for (;;) { if (ending()) return l; int q = t[p].k == 'p' ? prec(t[p].s) : -1; if (q < 0) { syn("not an operator: " + t[p].s); return nullptr; } if (q >= lim) return l; int tok = (int)p; p++; Nd *r = expr(q); if (!r) return nullptr; l = N(t[tok].s == "=" ? ASG : BIN, tok, {l, r}); } }
    bool hasInc(Nd *n) { if (n->k == INC) return true; for (auto x : n->a) if (hasInc(x)) return true; return false; }
    int first(Nd *n) { int k = n->tok; for (auto x : n->a) k = std::min(k, first(x)); return k; } // the error may name the inner one
    void sem(Nd *n, int hi) { switch (n->k) {
        case NAME: if (!lookup(n->s)) decl("unknown name " + n->s, n->tok, hi); return;
        case BARE: decl("built-in form without call", n->tok, hi); return;
        case FORM: { size_t c = n->a.size(); for (auto x : n->a) sem(x, hi); bool ok = n->s == "coroutine" ? c >= 1 : n->s == "yield" ? c <= 1 : n->s == "resume" ? c == 1 || c == 2 : n->s == "object" ? c == 0 : c == 1; if (!ok) decl("wrong number of arguments to " + n->s, n->tok, hi); return; }
        case ASG: sem(n->a[1], hi); if (n->a[0]->k != NAME && n->a[0]->k != IDX) decl("cannot assign", first(n->a[0]), hi); else sem(n->a[0], hi); return;
        case INC: if (n->a[0]->k != NAME && n->a[0]->k != IDX) decl("cannot increment", first(n), hi); else if (hasInc(n->a[0])) decl("increment inside an increment", first(n), hi); else sem(n->a[0], hi); return;
        default: for (auto x : n->a) sem(x, hi); } }
    bool full(bool now = true, Nd **out = nullptr) { Nd *e = expr(); if (!e) return false; if (out) *out = e; if (now) fixlo(e); return true; }
    void fixlo(Nd *e) { size_t b = errs.size(); sem(e, ln(p)); for (size_t i = b; i < errs.size(); i++) if (errs[i].hi < errs[i].lo) std::swap(errs[i].hi, errs[i].lo); }
    bool function(bool named) { D d(*this); p++; if (named) { add(t[p].s, (int)p); p++; } if (!at("(")) return syn("expected ("); p++; int o = cur; Sc s; s.fn = true; s.parent = 0; sc.push_back(s); cur = (int)sc.size() - 1; add("_functionId", (int)p);
        while (p < t.size()) { if (t[p].k == 'n') { int q = (int)p; add(t[p].s, q); p++; } else if (!at(")")) return syn("parameter name missing"); if (at(")")) break; if (at(",")) p++; else return syn("expected ) or ,"); }
        add("_argumentCount", (int)p); add("_returnPointer", (int)p); if (!need(")")) return false; if (!stmt()) return false; cur = o; return true; }
    bool stmt() { D d(*this); if (p >= t.size()) return syn("statement missing");
        if (at("var")) { p++; if (p >= t.size() || t[p].k != 'n') return syn("name missing"); str n = t[p].s; int q = (int)p; p++; if (at("=")) { p++; if (!full()) return false; } add(n, q); return need(";"); }
        if (at("return")) { int q = (int)p; p++; if (!full()) return false; bool in = false; for (int k = cur; k >= 0; k = sc[k].parent) in |= sc[k].fn; if (!in) decl("return outside of a function", q, ln(p)); return need(";"); }
        if (at("{")) { p++; int o = push(); while (p < t.size() && !at("}")) if (!stmt()) return false; cur = o; return need("}"); }
        if (at("if")) { p++; if (!need("(") || !full() || !need(")")) return false; int o = push(); if (!stmt()) return false; cur = o; if (at("else")) { p++; o = push(); if (!stmt()) return false; cur = o; } return true; }
        if (at("while")) { p++; int o = push(true); push(); if (!need("(") || !full() || !need(")")) return false; push(); if (!stmt()) return false; cur = o; return true; }
        if (at("do")) { p++; int o = push(true); push(); int in = push(); if (!stmt()) return false; cur = sc[in].parent; if (!need("while") || !need("(") || !full() || !need(")")) return false; cur = o; return need(";"); }
        if (at("for")) { p++; int o = push(true); int in = (push(), cur); if (!need("(") || !stmt() || !full() || !need(";")) return false; Nd *inc = nullptr; if (!full(false, &inc)) return false; fixlo(inc); if (!need(")")) return false; push(); if (!stmt()) return false; cur = o; (void)in; return true; }
        if (at("break")) { bool in = false; for (int k = cur; k >= 0; k = sc[k].parent) in |= sc[k].loop; if (!in) decl("break outside of a loop", (int)p, ln(p)); p++; return need(";"); }
        if (at("function") && p + 1 < t.size() && t[p + 1].k == 'n') return function(true);
        return full() && need(";"); }
    bool accept() { sc.clear(); Sc s; for (auto n : ROOT) s.names.insert(n); sc.push_back(s); cur = 0; while (p < t.size()) { if (at("}")) { syn("extra }"); break; } if (!stmt()) break; } return errs.empty(); }
};
str randName(Rng &r, const std::vector<Tk> &t) { for (int k = 0; k < 20; k++) { auto &x = t[r.below((uint32_t)t.size())]; if (x.k == 'n') return x.s; } return "out"; }
Tk randTok(Rng &r, const std::vector<Tk> &t) { switch (r.below(10)) { case 0: case 1: case 2: case 3: { str s = PU[r.below(sizeof PU / sizeof *PU)]; return {s, 'p', 0}; } case 4: { str s = KW[r.below(sizeof KW / sizeof *KW)]; return {s, 'w', 0}; } case 5: { str s = BF[r.below(6)]; return {s, 'b', 0}; } case 6: return {fmt("%u", r.below(1000)), 'i', 0}; case 7: return r.pct(50) ? Tk{"\"q\"", 's', 0} : Tk{"1.5", 'f', 0}; case 8: return {r.pct(30) ? fmt("nosuch%u", r.below(9)) : r.pct(15) ? str("_argumentCount") : randName(r, t), 'n', 0}; default: return t.empty() ? Tk{";", 'p', 0} : t[r.below((uint32_t)t.size())]; } }
str errsText(Ref &f) { str s; for (auto &e : f.errs) s += fmt("line %d..%d: ", e.lo, e.hi) + e.what + "\n"; return s; }

struct Judge { Ctx &c; Rng &r; str text; std::function<str()> show;
    // allowed: (file, lo, hi)
    bool reject(const std::vector<std::tuple<str, int, int>> &allowed, const str &why) {
        Vm v; v.create(); bool ok = nkxCompilerCompileScript(v.w.cs, text.c_str(), "t.nks"); str prob; auto el = v.errorList();
        if (el.empty() && !ok) prob = "rejected without an error"; else if (el.empty()) prob = "accepted, but malformed: " + why; else if (ok) prob = "compiling reports success and an error: " + el[0];
        if (prob.empty()) { str f, m; int l = 0; if (!parseErr(el[0], f, l, m)) prob = "the error names no place: " + el[0]; else { bool in = false; for (auto &a : allowed) in |= std::get<0>(a) == f && l >= std::get<1>(a) && l <= std::get<2>(a); if (!in) prob = "the error names another place: " + el[0] + "; expected " + why; } }
        int mode = r.below(4); if (mode != 3) v.finalize(); else if (v.w.cs) { /* never finalised: released with the machine */ }
        size_t n = v.errorList().size(); bool ran = mode == 0 ? nkxVmExecuteProgram(v.vm()) : (nkxVmIterate(v.vm(), 500), false); if (prob.empty() && ran) prob = "executing a rejected script reports success"; if (prob.empty() && (v.w.nativeCalls || v.w.ticks || v.w.trace.size())) prob = "part of a rejected script ran"; if (prob.empty() && v.errorList().size() < n) prob = "errors got lost";
        if (prob.empty() && !nkxVmHasErrors(v.vm())) prob = "errors got lost"; nkxVmFindGlobalVariable(v.vm(), nullptr, "out"); if (r.pct(30)) { FILE *nul = fopen("/dev/null", "w"); nkxDbgDumpState(v.vm(), text.c_str(), nul); fclose(nul); } if (r.pct(30)) nkxVmGarbageCollect(v.vm()); if (r.pct(20)) nkxVmShrink(v.vm()); str mem; if (prob.empty() && !v.checkMem(mem)) prob = mem;
        v.destroy(); str l = v.leakReport(); if (prob.empty() && l.size()) prob = l; if (prob.size()) { c.fail(prob.substr(0, prob.find(':')).substr(0, 60), prob + "\n" + text); return false; } c.count("rejected"); return true; }
    bool acceptIt(bool run) { Vm v; v.create(); bool ok = nkxCompilerCompileScript(v.w.cs, text.c_str(), "t.nks"); str prob; if (!ok || nkxVmHasErrors(v.vm())) prob = "a well-formed script is rejected: " + v.errors(); v.finalize(); if (prob.empty() && nkxVmHasErrors(v.vm())) prob = "a well-formed script is rejected at the end: " + v.errors();
        if (prob.empty() && run) { nkxSetRemainingInstructionLimit(v.vm(), 20000); nkxSetMaxAllocatedMemory(v.vm(), 64 << 20); v.run(30000); if (!v.ended()) prob = "the instruction limit does not stop the script"; } v.destroy(); str l = v.leakReport(); if (prob.empty() && l.size()) prob = l; if (prob.size()) { c.fail(prob.substr(0, prob.find(':')).substr(0, 60), prob + "\n" + text.substr(0, 30000)); return false; } c.count("accepted"); return true; }
};
str render(const std::vector<Tk> &t, Rng *r) { str s; int line = 1; for (size_t i = 0; i < t.size(); i++) { while (line < t[i].line) { s += "\n"; line++; } if (i && t[i].line == t[i - 1].line) s += r && r->pct(10) ? "\t" : " "; s += t[i].s; } return s + (r && r->pct(20) ? "" : "\n"); }
std::vector<Tk> baseTokens(Ctx &c, Rng &r) { Program p; GenOpts g; g.stmts = r.range(2, 9); g.depth = r.range(1, 3); g.nest = r.range(1, 4); g.funcs = r.below(4); g.coroutines = r.pct(50); g.boxes = r.pct(20); g.callable = r.pct(40); generate(p, r, g); PrintOpts po; po.r = &r; auto ps = printProgram(p, po); std::vector<Tk> t; if (!lex(ps[0].text, t)) c.fail("internal", "cannot tokenize:\n" + ps[0].text); return t; }

void mutants(Ctx &c, Rng &r) {
    auto base = baseTokens(c, r); if (base.empty()) return; int rounds = 40; for (int q = 0; q < rounds; q++) {
        std::vector<Tk> t; int shape = r.below(10);
        if (shape == 0) { int n = r.range(1, 9); for (int i = 0; i < n; i++) { Tk x = randTok(r, base); x.line = 1 + i / 3; t.push_back(x); } }
        else if (shape == 1) { size_t b = r.below((uint32_t)base.size()), n = r.range(1, 14); t.assign(base.begin() + b, base.begin() + std::min(base.size(), b + n)); }
        else { t = base; int m = q == 0 ? 0 : r.pct(70) ? 1 : r.range(2, 4); while (m-- && t.size()) { size_t i = r.below((uint32_t)t.size()); switch (r.below(7)) { case 0: t.erase(t.begin() + i); break; case 1: { Tk x = randTok(r, base); x.line = t[i].line; t.insert(t.begin() + i, x); break; } case 2: { Tk x = randTok(r, base); x.line = t[i].line; t[i] = x; break; } case 3: if (i + 1 < t.size()) { std::swap(t[i].s, t[i + 1].s); std::swap(t[i].k, t[i + 1].k); } break; case 4: { Tk x = t[i]; t.insert(t.begin() + i, x); break; } case 5: { if (r.pct(20)) t.resize(i); else { size_t n = std::min<size_t>(t.size() - i, r.range(1, 5)); t.erase(t.begin() + i, t.begin() + i + n); } break; } default: { size_t j = r.below((uint32_t)t.size()), n = std::min<size_t>(t.size() - j, r.range(1, 8)); std::vector<Tk> cut(t.begin() + j, t.begin() + j + n); for (auto &x : cut) x.line = t[i].line; t.insert(t.begin() + i, cut.begin(), cut.end()); } } } }
        if (t.empty()) continue; int sub = t[0].line - 1; (void)sub; int line = 0, last = -1; for (auto &x : t) { if (x.line != last) { last = x.line; line += r.pct(10) ? 2 : 1; } x.line = line; }
        if (r.pct(15)) { line = 1; for (auto &x : t) { if (r.pct(30)) line++; x.line = line; } }
        if (r.pct(8)) { // a token no script may hold, where an operator or value stood
            static const char *ILL[] = {"&", "|", "@", "?", ":", "^", "~", "$", "'", "`", "\\", "&;", "|1", "&a", "\x01"}; std::vector<size_t> op; for (size_t i = 0; i < t.size(); i++) if (t[i].k == 'p' && Ref::prec(t[i].s) > 0) op.push_back(i);
            size_t i = op.size() && r.pct(75) ? op[r.below((uint32_t)op.size())] : r.below((uint32_t)t.size()); t[i].s = r.pct(50) ? ILL[r.below(2)] : ILL[r.below(15)]; Judge j{c, r, render(t, &r)}; c.text(j.text); c.evals++; c.distinct(hashStr(j.text)); c.count("illegal_tokens"); if (!j.reject({{"t.nks", t[i].line, t[i].line}}, "illegal token " + t[i].s + fmt(" in line %d", t[i].line))) return; continue; }
        Ref f; f.t = t; bool ok = f.accept(); if (f.maxDepth > 30) { c.count("skipped_deep"); continue; }
        Judge j{c, r, render(t, &r)}; c.text(j.text); c.evals++; c.distinct(hashStr(j.text)); if (ok) { if (!j.acceptIt(true)) return; } else { std::vector<std::tuple<str, int, int>> al; for (auto &e : f.errs) al.push_back({"t.nks", e.lo, e.hi}); { str w = f.errs[0].what; w = w.substr(0, w.find(':')); if (w.rfind("unknown name", 0) == 0) w = "unknown name"; c.count(("fault: " + w).substr(0, 34).c_str()); }; if (!j.reject(al, errsText(f))) return; } } }
// Lexical faults and directives, with the place of the error known exactly.
void lexical(Ctx &c, Rng &r) {
    auto base = baseTokens(c, r); if (base.empty()) return; for (int q = 0; q < 16; q++) {
        struct L { str s; str file; int line; }; std::vector<L> ls; { std::map<int, str> m; for (auto &x : base) { str &s = m[x.line]; s += (s.empty() ? "" : " ") + x.s; } int last = base.back().line; for (int i = 1; i <= last; i++) ls.push_back({m.count(i) ? m[i] : "", "", 0}); }
        str nl = r.pct(70) ? "\n" : "\r\n"; int nd = r.below(4); for (int k = 0; k < nd; k++) { str fn = fmt("d%d.nks", r.below(3)); static const char *tail[] = {"", "   ", " // note", "\t//", " // \"x"}; str tl = tail[r.below(5)]; str d; switch (r.below(6)) { case 0: d = fmt("#line %u", r.below(100000)) + tl; break; case 1: d = fmt("#line %u \"", r.below(100000)) + fn + "\"" + tl; break; case 2: d = "#file \"" + fn + "\"" + tl; break; case 3: d = "#" + tl; break; case 4: d = fmt("#  line   %u", r.below(100)) + tl; break; default: d = "# file\t\"" + fn + "\"" + tl; } size_t at = r.below((uint32_t)ls.size() + 1); ls.insert(ls.begin() + at, {d, "", 0}); }
        size_t at = r.below((uint32_t)ls.size()); bool eof = false; str what; static const char *ill[] = {"@", "$", "?", ":", "'", "`", "~", "^", "\\", "& ", "| ", "&+", "\x01", "\x7f", "#foo", "#line", "#line 1 \"a\" 3", "#file", "#file \"a\" \"b\"", "#file abc def", "#line 5 @", "#file \"abc", "#file \"abc\\\"", "#line 7 ; x", "# -", "#line 5 / x", "#file \"a\" /"};
        int pick = r.below(31); bool intact = pick >= 29; int lastN = (int)(sizeof ill / sizeof *ill);
        if (pick < lastN) { what = ill[pick]; if (what[0] == '#') ls.insert(ls.begin() + at, {what, "", 0}); else { const str &l = ls[at].s; if (r.pct(50) || l.find_first_of("\"#") != str::npos || l.find("//") != str::npos) ls.insert(ls.begin() + at, {what, "", 0}); else ls[at].s = r.pct(50) ? what + " " + l : l + " " + what; } }
        else if (pick == lastN) { what = "newline in string"; ls.insert(ls.begin() + at, {"out(\"never ended);", "", 0}); if (at + 1 == ls.size()) ls.push_back({"", "", 0}); }
        else if (pick == lastN + 1) { what = "string never ended"; ls.push_back({r.pct(50) ? "out(\"never ended);" : "\"", "", 0}); at = ls.size() - 1; eof = true; }
        str text, file = "t.nks"; int line = 1; int lastPos = 0; for (size_t i = 0; i < ls.size(); i++) { ls[i].file = file; ls[i].line = line; text += ls[i].s; if (!(eof && i + 1 == ls.size())) text += nl; const str &s = ls[i].s; bool setl = false; if (s.size() && s[0] == '#' && i != at) { char w[32] = "", f[64] = ""; unsigned n = 0; str x = s.substr(1); size_t cm = x.find("//"); if (cm != str::npos) x = x.substr(0, cm); for (auto &ch : x) if (ch == '"') ch = ' '; int got = sscanf(x.c_str(), " %31s", w); if (got == 1 && !strcmp(w, "line")) { got = sscanf(x.c_str(), " line %u %63s", &n, f); line = (int)n; setl = true; if (got == 2) file = f; } else if (got == 1 && !strcmp(w, "file")) { sscanf(x.c_str(), " file %63s", f); file = f; } } else if (s.size() && s[0] == '#' && pick < lastN && !intact) {} else if (s.size() && s[0] == '#') { char w[32] = "", f[64] = ""; unsigned n = 0; str x = s.substr(1); size_t cm = x.find("//"); if (cm != str::npos) x = x.substr(0, cm); for (auto &ch : x) if (ch == '"') ch = ' '; int got = sscanf(x.c_str(), " %31s", w); if (got == 1 && !strcmp(w, "line")) { got = sscanf(x.c_str(), " line %u %63s", &n, f); line = (int)n; setl = true; if (got == 2) file = f; } else if (got == 1 && !strcmp(w, "file")) { sscanf(x.c_str(), " file %63s", f); file = f; } } if (!setl) line++; (void)lastPos; }
        Judge j{c, r, text}; c.text(text); c.evals++; c.distinct(hashStr(text)); Ref f; f.t = base; bool ok = f.accept();
        if (intact) { if (ok) { if (!j.acceptIt(false)) return; } else continue; c.count("directives_accepted"); continue; }
        c.count("lexical_faults"); std::vector<std::tuple<str, int, int>> al = {{ls[at].file, ls[at].line, ls[at].line}}; if (!j.reject(al, what + fmt(" at %s:%d", ls[at].file.c_str(), ls[at].line))) return; } }
// One construct nested in itself, within reach of the documented limit of 256 levels, and the same far beyond it.
str rep(const char *s, int n) { str o; while (n-- > 0) o += s; return o; }
str deepText(int k, int n, int &safe) { safe = 100; switch (k) {
    case 0: safe = 200; return "var x = " + rep("(", n) + "1" + rep(")", n) + ";";
    case 1: return rep("{", n) + "out(1);" + rep("}", n);
    case 2: return "var x; " + rep("if(x) x = 1; else ", n) + "x = 2;";
    case 3: return "var x; " + rep("if(x) ", n) + "x = 2;";
    case 4: safe = 200; return "var x = " + rep("- ", n) + "1;";
    case 5: safe = 200; return "var y; var x = " + rep("!", n) + "y;";
    case 6: safe = 200; return "var y; var x = y" + rep(" + y", n) + ";";
    case 7: safe = 200; return "cb(id" + rep(", 1", n) + ");";
    case 8: safe = 24; return "var x = " + rep("function(a) { return ", n) + "1" + rep(";}", n) + ";";
    case 9: return "var x = " + rep("id(", n) + "1" + rep(")", n) + ";";
    case 10: safe = 200; return "var x = object(); function f() { x" + rep(".a", n) + " = 1; }";
    case 11: safe = 200; return "var x = object(); function f() { x" + rep("[1", n) + rep("]", n) + "++; }";
    case 12: return "var x; " + rep("while(x) ", n) + "x = 1;";
    case 13: return "var x; " + rep("for(x = 1; 0; x++) ", n) + "x = 1;";
    case 14: return "var x; " + rep("do ", n) + "x = 1; " + rep("while(0);", n);
    case 15: { safe = 1000; str t = "function f(a"; for (int i = 0; i < n; i++) t += fmt(", a%d", i); return t + ") { return a; }"; }
    case 16: safe = 200; return "function f() { return f; } f" + rep("()", n) + ";";
    case 17: safe = 200; return "var x = 1" + rep(" || 1 + 1 * 1", n) + ";";
    default: safe = 3000; return "var x = " + rep("\"ab\" ", n) + ";"; } }
void deep(Ctx &c, Rng &r) { for (int q = 0; q < 6; q++) { int k = r.below(19), safe; deepText(k, 0, safe); bool far = r.pct(25); int n = far ? r.range(4000, 30000) : r.pct(40) ? safe : r.range(1, safe); if (k == 8 && far) n /= 8;
        str t = deepText(k, n, safe); Judge j{c, r, t}; c.text(fmt("deepText(%d, %d)", k, n)); c.phase(fmt("deep %d x %d", k, n).c_str()); c.evals++; c.distinct(hashStr(t)); if (!far) { c.count("deep_accepted"); if (!j.acceptIt(false)) return; continue; }
        // beyond the limit: either way it must be clean
        Vm v; v.create(); bool ok = nkxCompilerCompileScript(v.w.cs, t.c_str(), "t.nks"); str prob; if (ok == !v.errorList().empty()) prob = ok ? "compiling reports success and an error" : "rejected without an error"; v.finalize(); if (prob.empty() && !ok && (nkxVmExecuteProgram(v.vm()) || v.w.nativeCalls)) prob = "part of a rejected script ran"; v.destroy(); str l = v.leakReport(); if (prob.empty() && l.size()) prob = l; if (prob.size()) { c.fail(prob, prob + "\n" + t.substr(0, 2000)); return; } c.count(ok ? "beyond_limit_accepted" : "beyond_limit_rejected"); } }
// Sizes: any number of statements; nesting within reach of the limit.
void sizes(Ctx &c, Rng &r) {
    static const char *one[] = {"x = x + 1;", "{ var a = x; x = a; }", "if(x) x = 1; else x = 2;", "while(x > 5) { x = x - 1; break; }", "do { x--; } while(0);", "for(var i = 0; i < 2; i++) x++;", "function(a) { return a; }(3);", "o.f = x;", "o[x]++;", "out();", "x = \"a\" + \"b\";", "y = coroutine(function() { yield(1); }); resume(y); is_finished(y);", "{}", "x = (((1)));", "o = object(); len(o); o = newobject; x = nil;"};
    str t = "var x; var o = object(); var y;\n"; if (r.pct(60)) { int n = c.thorough ? r.range(200, 12000) : r.range(200, 2500); bool mono = r.pct(50); int k = r.below(15); for (int i = 0; i < n; i++) { if (r.pct(3)) t += fmt("function f%d(a, b) { if(a) return b; return a; }\n", i); else if (r.pct(3)) t += fmt("var v%d = x;\n", i); else { t += one[mono ? k : r.below(15)]; t += r.pct(80) ? "\n" : " "; } } c.maxi("statements", n); }
    else { int n = r.range(1, 18); str a, b, e; for (int i = 0; i < n; i++) switch (r.below(9)) { case 0: a += "{ "; b = " }" + b; break; case 1: a += "if(x) "; break; case 2: a += "while(x > 99) { "; b = " }" + b; break; case 3: a += fmt("for(var i%d = 0; i%d < 1; i%d++) ", i, i, i); break; case 4: a += "do { "; b = " } while(0);" + b; break; case 5: a += fmt("if(x) { out(1); } else "); break; case 6: a += fmt("function g%d(p) { ", i); b = " }" + b; break; case 7: a += "y = function(p) { "; b = " };" + b; break; default: a += "{ var z = 1; { z = 2; } "; b = " }" + b; }
        int m = r.range(1, 12); str x = "x = ", y; for (int i = 0; i < m; i++) switch (r.below(6)) { case 0: x += "("; y = ")" + y; break; case 1: x += "- "; break; case 2: x += "!"; break; case 3: x += "len(o) + "; break; case 4: x += "id("; y = ")" + y; break; default: x += "1 + ("; y = ") * 2" + y; } t += a + x + "1" + y + ";" + b + "\n"; c.maxi("nesting", n); }
    Judge j{c, r, t}; c.text(t.substr(0, 5000)); c.evals++; c.distinct(hashStr(t)); j.acceptIt(false); c.count("size_cases"); }
void c18(Ctx &c, Rng &r) { switch (r.below(9)) { case 0: case 1: lexical(c, r); break; case 2: sizes(c, r); break; case 3: deep(c, r); break; default: mutants(c, r); } c.sample("(see counters)"); }
}
ENGINE(C18, c18);

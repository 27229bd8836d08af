#include "lang.hpp"
#include <cmath>
namespace {
struct Scope { std::vector<Var *> v; };
struct G {
    Program &p; Rng &r; const GenOpts &g;
    std::vector<Scope> root, *sc = &root; std::vector<Scope> fsc;   // scopes of the current body
    std::vector<Scope> *stackOfScopes = nullptr;
    Func *fn = nullptr; int *slots = nullptr; int loop = 0; int uid = 0; int nest = 0; double mult = 1, cost = 0; bool inRec = false; int exprDepth = 0;
    std::map<str, Var *> nat; std::vector<str> shapes;
    int faultAt = -1, stmtNo = 0; bool faultDone = false; bool coroRoot = false; int fnNest = 0;
    std::vector<Var *> intFields; // unused
    G(Program &p, Rng &r, const GenOpts &g) : p(p), r(r), g(g) {}
    bool P(int x) { return r.pct(x); }

    Expr *native(const char *n) {
        auto it = nat.find(n); Var *v;
        if (it == nat.end()) { v = p.V(n); v->native = true; v->nativeId = (int)p.natives.size(); p.natives.push_back(n); nat[n] = v; } else v = it->second;
        return p.R(v);
    }
    Expr *call(Expr *c, std::vector<Expr *> a) { Expr *e = p.E(E_CALL); e->a = a; e->a.insert(e->a.begin(), c); return e; }
    Expr *field(Expr *o, const str &n) { Expr *e = p.E(E_FIELD); e->a = {o}; e->s = n; return e; }
    Expr *index(Expr *o, Expr *k) { Expr *e = p.E(E_INDEX); e->a = {o, k}; return e; }
    Expr *un(EK k, Expr *a, int op = 0) { Expr *e = p.E(k); e->a = {a}; e->op = op; return e; }
    // ---- variables
    std::vector<Var *> visible() {
        std::vector<Var *> out; std::map<str, bool> seen;
        auto add = [&](std::vector<Scope> &s) { for (size_t i = s.size(); i--;) for (size_t j = s[i].v.size(); j--;) if (!seen[s[i].v[j]->name]) { seen[s[i].v[j]->name] = true; out.push_back(s[i].v[j]); } };
        add(*sc); if (fn) { std::vector<Scope> gl; gl.push_back(root[0]); add(gl); }
        return out;
    }
    Var *pickVar(char t, bool writable = false) {
        std::vector<Var *> c; for (auto *v : visible()) if (v->type == t && !(writable && v->readonly)) c.push_back(v);
        return c.empty() ? nullptr : r.pick(c);
    }
    Var *pickFn(bool yields, char ret, bool anyRet = false) {
        std::vector<Var *> c; for (auto *v : visible()) if (v->type == 'F' && v->sig && v->sig->yields == yields && (anyRet || v->sig->ret == ret) && v->sig->cost * mult < 400) c.push_back(v);
        return c.empty() ? nullptr : r.pick(c);
    }
    str newName(const char *pre) {
        if (P(25)) { // shadow an outer name
            std::vector<str> c; for (auto *v : visible()) { bool same = false; for (auto *w : sc->back().v) if (w->name == v->name) same = true; if (fn && sc->size() >= 2) for (auto *w : (*sc)[0].v) if (w->name == v->name) same = true; if (!same && !v->native && !v->readonly && v->type != 'F') c.push_back(v->name); }
            if (sc->size() > 1 && !c.empty()) { p.feat["shadow"]++; return r.pick(c); }
        }
        return pre + fmt("%d", ++uid);
    }
    Var *declare(const str &n, char t) {
        Var *v = p.V(n); v->type = t;
        if (!fn && sc->size() == 1) { v->global = true; v->slot = p.nGlobals++; p.globals.push_back(v); }
        else v->slot = (*slots)++;
        sc->back().v.push_back(v); return v;
    }
    // ---- literals
    str rstr() {
        static const char *const w[] = {"", "a", "b", "abc", "hello", "12", "-7", "3.5", "x y", "0", "1e3", " 42", "a\nb", "q\"q", "tab\t", "\xc3\xa9", "zz", "ab", "ba", "aa", "function", "nil", "\\", "\\x", "0x10", "//", "%d%s", "2147483648", "\x7f\x80\xff"};
        if (P(70)) return w[r.below(29)];
        str s; int n = r.below(g.strHeavy ? 12 : 5); for (int i = 0; i < n; i++) { char c = "abcdefgh 0123_"[r.below(14)]; if (g.strHeavy && P(20)) c = (char)(1 + r.below(255)); if (c == '\\' || c == 0) c = '/'; s += c; }
        return s;
    }
    // A literal backslash is only safe when the next character is not one of n r t " or the end of the literal.
    str safeStr() {
        str s = rstr(), o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\') { char nx = i + 1 < s.size() ? s[i + 1] : '"'; if (strchr("nrt\"\\\n\r\t", nx)) { o += '/'; continue; } } o += s[i]; } return o;
    }
    Expr *ilit() {
        static const int b[] = {0, 1, 2, 3, 5, 7, 10, 100, 127, 128, 255, 256, 257, 512, 1024, 32767, 65535, 65536, 16777216, 16777217, 1000000007, 2147483646, 2147483647};
        int v = P(50) ? (int)r.below(10) : P(g.bigInts ? 50 : 10) ? b[r.below(23)] : (int)r.below(1000);
        Expr *e = p.I(v); return P(15) ? un(E_NEG, e) : e;
    }
    Expr *flit() {
        static const char *const b[] = {"0.0", "0.5", "1.0", "2.0", "3.25", "0.1", "0.3", "1000000.0", "16777216.0", "123456.789", "0.000001", "5.", "2147483648.0", "1.5", "99999.99", "0.0000001234", "340282346638528859811704183484516925440.0", "1.1"};
        str s; if (P(60)) s = b[r.below(18)]; else { float f = (float)r.below(100000) / (float)(1 + r.below(1000)); s = floatText(f); }
        Expr *e = p.Flt(s); return P(15) ? un(E_NEG, e) : e;
    }
    Expr *slit() { return p.Str(safeStr()); }
    // a text put together at run time: no literal keeps it alive
    Expr *dynKey(const char *pre) { p.feat["computed_key"]++; Var *iv = pickVar('i'); return p.B(O_ADD, p.Str(pre), iv && P(70) ? p.B(O_MOD, p.R(iv), p.I(4)) : p.I(r.below(4))); }
    Expr *key(char vt) { // key expression for fields holding type vt
        switch (vt) {
        case 'i': if (P(50)) return p.I(r.below(6)); return p.Str(str(1, "abc"[r.below(3)]));
        case 'f': if (P(40)) return p.Flt(P(50) ? "0.5" : "1.5"); return p.Str(P(50) ? "x" : "y");
        case 's': if (P(20)) return dynKey("ks"); return p.Str(P(50) ? "s" : "t");
        case 'o': if (P(35)) return dynKey("ko"); return p.Str(P(50) ? "p" : "q");
        default: return p.Str(P(50) ? "u" : "v");
        }
    }
    Expr *access(char vt) { // o.k or o[k], raw
        Var *o = pickVar('o'); if (!o) return nullptr;
        Expr *ob = p.R(o);
        Expr *k = key(vt); p.feat["access"]++;
        if (vt == 'i' && P(25)) { Var *iv = pickVar('i'); if (iv) return index(ob, p.B(O_MOD, p.R(iv), p.I(3))); }
        if (vt == 'n' && g.funcKeys && P(40)) { Var *kv = pickVar("oobcF"[r.below(5)]); if (kv) { p.feat["identity_key"]++; return index(ob, p.R(kv)); } }
        if (vt == 'o' && g.funcKeys && P(12)) { Var *kv = pickVar("oobc"[r.below(4)]); if (kv) { p.feat["identity_key"]++; return index(ob, p.R(kv)); } }
        if (k->k == E_STR && P(60)) return field(ob, k->s);
        return index(ob, k);
    }
    Expr *callFn(Var *v, int d, bool stmt = false) {
        Func *f = v->sig; cost += f->cost * mult; std::vector<Expr *> a;
        for (size_t i = 0; i < f->params.size(); i++) a.push_back(f->recursive && i == 0 ? p.I(r.below(5)) : E(f->params[i]->type, d - 1));
        p.feat["call"]++;
        if (g.callbacks && g.natives && P(20)) { a.insert(a.begin(), p.R(v)); p.feat["cb"]++; return call(native("cb"), a); }
        return call(p.R(v), a);
    }
    Expr *E(char t, int d) {
        struct Dd { int &x; Dd(int &x) : x(x) { x++; } ~Dd() { x--; } } dd(exprDepth);
        if (d <= 0 || exprDepth > 7) return leaf(t);
        switch (t) {
        case 'i': return eInt(d);
        case 'f': return eFlt(d);
        case 's': return eStr(d);
        case 'o': return eObj(d);
        case 'n': return eAny(d);
        default: return leaf(t);
        }
    }
    Expr *leaf(char t) {
        Var *v = P(65) ? pickVar(t) : nullptr; if (v) return p.R(v);
        switch (t) {
        case 'i': return ilit();
        case 'f': return flit();
        case 's': return slit();
        case 'o': { Var *w = pickVar('o'); if (w && P(70)) return p.R(w); return P(50) ? p.E(E_OBJECT) : p.E(E_NEWOBJ); }
        case 'b': { Var *w = pickVar('b'); if (w) return p.R(w); return call(native("box"), {ilit()}); }
        case 'c': { Var *w = pickVar('c'); if (w) return p.R(w); return newCoro(1); }
        case 'F': { Var *w = pickVar('F'); if (w) return p.R(w); return p.E(E_NIL); }
        default: switch (r.below(5)) { case 0: return p.E(E_NIL); case 1: return leaf('f'); case 2: return leaf('s'); case 3: return g.objects ? leaf('o') : leaf('i'); default: return leaf('i'); }
        }
    }
    char anyT() { static const char t[] = "iiifffsssn"; char c = t[r.below(10)]; if (!g.floats && c == 'f') c = 'i'; if (!g.strings && c == 's') c = 'i'; return c; }
    Expr *conv(int d) { // operand converted by the left one: int, float, string or nil
        switch (r.below(8)) { case 0: return g.floats ? E('f', d) : E('i', d); case 1: return g.strings ? E('s', d) : E('i', d); case 2: return P(50) ? p.E(E_NIL) : E('i', d); default: return E('i', d); }
    }
    Expr *cmpE(int d) {
        static const int ops[] = {O_GT, O_LT, O_GE, O_LE, O_EQ, O_NE, O_SEQ}; int op = ops[r.below(7)];
        if (P(8)) return p.B(op, extreme(), extreme());
        if (op == O_EQ || op == O_NE || op == O_SEQ) { if (P(30) && g.objects) { if (P(50)) return p.B(op, E('o', d), E(P(70) ? 'o' : 'i', d)); return p.B(op, E('i', d), E('o', d)); } }
        char a = anyT(); if (a == 'n') a = 'i'; char b = P(70) ? a : anyT(); if (b == 'n') { return p.B(op, E(a, d), p.E(E_NIL)); }
        return p.B(op, E(a, d), E(b, d));
    }
    Expr *newCoro(int d) {
        Var *f = pickFn(true, 'i', true); if (!f) f = pickFn(false, 'i', true); if (!f) return p.E(E_NIL);
        Expr *e = p.E(E_CORO); e->a.push_back(p.R(f)); cost += f->sig->cost * mult;
        for (size_t i = 0; i < f->sig->params.size(); i++) e->a.push_back(f->sig->recursive && i == 0 ? p.I(r.below(4)) : E(f->sig->params[i]->type, d - 1));
        p.feat["coroutine"]++; return e;
    }
    // a coroutine that nothing but the chain of running coroutines refers to
    Expr *anonResume(Var *f, int d) {
        Expr *c; if (f) { c = p.E(E_CORO); c->a.push_back(p.R(f)); cost += f->sig->cost * mult; for (size_t i = 0; i < f->sig->params.size(); i++) c->a.push_back(E(f->sig->params[i]->type, d - 1)); p.feat["coroutine"]++; }
        else { c = newCoro(d); if (c->k != E_CORO) return nullptr; }
        Expr *e = p.E(E_RESUME); e->a.push_back(c); if (P(40)) e->a.push_back(E('i', d - 1)); p.feat["anon_resume"]++; return e;
    }
    void chainStep(std::vector<Stmt *> &b, Var *next) {
        Stmt *s = p.S(S_VAR); s->e = p.E(E_OBJECT); Var *o = declare("h" + fmt("%d", ++uid), 'o'); o->readonly = true; s->var = o; b.push_back(s);
        b.push_back(p.X(p.Asg(index(p.R(o), key('o')), P(50) ? p.E(E_OBJECT) : E('o', 1)))); b.push_back(p.X(p.Asg(field(p.R(o), "d"), E(P(50) ? 's' : 'i', 2))));
        b.push_back(p.X(call(native("out"), {p.Str("ch"), anonResume(next, 2)}))); cost += 3 * mult;
        if (P(60)) stmt(b);
        b.push_back(p.X(call(native("dump"), {p.R(o)})));
    }
    Var *chainNext = nullptr;
    // functions each of which resumes a fresh anonymous coroutine of the one before, then goes on using its own locals
    void chainSetup() {
        int n = 2 + r.below(4); Var *prev = nullptr;
        for (int i = 0; i < n; i++) {
            str nm = "f" + fmt("%d", ++uid); Stmt *s = p.S(S_FUNC); Var *v = declare(nm, 'X'); v->readonly = true; s->var = v;
            std::vector<char> ty; if (P(70)) ty.push_back("ios"[r.below(g.strings && g.objects ? 3 : 1)]); chainNext = prev;
            s->fn = makeFunc(ty, 'i', true, false, v, 1 + r.below(3)); s->fn->name = nm; chainNext = nullptr; v->type = 'F'; v->sig = s->fn; p.body.push_back(s); prev = v;
        }
        if (P(50)) p.body.push_back(p.X(call(native("out"), {p.Str("CH"), anonResume(prev, 2)}))); else { Stmt *d = p.S(S_VAR); d->e = p.E(E_CORO); d->e->a.push_back(p.R(prev)); for (auto *q : prev->sig->params) d->e->a.push_back(E(q->type, 1)); d->var = declare("c" + fmt("%d", ++uid), 'c'); p.body.push_back(d); p.feat["coroutine"]++; cost += prev->sig->cost; for (int i = 0, k = 1 + r.below(4); i < k; i++) { Expr *e = p.E(E_RESUME); e->a.push_back(p.R(d->var)); p.body.push_back(p.X(call(native("out"), {p.Str("CR"), e}))); stmt(p.body); } }
        p.feat["chain"]++;
    }
    Expr *resumeE(int d) {
        Var *c = pickVar('c'); if ((!c || P(12)) && d > 0 && cost < 150) { if (Expr *a = anonResume(nullptr, d)) return a; }
        if (!c) return nullptr;
        Expr *e = p.E(E_RESUME); e->a.push_back(p.R(c)); if (P(60)) e->a.push_back(E(P(70) ? 'i' : 'n', d - 1)); p.feat["resume"]++; return e;
    }
    // operands joined by any operators, grouped the way the precedence table says, so that few parentheses appear in the text
    Expr *chainE(int d) {
        static const int prec[] = {6, 6, 5, 5, 5, 8, 8, 8, 8, 9, 9, 9, 13, 14}; std::vector<Expr *> v; std::vector<int> o; int n = 2 + r.below(5); bool logic = P(50); p.feat["operator_chain"]++;
        auto opnd = [&](int op) -> Expr * { if (op == O_DIV || op == O_MOD) return p.I(1 + r.below(5)); int k = r.below(10); if (k < 4) return p.I(r.below(logic ? 2 : 6)); if (k < 5) return un(P(50) ? E_NOT : E_NEG, leaf('i')); if (k < 6) return E('i', d - 2); return leaf('i'); };
        auto reduce = [&] { int op = o.back(); o.pop_back(); Expr *b = v.back(); v.pop_back(); Expr *a = v.back(); v.pop_back(); v.push_back(p.B(op, a, b)); };
        v.push_back(opnd(-1)); for (int i = 0; i < n; i++) { int op = logic && P(65) ? (P(50) ? O_AND : O_OR) : (int)r.below(14); if (v.size() && (op == O_DIV || op == O_MOD) && P(40)) op = O_ADD; while (o.size() && prec[o.back()] <= prec[op]) reduce(); o.push_back(op); v.push_back(opnd(op)); }
        while (o.size()) reduce(); return v[0];
    }
    // integers at the ends of their range
    Expr *extreme() { static const int b[] = {2147483647, 2147483646, 2000000000, 1073741824, 1, 0}; Var *x = P(40) ? pickVar('i') : nullptr; if (x) return p.R(x); Expr *e = p.I(b[r.below(6)]); if (P(50)) e = un(E_NEG, e); if (P(25)) e = p.B(O_SUB, e, p.I(1)); return e; }
    Expr *eInt(int d) {
        if (P(g.exprHeavy ? 10 : 3)) return chainE(d);
        switch (r.below(22)) {
        case 0: case 1: case 2: case 3: { static const int o[] = {O_ADD, O_SUB, O_MUL}; return p.B(o[r.below(3)], E('i', d - 1), P(75) ? E('i', d - 1) : conv(d - 1)); }
        case 4: case 5: { Expr *dv = P(85) ? p.I(1 + r.below(P(70) ? 9 : 100000)) : p.B(O_ADD, p.I(1), un(E_NOT, E('i', d - 1))); return p.B(P(50) ? O_DIV : O_MOD, E('i', d - 1), dv); }
        case 6: case 7: return cmpE(d - 1);
        case 8: return p.B(P(50) ? O_AND : O_OR, P(60) ? cmpE(d - 1) : E('i', d - 1), P(60) ? cmpE(d - 1) : conv(d - 1));
        case 9: return un(E_NOT, P(70) ? E('i', d - 1) : conv(d - 1));
        case 10: return un(E_NEG, E('i', d - 1));
        case 11: if (g.objects) { Expr *e = p.E(E_LEN); e->a.push_back(E('o', d - 1)); return e; } return ilit();
        case 12: case 13: { Var *f = pickFn(false, 'i'); if (f) return callFn(f, d); return leaf('i'); }
        case 14: { Expr *a = g.objects ? access('i') : nullptr; if (a) return p.B(O_ADD, p.I(0), a); return leaf('i'); }
        case 15: { Var *v = pickVar('i', true); if (!v) return leaf('i'); p.feat["incdec"]++; return un(P(50) ? E_PRE : E_POST, p.R(v), P(50) ? 1 : -1); }
        case 16: { Var *v = pickVar('i', true); if (!v) return leaf('i'); p.feat["asgexpr"]++; return p.Asg(p.R(v), E('i', d - 1)); }
        case 17: if (g.natives) { if (P(50)) return call(native("id"), {E('i', d - 1)}); if (g.typedNatives || P(40)) { if (P(40)) return call(native("nt_i"), {E('i', d - 1)}); if (P(50)) return call(native("nt_s"), {E('s', d - 1)}); return call(native("nt_0"), {}); } } return leaf('i');
        case 18: if (g.coroutines) { Var *c = pickVar('c'); if (c) { Expr *e = p.E(E_ISFIN); e->a.push_back(p.R(c)); return e; } } return leaf('i');
        case 19: if (g.boxes) { Var *b = pickVar('b'); if (b) return call(native("boxget"), {p.R(b)}); } return leaf('i');
        case 20: return p.B(O_ADD, p.I(0), conv(d - 1));
        default: return leaf('i');
        }
    }
    Expr *eFlt(int d) {
        if (!g.floats) return flit();
        if (P(8)) { int k = r.below(4); static const int o[] = {O_ADD, O_SUB, O_MUL, O_DIV}; p.feat["neutral_operand"]++; return p.B(o[k], E('f', d - 1), p.I(k > 1)); }
        switch (r.below(9)) {
        case 0: case 1: case 2: { static const int o[] = {O_ADD, O_SUB, O_MUL}; return p.B(o[r.below(3)], E('f', d - 1), P(60) ? E('f', d - 1) : conv(d - 1)); }
        case 3: return p.B(O_DIV, E('f', d - 1), P(80) ? p.Flt(floatText(0.25f * (1 + r.below(20)))) : E('f', d - 1));
        case 4: return un(E_NEG, E('f', d - 1));
        case 5: { Var *f = pickFn(false, 'f'); if (f) return callFn(f, d); return leaf('f'); }
        case 6: { Expr *a = g.objects ? access('f') : nullptr; if (a) return p.B(O_ADD, p.Flt("0.0"), a); return leaf('f'); }
        case 7: if (g.natives && (g.typedNatives || P(30))) return call(native("nt_if"), {E('i', d - 1), E('f', d - 1)}); return leaf('f');
        default: return leaf('f');
        }
    }
    Expr *eStr(int d) {
        if (!g.strings) return slit();
        switch (r.below(8)) {
        case 0: case 1: case 2: return p.B(O_ADD, E('s', d - 1), P(60) ? E('s', d - 1) : conv(d - 1));
        case 3: return p.B(O_ADD, p.Str(""), conv(d - 1));
        case 4: { Var *f = pickFn(false, 's'); if (f) return callFn(f, d); return leaf('s'); }
        case 5: { Expr *a = g.objects ? access('s') : nullptr; if (a) return p.B(O_ADD, slit(), a); return leaf('s'); }
        case 6: if (g.natives) { if (P(50)) return call(native("id"), {E('s', d - 1)}); return call(native("nt_sw"), {E('n', 0), E('s', d - 1)}); } return leaf('s');
        default: return leaf('s');
        }
    }
    Expr *eObj(int d) {
        switch (r.below(7)) {
        case 0: return p.E(E_OBJECT);
        case 1: return p.E(E_NEWOBJ);
        case 2: if (g.natives) return call(native("id"), {E('o', d - 1)}); return leaf('o');
        case 3: { Var *f = pickFn(false, 'o'); if (f) return callFn(f, d); return leaf('o'); }
        case 4: { Var *v = pickVar('o', true); if (v) return p.Asg(p.R(v), E('o', d - 1)); return leaf('o'); }
        case 5: if (g.boxes && P(60)) return call(native("boxref"), {leaf('b'), E('o', d - 1)}); return leaf('o');
        default: return leaf('o');
        }
    }
    Expr *eAny(int d) {
        switch (r.below(12)) {
        case 0: return p.E(E_NIL);
        case 1: case 2: { if (!g.objects) return E('i', d); Expr *a = access("ifson"[r.below(5)]); return a ? a : leaf('n'); }
        case 3: return E('f', d - 1);
        case 4: return E('s', d - 1);
        case 5: return g.objects ? E('o', d - 1) : E('i', d - 1);
        case 6: { Var *v = pickVar('F'); return v ? p.R(v) : leaf('n'); }
        case 7: if (fn && fn->yields && g.coroutines && P(25)) { Var *f = pickFn(true, 'i', true); if (f && f->sig != fn) { bool cb = g.callbacks; const_cast<GenOpts &>(g).callbacks = cb && P(4); Expr *e = callFn(f, d); const_cast<GenOpts &>(g).callbacks = cb; p.feat["yieldcall"]++; return e; } }
            if (fn && fn->yields && g.coroutines) { Expr *e = p.E(E_YIELD); if (P(75)) e->a.push_back(E(P(70) ? 'i' : 'n', d - 1)); p.feat["yield"]++; return e; } return leaf('n');
        case 8: { if (!g.coroutines) return leaf('n'); Expr *e = resumeE(d); return e ? e : leaf('n'); }
        case 9: if (g.boxes) { if (P(50)) return leaf('b'); return call(native("boxderef"), {leaf('b')}); } return leaf('n');
        case 10: { Var *v = pickVar('c'); return v ? p.R(v) : leaf('n'); }
        default: return E('i', d - 1);
        }
    }
    // ---- statements
    Stmt *outS() {
        std::vector<Expr *> a; if (P(50)) a.push_back(p.Str(fmt("t%d", (int)r.below(100))));
        int n = 1 + r.below(3); for (int i = 0; i < n; i++) a.push_back(E("iiffssnno"[r.below(g.objects ? 9 : 8)], g.depth));
        p.feat["out"]++; return p.X(call(native("out"), a));
    }
    Stmt *dumpS() { std::vector<Expr *> a; a.push_back(leaf('o')); if (P(30)) a.push_back(leaf(g.boxes && P(40) ? 'b' : 'o')); return p.X(call(native("dump"), a)); }
    Stmt *varS(char t) {
        Stmt *s = p.S(S_VAR); Expr *e = nullptr;
        if (t == 'i' && P(15)) e = nullptr; else e = t == 'c' ? newCoro(g.depth) : t == 'b' ? call(native("box"), {E('i', 1)}) : (t == 'o' && P(60)) ? p.E(P(60) ? E_OBJECT : E_NEWOBJ) : E(t, g.depth);
        if (t == 'c' && e->k == E_NIL) { t = 'n'; }
        str n = newName("v"); s->e = e; s->var = declare(n, t); return s;
    }
    char varT() {
        int k = r.below(20); if (k < 6) return 'i'; if (k < 9) return g.floats ? 'f' : 'i'; if (k < 12) return g.strings ? 's' : 'i';
        if (k < 15) return g.objects ? 'o' : 'i'; if (k < 17) return 'n'; if (k < 19) return g.coroutines ? 'c' : 'i'; return g.boxes ? 'b' : 'i';
    }
    Stmt *assignS() {
        if (g.objects && P(g.objHeavy ? 65 : 40)) {
            char vt = "iiifsonn"[r.below(8)]; Expr *l = access(vt);
            if (l) { Expr *v = P(12) ? p.E(E_NIL) : E(vt, g.depth - 1); if (vt == 'n' && P(10) && g.coroutines) v = leaf('c'); return p.X(p.Asg(l, v)); }
        }
        char t = varT(); Var *v = pickVar(t, true); if (!v) return outS();
        if (t == 'c') { Expr *e = newCoro(g.depth); if (e->k == E_NIL) return outS(); return p.X(p.Asg(p.R(v), e)); }
        if (t == 'i' && P(30)) return p.X(un(P(50) ? E_PRE : E_POST, p.R(v), P(50) ? 1 : -1));
        return p.X(p.Asg(p.R(v), E(t, g.depth)));
    }
    std::vector<Stmt *> body(int n, bool scope = true) {
        std::vector<Stmt *> b; if (scope) sc->push_back(Scope()); nest++;
        for (int i = 0; i < n; i++) stmt(b);
        nest--; if (scope) sc->pop_back(); return b;
    }
    int bodyN() { return r.below(4); }
    Expr *condE() { return P(70) ? cmpE(g.depth - 1) : E('i', g.depth - 1); }
    void maybeBreak(std::vector<Stmt *> &b) {
        if (!P(30)) return; Stmt *s = p.S(S_IF); s->e = condE(); Stmt *br = p.S(S_BREAK); s->body.push_back(br); p.feat["break"]++;
        if (P(30)) { Stmt *bl = p.S(S_BLOCK); bl->body.push_back(br); s->body.clear(); s->body.push_back(bl); }
        if (P(45)) { // out of several blocks with variables of their own
            s->body.clear(); std::vector<Stmt *> *at = &s->body; sc->push_back(Scope()); int n = 1 + r.below(4); p.feat["deep_break"]++;
            for (int i = 0; i < n; i++) { if (P(70)) at->push_back(varS("isfo"[r.below(g.objects ? 4 : 2)])); if (i + 1 == n) break; bool cond = P(40); Stmt *bl = p.S(cond ? S_IF : S_BLOCK); if (cond) { bl->e = condE(); bl->hasElse = P(30); } at->push_back(bl); sc->push_back(Scope()); if (P(30)) bl->body.push_back(outS()); at = &bl->body; if (cond && bl->hasElse) bl->els.push_back(outS()); }
            at->push_back(br); for (int i = 0; i < n; i++) sc->pop_back();
        }
        b.push_back(s);
    }
    void stmt(std::vector<Stmt *> &b) {
        stmtNo++;
        if (!faultDone && faultAt >= 0 && stmtNo >= faultAt) { faultDone = true; b.push_back(faultS()); return; }
        if (g.faultEvery && P(nest ? 1 + g.faultEvery / 8 : g.faultEvery)) { b.push_back(faultS()); return; }
        if (fn && cost > 250) { b.push_back(outS()); return; }
        bool canNest = nest < g.nest;
        int k = r.below(100);
        if (k < g.outPct) { if (g.objects && P(20)) b.push_back(dumpS()); else b.push_back(outS()); cost += mult; return; }
        if (g.tick && P(15)) { b.push_back(p.X(call(native("tick"), {}))); return; }
        if (fn && fn->yields && g.coroutines && P(g.coroHeavy ? 40 : 15)) { yieldS(b); cost += mult; return; }
        if (poolV && poolN && P(fn && fn->yields ? 20 : 12)) { poolStep(b); return; }
        if (g.handles && g.objects && P(12)) { keepS(b); return; }
        if (g.coroHeavy && P(12)) { coroUse(b); return; }
        cost += mult;
        k = r.below(100);
        if (k < 22) { b.push_back(varS(varT())); return; }
        if (k < 48) { b.push_back(assignS()); return; }
        if (k < 58 && canNest) { // if
            Stmt *s = p.S(S_IF); s->e = condE(); s->body = body(1 + bodyN()); p.feat["if"]++;
            if (P(50)) { s->hasElse = true; if (P(25)) { s->elseIf = true; Stmt *t = p.S(S_IF); t->e = condE(); sc->push_back(Scope()); t->body = body(1 + r.below(2)); if (P(50)) { t->hasElse = true; t->els = body(1 + r.below(2)); } sc->pop_back(); s->els.push_back(t); p.feat["elseif"]++; } else s->els = body(bodyN()); }
            b.push_back(s); return;
        }
        if (k < 66 && canNest && mult < 60) { // for
            Stmt *s = p.S(S_FOR); int n = 1 + r.below(4); sc->push_back(Scope()); p.feat["for"]++;
            Var *v;
            if (P(80)) { s->init = p.S(S_VAR); s->init->e = p.I(0); str nm = "k" + fmt("%d", ++uid); v = declare(nm, 'i'); s->init->var = v; }
            else { // loop over an existing variable declared just before
                sc->pop_back(); Stmt *d = p.S(S_VAR); d->e = p.I(9); v = declare("k" + fmt("%d", ++uid), 'i'); d->var = v; b.push_back(d); sc->push_back(Scope());
                s->init = p.S(S_EXPR); s->init->e = p.Asg(p.R(v), p.I(0));
            }
            v->readonly = true;
            s->e = p.B(P(50) ? O_LT : O_NE, p.R(v), p.I(n));
            s->e2 = P(50) ? p.Asg(p.R(v), p.B(O_ADD, p.R(v), p.I(1))) : un(P(50) ? E_PRE : E_POST, p.R(v), 1);
            double m = mult; mult *= n; loop++; sc->push_back(Scope()); nest++; for (int i = 0, e = 1 + bodyN(); i < e; i++) { stmt(s->body); if (i == e / 2) maybeBreak(s->body); } nest--; sc->pop_back(); loop--; mult = m;
            sc->pop_back(); v->readonly = true; b.push_back(s); return;
        }
        if (k < 74 && canNest && mult < 60) { // while / do
            int n = 1 + r.below(4); Stmt *d = p.S(S_VAR); d->e = p.I(n); Var *v = declare("w" + fmt("%d", ++uid), 'i'); v->readonly = true; d->var = v; b.push_back(d);
            bool isDo = P(40); Stmt *s = p.S(isDo ? S_DO : S_WHILE); p.feat[isDo ? "do" : "while"]++;
            double m = mult; mult *= n; loop++; sc->push_back(Scope()); nest++;
            bool first = P(50); Stmt *dec = p.X(P(50) ? p.Asg(p.R(v), p.B(O_SUB, p.R(v), p.I(1))) : un(P(50) ? E_PRE : E_POST, p.R(v), -1));
            if (first) s->body.push_back(dec);
            for (int i = 0, e = 1 + bodyN(); i < e; i++) { stmt(s->body); if (i == e / 2) maybeBreak(s->body); }
            if (!first) s->body.push_back(dec);
            nest--; sc->pop_back(); loop--; mult = m;
            s->e = p.B(O_GT, p.R(v), p.I(0)); if (P(25)) s->e = p.B(O_AND, s->e, condE()); else if (!isDo && P(30)) s->e = p.R(v);
            b.push_back(s); return;
        }
        if (k < 79 && canNest) { Stmt *s = p.S(S_BLOCK); s->body = body(bodyN()); p.feat["block"]++; b.push_back(s); return; }
        if (k < 84) { Var *f = pickFn(false, 'i', true); if (f) { b.push_back(p.X(callFn(f, g.depth))); return; } b.push_back(outS()); return; }
        if (k < 88 && fn && nest > 0) { Stmt *s = p.S(S_RETURN); s->e = E(fn->ret, g.depth - 1); p.feat["return"]++; if (P(60)) { Stmt *i = p.S(S_IF); i->e = condE(); i->body.push_back(s); b.push_back(i); } else b.push_back(s); return; }
        if (k < 91 && fnNest < 2 && nest < g.nest) { // nested function
            funcDecl(b, false, false); return;
        }
        if (k < 93 && g.methods && g.objects && fnNest < 2) { methodObj(b); return; }
        if (k < 94 && g.callable && g.objects && fnNest < 2) { callableObj(b); return; }
        if (fn && fn->yields && g.coroutines) { yieldS(b); return; }
        if (g.coroutines && P(80)) { coroUse(b); return; }
        b.push_back(outS());
    }
    // ---- constructs of unusual size
    int bulkN(int lo, int hi) { double f = r.below(10001) / 10000.0; return (int)(lo * pow((double)hi / lo, f)); }
    Stmt *cheap(int kind, Var *v) {
        switch (kind) {
        case 0: return p.X(un(P(50) ? E_PRE : E_POST, p.R(v), P(60) ? 1 : -1));
        case 1: return p.X(p.Asg(p.R(v), p.B(O_ADD, p.R(v), p.I(r.below(4)))));
        case 2: { Stmt *s = p.S(S_VAR); s->e = p.I(r.below(100)); s->var = declare("v" + fmt("%d", ++uid), 'i'); return s; }
        case 3: { Stmt *s = p.S(S_IF); s->e = p.B(O_GT, p.R(v), p.I(r.below(50))); s->body.push_back(p.X(un(E_POST, p.R(v), -1))); return s; }
        case 4: return p.X(call(native("out"), {p.R(v)}));
        case 5: { Stmt *s = p.S(S_WHILE); s->e = p.I(1); s->body.push_back(p.X(un(E_PRE, p.R(v), 1))); s->body.push_back(p.S(S_BREAK)); return s; }
        case 6: { Stmt *s = p.S(S_BLOCK); Stmt *d = p.S(S_VAR); d->e = p.I(r.below(9)); sc->push_back(Scope()); d->var = declare("v" + fmt("%d", ++uid), 'i'); s->body.push_back(d); s->body.push_back(p.X(p.Asg(p.R(v), p.R(d->var)))); sc->pop_back(); return s; }
        case 7: { Stmt *s = p.S(S_DO); s->e = p.I(0); s->body.push_back(p.X(un(E_PRE, p.R(v), 1))); return s; }
        default: return p.X(p.Asg(p.R(v), p.I(r.below(1000))));
        }
    }
    void bulkS(std::vector<Stmt *> &b) {
        int what = r.below(9); static const char *const nm[] = {"body", "body", "locals", "parameters", "functions", "statements", "fields", "nesting", "operators"}; p.feat[str("bulk_") + nm[what]]++;
        auto mkVar = [&](const char *pre, char t, Expr *e) { Stmt *s = p.S(S_VAR); s->e = e; s->var = declare(pre + fmt("%d", ++uid), t); return s; };
        Stmt *acc = mkVar("bk", 'i', p.I(r.below(5))); acc->var->readonly = false; b.push_back(acc); Var *v = acc->var;
        auto show = [&](std::vector<Stmt *> &x, Var *w) { x.push_back(p.X(call(native("out"), {p.Str("bulk"), p.R(w)}))); };
        auto cheaps = [&](std::vector<Stmt *> &x, int n, Var *w) { int k[3] = {(int)r.below(9), (int)r.below(9), (int)r.below(9)}; for (int i = 0; i < n; i++) { int kk = k[r.below(3)]; if (kk == 4 && n > 300) kk = 8; if (kk == 2 && n > 2000) kk = 1; x.push_back(cheap(kk, w)); } };
        switch (what) {
        case 0: case 1: { // a body so long that jumps over it are long
            int n = bulkN(30, P(35) ? 9000 : 800), k = r.below(5); Stmt *s = nullptr, *cnt = nullptr; if (k == 1) { cnt = mkVar("bk", 'i', p.I(0)); cnt->var->readonly = true; b.push_back(cnt); } sc->push_back(Scope()); nest++;
            if (k == 0) { s = p.S(S_IF); s->e = p.I(r.below(2)); cheaps(s->body, n, v); if (P(60)) { s->hasElse = true; sc->pop_back(); sc->push_back(Scope()); cheaps(s->els, P(50) ? 3 : n / 2 + 1, v); } }
            else if (k == 1) { s = p.S(S_WHILE); s->e = p.B(O_LT, un(E_POST, p.R(cnt->var), 1), p.I(2)); cheaps(s->body, n, v); if (P(50)) { Stmt *br = p.S(S_BREAK), *i = p.S(S_IF); i->e = p.B(O_GT, p.R(v), p.I(r.below(100))); i->body.push_back(br); s->body.insert(s->body.begin() + r.below(s->body.size()), i); } }
            else if (k == 2) { s = p.S(S_DO); s->e = p.I(0); cheaps(s->body, n, v); }
            else if (k == 3) { s = p.S(S_FOR); s->init = p.S(S_VAR); s->init->e = p.I(0); s->init->var = declare("k" + fmt("%d", ++uid), 'i'); s->init->var->readonly = true; s->e = p.B(O_LT, p.R(s->init->var), p.I(2)); s->e2 = un(E_PRE, p.R(s->init->var), 1); sc->push_back(Scope()); cheaps(s->body, n, v); sc->pop_back(); }
            else { s = p.S(S_BLOCK); cheaps(s->body, n, v); }
            nest--; sc->pop_back(); b.push_back(s); show(b, v); cost += 50; break; }
        case 2: { // many locals in one scope
            int n = bulkN(40, 700); Stmt *s = p.S(P(50) ? S_BLOCK : S_IF); if (s->k == S_IF) s->e = p.I(1); sc->push_back(Scope()); nest++; std::vector<Var *> vs;
            for (int i = 0; i < n; i++) { Stmt *d = mkVar("v", 'i', p.I(i)); vs.push_back(d->var); s->body.push_back(d); if (P(2)) s->body.push_back(p.X(p.Asg(p.R(v), p.B(O_ADD, p.R(v), p.R(r.pick(vs)))))); }
            for (int i = 0; i < 3; i++) { show(s->body, r.pick(vs)); s->body.push_back(p.X(p.Asg(p.R(v), p.R(r.pick(vs))))); }
            nest--; sc->pop_back(); b.push_back(s); Stmt *after = mkVar("v", 'i', p.I(77)); b.push_back(after); show(b, v); show(b, after->var); break; }
        case 3: { // many parameters, as a function, method, callable object or coroutine
            int n = bulkN(5, 200), how = r.below(g.objects ? (g.coroutines ? 5 : 4) : 1); Stmt *s = p.S(S_VAR); Expr *e = p.E(E_FUNC); bool self = how == 1 || how == 2; std::vector<char> ty(n, 'i'); if (how == 1) ty[0] = 'o';
            e->fn = makeFunc(ty, 'i', false, false, nullptr, 1); Func *f = e->fn; std::vector<Stmt *> nb; std::vector<Expr *> oa{p.Str("par")}; for (int i = 0; i < 4; i++) { int q = r.below(n); if (ty[q] == 'i') oa.push_back(p.R(f->params[q])); } if (ty[n - 1] == 'i') oa.push_back(p.R(f->params[n - 1]));
            nb.push_back(p.X(call(native("out"), oa))); Stmt *rt = p.S(S_RETURN); Var *last = f->params[n - 1]; rt->e = last->type == 'i' ? p.R(last) : p.I(1); f->body.insert(f->body.begin(), nb.begin(), nb.end()); f->body.push_back(rt);
            s->e = e; s->var = declare("bf" + fmt("%d", ++uid), 'M'); b.push_back(s); std::vector<Expr *> a; for (int i = self ? 1 : 0; i < n; i++) a.push_back(P(90) ? p.I(i) : p.R(v)); Expr *c = nullptr; Var *o = nullptr;
            if (how) { Stmt *os = mkVar("bo", 'M', p.E(E_OBJECT)); o = os->var; b.push_back(os); }
            if (how == 1) { b.push_back(p.X(p.Asg(field(p.R(o), "meth"), p.R(s->var)))); c = p.E(E_METHOD); c->s = "meth"; c->a.push_back(p.R(o)); for (auto *x : a) c->a.push_back(x); }
            else if (how == 2 || how == 3) { b.push_back(p.X(p.Asg(field(p.R(o), "_exec"), p.R(s->var)))); if (how == 2) b.push_back(p.X(p.Asg(field(p.R(o), "_data"), p.I(5)))); c = call(p.R(o), a); }
            else if (how == 4) { Expr *co = p.E(E_CORO); co->a = a; co->a.insert(co->a.begin(), p.R(s->var)); c = p.E(E_RESUME); c->a.push_back(co); }
            else if (g.callbacks && g.natives && P(30)) { a.insert(a.begin(), p.R(s->var)); c = call(native("cb"), a); }
            else c = call(p.R(s->var), a);
            b.push_back(p.X(call(native("out"), {p.Str("bulk"), c}))); show(b, v); break; }
        case 4: { // many functions
            int n = bulkN(20, 600); std::vector<Var *> fs; for (int i = 0; i < n; i++) { str q = "f" + fmt("%d", ++uid); Func *f = p.F(); f->ret = 'i'; Stmt *rt = p.S(S_RETURN); rt->e = p.I(i); f->body.push_back(rt); if (P(50)) { Stmt *s = p.S(S_FUNC); Var *w = declare(q, 'M'); w->readonly = true; s->var = w; s->fn = f; f->name = q; b.push_back(s); fs.push_back(w); } else { Stmt *s = p.S(S_VAR); Expr *e = p.E(E_FUNC); e->fn = f; s->e = e; Var *w = declare(q, 'M'); w->readonly = true; s->var = w; b.push_back(s); fs.push_back(w); } }
            for (int i = 0; i < 6; i++) b.push_back(p.X(call(native("out"), {p.Str("bulk"), call(p.R(i ? r.pick(fs) : fs.back()), {})}))); break; }
        case 5: { int n = bulkN(100, 900); sc->push_back(Scope()); Stmt *s = p.S(S_BLOCK); int k = r.below(9); for (int i = 0; i < n; i++) s->body.push_back(cheap(k == 4 ? 5 : k, v)); sc->pop_back(); b.push_back(s); show(b, v); break; }
        case 6: { // many fields
            if (!g.objects) { show(b, v); break; }
            int n = bulkN(17, 1200); Stmt *os = mkVar("bo", 'M', p.E(E_OBJECT)); Var *o = os->var; b.push_back(os); bool lit = n < 400 && P(50); int kt = r.below(3);
            auto K = [&](Expr *i) -> Expr * { return kt == 0 ? i : kt == 1 ? p.B(O_ADD, p.Str("k"), i) : p.B(O_MUL, p.Flt("0.5"), i); };
            if (lit) for (int i = 0; i < n; i++) b.push_back(p.X(p.Asg(index(p.R(o), K(p.I(i))), p.I(i * 3))));
            else { Stmt *s = p.S(S_FOR); sc->push_back(Scope()); s->init = p.S(S_VAR); s->init->e = p.I(0); s->init->var = declare("k" + fmt("%d", ++uid), 'i'); s->e = p.B(O_LT, p.R(s->init->var), p.I(n)); s->e2 = un(E_PRE, p.R(s->init->var), 1); s->body.push_back(p.X(p.Asg(index(p.R(o), K(p.R(s->init->var))), p.B(O_MUL, p.R(s->init->var), p.I(3))))); sc->pop_back(); b.push_back(s); }
            for (int i = 0; i < 5; i++) { b.push_back(p.X(call(native("out"), {p.Str("bulk"), index(p.R(o), K(p.I(r.below(n + 3))))}))); if (P(50)) b.push_back(p.X(p.Asg(index(p.R(o), K(p.I(r.below(n)))), p.E(E_NIL)))); }
            { Expr *l = p.E(E_LEN); l->a.push_back(p.R(o)); b.push_back(p.X(call(native("out"), {p.Str("bulk"), l}))); } break; }
        case 7: { // nesting below the compiler's limit
            int n = bulkN(5, 40); std::vector<Stmt *> *at = &b; int d = 0; for (; d < n; d++) { Stmt *s = p.S(P(40) ? S_BLOCK : P(50) ? S_IF : S_DO); if (s->k == S_IF) s->e = p.B(O_LT, p.R(v), p.I(1000000)); if (s->k == S_DO) s->e = p.I(0); at->push_back(s); sc->push_back(Scope()); if (P(40)) s->body.push_back(cheap(2, v)); if (P(30)) s->body.push_back(cheap(1, v)); at = &s->body; if (s->k == S_IF && P(20)) s->hasElse = true; }
            show(*at, v); while (d--) sc->pop_back(); show(b, v); break; }
        default: { int n = bulkN(10, 80); Expr *e = p.R(v); bool left = P(50); int op = P(50) ? O_ADD : O_SUB; for (int i = 0; i < n; i++) e = left ? p.B(op, e, p.I(r.below(9))) : p.B(op, p.I(r.below(9)), e); b.push_back(p.X(call(native("out"), {p.Str("bulk"), e}))); }
        }
    }
    void keepS(std::vector<Stmt *> &b) {
        bool bx = g.boxes && P(35); Stmt *s = p.S(S_VAR); s->e = bx ? leaf('b') : P(50) ? p.E(E_OBJECT) : E('o', 2); Var *h = declare("h" + fmt("%d", ++uid), bx ? 'b' : 'o'); h->readonly = true; s->var = h; b.push_back(s); p.feat["keep"]++;
        int n = 1 + r.below(2); for (int i = 0; i < n; i++) b.push_back(p.X(P(50) ? call(native("keep"), {p.R(h)}) : call(native("out"), {call(native("keep"), {p.R(h)})})));
        if (P(70)) b.push_back(p.X(p.Asg(index(p.R(h), key('o')), P(50) ? p.E(E_OBJECT) : E('o', 1))));
        if (P(30)) b.push_back(p.X(call(native("out"), {call(native("drop"), {p.R(h)})})));
    }
    void yieldS(std::vector<Stmt *> &b) { Expr *y = p.E(E_YIELD); if (P(80)) y->a.push_back(E(P(70) ? 'i' : 'n', g.depth - 1)); p.feat["yield"]++; b.push_back(p.X(P(50) ? y : call(native("out"), {p.Str("y"), y}))); }
    void coroUse(std::vector<Stmt *> &b) {
        Var *c = pickVar('c');
        if (!c || P(25)) { Stmt *s = varS('c'); b.push_back(s); c = s->var; if (c->type != 'c') return; }
        int k = r.below(4);
        if (k == 0 && mult < 20) { // drain
            Stmt *s = p.S(S_WHILE); Expr *f = p.E(E_ISFIN); f->a.push_back(p.R(c)); s->e = un(E_NOT, f); Expr *e = p.E(E_RESUME); e->a.push_back(p.R(c)); if (P(50)) e->a.push_back(E('i', 1));
            s->body.push_back(p.X(call(native("out"), {p.Str("r"), e}))); p.feat["drain"]++; b.push_back(s); cost += 10 * mult; return;
        }
        int n = 1 + r.below(3);
        for (int i = 0; i < n; i++) { Expr *e = resumeE(g.depth - 1); if (!e) return; b.push_back(p.X(P(75) ? call(native("out"), {p.Str("R"), e}) : e)); cost += 3 * mult; }
    }
    Var *poolV = nullptr; int poolN = 0;
    Expr *poolAt(Expr *i) { return index(p.R(poolV), i); }
    // resume of a pool member with a higher index than the running one
    void poolStep(std::vector<Stmt *> &b) {
        Expr *e = p.E(E_RESUME); p.feat["pool_resume"]++; cost += 4 * mult;
        if (fn && fn->params.size() && fn->params[0]->name == "self") {
            Var *self = fn->params[0]; int d = 1 + r.below(2);
            e->a.push_back(poolAt(p.B(O_ADD, p.R(self), p.I(d)))); if (P(60)) e->a.push_back(E('i', 1));
            Stmt *s = p.S(S_IF); s->e = p.B(O_LT, p.B(O_ADD, p.R(self), p.I(d)), p.I(poolN)); s->body.push_back(p.X(call(native("out"), {p.Str("P"), p.R(self), e}))); b.push_back(s);
            if (P(4)) { Expr *x = p.E(E_RESUME); x->a.push_back(poolAt(P(50) ? p.R(self) : p.I(0))); b.push_back(p.X(x)); }
        } else {
            e->a.push_back(poolAt(p.I(r.below(poolN)))); if (P(60)) e->a.push_back(E('i', 1));
            b.push_back(p.X(call(native("out"), {p.Str("p"), e})));
        }
    }
    void poolSetup() {
        { Stmt *s = p.S(S_VAR); s->e = p.E(E_OBJECT); s->var = declare("pool", 'M'); s->var->readonly = true; poolV = s->var; p.body.push_back(s); }
        poolN = 2 + r.below(5); std::vector<Var *> fs; int nf = 1 + r.below(3);
        for (int i = 0; i < nf; i++) {
            str nm = "f" + fmt("%d", ++uid); Stmt *s = p.S(S_FUNC); Var *v = declare(nm, 'X'); v->readonly = true; s->var = v;
            inPool = true; std::vector<char> ty; ty.push_back('i'); if (P(50)) ty.push_back("ifsno"[r.below(5)]); s->fn = makeFunc(ty, 'n', true, false, v, 3 + r.below(5)); s->fn->name = nm; v->type = 'P'; v->sig = s->fn; p.body.push_back(s); fs.push_back(v);
        }
        for (int i = 0; i < poolN; i++) { Var *v = r.pick(fs); Expr *e = p.E(E_CORO); e->a = {p.R(v), p.I(i)}; if (v->sig->params.size() > 1) e->a.push_back(E(v->sig->params[1]->type, 1)); p.body.push_back(p.X(p.Asg(poolAt(p.I(i)), e))); p.feat["coroutine"]++; }
    }
    bool inPool = false;
    struct Saved { std::vector<Scope> fs; std::vector<Scope> *sc; Func *fn; int *slots; int loop, nest; double mult, cost; };
    Func *makeFunc(const std::vector<char> &types, char ret, bool yields, bool recursive, Var *self, int n) {
        Func *f = p.F(); f->ret = ret; f->yields = yields; f->recursive = recursive;
        std::vector<Scope> *osc = sc; Func *ofn = fn; int *os = slots; int ol = loop, on = nest; double om = mult, oc = cost;
        std::vector<Scope> my; my.push_back(Scope());
        sc = &my; fn = f; slots = &f->nslots; loop = 0; nest = 1; mult = 1; cost = 0; fnNest++;
        bool pf = inPool; inPool = false; Var *cn = chainNext; chainNext = nullptr;
        for (size_t i = 0; i < types.size(); i++) { Var *v = declare(pf && i == 0 ? str("self") : "a" + fmt("%d", ++uid), types[i]); if (pf && i == 0) v->readonly = true; else v->readonly = recursive && i == 0; f->params.push_back(v); }
        if (recursive) {
            Stmt *s = p.S(S_IF); s->e = p.B(O_LE, p.R(f->params[0]), p.I(0)); Stmt *rt = p.S(S_RETURN); rt->e = leaf(ret); s->body.push_back(rt); f->body.push_back(s);
        }
        for (int i = 0; i < n; i++) { if (cn && i == n / 2) chainStep(f->body, cn); stmt(f->body); }
        if (recursive && self) {
            std::vector<Expr *> a; a.push_back(p.B(O_SUB, p.R(f->params[0]), p.I(1))); for (size_t i = 1; i < types.size(); i++) a.push_back(leaf(types[i]));
            Expr *c = call(p.R(self), a); Stmt *s;
            if (P(50) && ret == 'i') { s = p.S(S_RETURN); s->e = p.B(O_ADD, leaf('i'), c); f->body.push_back(s); } else if (P(50)) { s = p.X(c); f->body.push_back(s); } else { Stmt *d = p.S(S_VAR); d->e = c; d->var = declare(newName("v"), 'n'); f->body.push_back(d); }
            p.feat["recursion"]++;
        }
        if (ret != 'i' || P(70)) { Stmt *s = p.S(S_RETURN); s->e = E(ret, g.depth - 1); f->body.push_back(s); }
        f->cost = 3 + (int)(cost * (recursive ? 5 : 1)); if (f->cost > 100000) f->cost = 100000;
        sc = osc; fn = ofn; slots = os; loop = ol; nest = on; mult = om; cost = oc; fnNest--;
        return f;
    }
    void funcDecl(std::vector<Stmt *> &b, bool yields, bool recursive) {
        std::vector<char> ty; int n = r.below(4); if (P(3)) n = 12; if (recursive && n < 1) n = 1;
        for (int i = 0; i < n; i++) ty.push_back(recursive && i == 0 ? 'i' : "iiiffsson"[r.below(9)]);
        for (auto &c : ty) { if (c == 'f' && !g.floats) c = 'i'; if (c == 's' && !g.strings) c = 'i'; if (c == 'o' && !g.objects) c = 'i'; }
        char ret = yields ? 'n' : "iiiifso"[r.below(g.objects ? 7 : 6)]; if (ret == 'f' && !g.floats) ret = 'i'; if (ret == 's' && !g.strings) ret = 'i';
        p.feat[yields ? "coro_func" : recursive ? "rec_func" : "func"]++;
        str nm = "f" + fmt("%d", ++uid);
        if (P(60) || recursive) { // named; the name is visible inside only when global
            Stmt *s = p.S(S_FUNC); Var *v = declare(nm, 'X'); v->readonly = true; s->var = v;
            s->fn = makeFunc(ty, ret, yields, recursive && v->global, v, 1 + r.below(5)); s->fn->name = nm; v->type = 'F'; v->sig = s->fn; b.push_back(s);
        } else {
            Stmt *s = p.S(S_VAR); Expr *e = p.E(E_FUNC); e->fn = makeFunc(ty, ret, yields, false, nullptr, 1 + r.below(5)); s->e = e; Var *v = declare(nm, 'F'); v->sig = e->fn; v->readonly = true; s->var = v; b.push_back(s); p.feat["anonfunc"]++;
        }
    }
    void methodObj(std::vector<Stmt *> &b) {
        Stmt *s = p.S(S_VAR); s->e = p.E(E_OBJECT); Var *o = declare("m" + fmt("%d", ++uid), 'M'); o->readonly = true; s->var = o; b.push_back(s); p.feat["method"]++;
        std::vector<char> ty; ty.push_back('o'); int n = r.below(3); for (int i = 0; i < n; i++) ty.push_back("ifs"[r.below(g.strings && g.floats ? 3 : 1)]);
        Expr *f = p.E(E_FUNC); f->fn = makeFunc(ty, 'i', false, false, nullptr, 1 + r.below(3));
        b.push_back(p.X(p.Asg(field(p.R(o), "meth"), f)));
        int calls = 1 + r.below(2);
        for (int c = 0; c < calls; c++) {
            if (P(70)) { Expr *m = p.E(E_METHOD); m->s = "meth"; m->a.push_back(p.R(o)); for (size_t i = 1; i < ty.size(); i++) m->a.push_back(E(ty[i], g.depth - 1)); cost += f->fn->cost * mult; b.push_back(p.X(call(native("out"), {p.Str("m"), m}))); }
            else { std::vector<Expr *> a; a.push_back(p.R(o)); for (size_t i = 1; i < ty.size(); i++) a.push_back(E(ty[i], g.depth - 1)); b.push_back(p.X(call(native("out"), {p.Str("mc"), call(field(p.R(o), "meth"), a)}))); cost += f->fn->cost * mult; }
        }
        o->type = 'o';
    }
    void callableObj(std::vector<Stmt *> &b) {
        Stmt *s = p.S(S_VAR); s->e = p.E(E_OBJECT); Var *o = declare("q" + fmt("%d", ++uid), 'M'); o->readonly = true; s->var = o; b.push_back(s); p.feat["callable"]++;
        bool data = P(60); std::vector<char> ty; if (data) ty.push_back('i'); int n = r.below(3); for (int i = 0; i < n; i++) ty.push_back("ifs"[r.below(g.strings && g.floats ? 3 : 1)]);
        Expr *f = p.E(E_FUNC); f->fn = makeFunc(ty, 'i', false, false, nullptr, 1 + r.below(3));
        b.push_back(p.X(p.Asg(field(p.R(o), "_exec"), f))); if (data) b.push_back(p.X(p.Asg(field(p.R(o), "_data"), E('i', 1))));
        std::vector<Expr *> a; for (size_t i = data ? 1 : 0; i < ty.size(); i++) a.push_back(E(ty[i], g.depth - 1));
        Expr *callee = p.R(o);
        if (P(25)) { Stmt *s2 = p.S(S_VAR); s2->e = p.E(E_OBJECT); Var *o2 = declare("q" + fmt("%d", ++uid), 'M'); o2->readonly = true; s2->var = o2; b.push_back(s2); b.push_back(p.X(p.Asg(field(p.R(o2), "_exec"), p.R(o)))); callee = p.R(o2); p.feat["callable2"]++; }
        b.push_back(p.X(call(native("out"), {p.Str("q"), call(callee, a)}))); cost += f->fn->cost * mult;
    }
    Stmt *faultS() {
        p.feat["fault"]++;
        Expr *z = p.B(O_SUB, p.R(zero()), p.I(0));
        switch (r.below(26)) {
        case 20: { Expr *e = p.E(E_CORO); e->a = {native("out"), E('i', 1)}; return p.X(e); }
        case 21: { Expr *e = p.E(E_CORO); Var *f = pickFn(false, 'i', true); if (!f) { e->a = {leaf('i')}; return p.X(e); } e->a = {p.R(f)}; for (size_t i = 0; i < f->sig->params.size() + 1; i++) e->a.push_back(leaf('i')); return p.X(e); }
        case 22: { Var *f = pickFn(false, 'i', true); if (!f) return p.X(call(native("cb"), {leaf('i')})); std::vector<Expr *> a = {p.R(f)}; for (size_t i = 0; i < f->sig->params.size() + 1; i++) a.push_back(leaf('i')); return p.X(call(native("out"), {call(native("cb"), a)})); }
        case 23: return p.X(call(native("cb"), {native("cb"), native("fail"), E('i', 1)}));
        case 24: { Expr *e = p.E(E_CORO); e->a = {leaf('o'), E('i', 1)}; return p.X(e); }
        case 25: return p.X(call(native("cb"), {}));
        case 0: return p.X(call(native("out"), {p.B(O_DIV, E('i', 1), z)}));
        case 1: return p.X(call(native("out"), {p.B(O_MOD, E('i', 1), z)}));
        case 2: return p.X(call(native("out"), {p.B(O_ADD, p.E(E_NIL), E('i', 1))}));
        case 3: return p.X(call(leaf('i'), {}));
        case 4: { Var *f = pickFn(false, 'i', true); if (f) { std::vector<Expr *> a; for (size_t i = 0; i < f->sig->params.size() + 1; i++) a.push_back(leaf('i')); return p.X(call(p.R(f), a)); } return p.X(call(p.E(E_NIL), {})); }
        case 5: return p.X(call(native("out"), {field(leaf('i'), "a")}));
        case 6: { Expr *l = leaf('s'); if (l->k == E_STR) l = un(E_PAREN, l); return p.X(p.Asg(field(l, "a"), E('i', 1))); }
        case 7: return p.X(call(native("out"), {un(E_NEG, E('s', 1))}));
        case 8: { Expr *e = p.E(E_LEN); e->a.push_back(E('i', 1)); return p.X(call(native("out"), {e})); }
        case 9: { Expr *e = p.E(E_RESUME); e->a.push_back(E('i', 1)); return p.X(e); }
        case 10: { Expr *e = p.E(E_YIELD); e->a.push_back(E('i', 1)); if (fn && fn->yields) return p.X(call(native("fail"), {})); return p.X(e); }
        case 11: return p.X(call(native("fail"), {p.Str("native failure")}));
        case 12: return p.X(call(native("out"), {p.B(O_SUB, E('s', 1), E('i', 1))}));
        case 13: return p.X(call(native("nt_i"), {E('s', 1)}));
        case 14: return p.X(call(native("nt_if"), {E('i', 1)}));
        case 15: { Expr *m = p.E(E_METHOD); m->s = "nope"; m->a.push_back(leaf('o')); m->a.push_back(E('i', 1)); return p.X(m); }
        case 16: { Stmt *s = p.S(S_IF); s->e = p.B(O_MUL, leaf('o'), p.I(2)); s->body.push_back(outS()); return s; }
        case 17: { Stmt *s = p.S(S_WHILE); s->e = p.B(O_DIV, p.I(1), z); s->body.push_back(p.S(S_BREAK)); return s; }
        case 18: { Expr *e = p.E(E_ISFIN); e->a.push_back(leaf('o')); return p.X(e); }
        default: { Stmt *s = p.S(S_VAR); s->e = p.B(O_ADD, leaf('i'), p.B(O_MOD, leaf('f'), p.I(2))); s->var = declare("v" + fmt("%d", ++uid), 'i'); return s; }
        }
    }
    Var *zeroV = nullptr; Var *zero() { return zeroV; }
    void run() {
        root.push_back(Scope()); slots = &p.rootSlots; sc = &root;
        if (P(g.faultPct)) faultAt = 1 + r.below(g.stmts * 3);
        { Stmt *s = p.S(S_VAR); s->e = p.I(0); s->var = declare("zero", 'Z'); s->var->readonly = true; zeroV = s->var; p.body.push_back(s); }
        for (char t : str("if")) { Stmt *s = p.S(S_VAR); s->e = leaf(t); s->var = declare(str("g") + t, t); p.body.push_back(s); }
        if (g.strings) { Stmt *s = p.S(S_VAR); s->e = slit(); s->var = declare("gs", 's'); p.body.push_back(s); }
        if (g.objects) { Stmt *s = p.S(S_VAR); s->e = p.E(E_OBJECT); s->var = declare("go", 'o'); p.body.push_back(s); }
        if (g.coroHeavy && P(65)) poolSetup();
        if (g.coroutines && g.objects && P(g.coroHeavy ? 50 : 20)) chainSetup();
        int funcs = r.below(g.funcs + 1); if (g.funcHeavy) funcs += 2;
        int bulkAt = P(g.bulkPct) ? (int)r.below(g.stmts) : -1;
        for (int i = 0; i < g.stmts; i++) {
            if (i == bulkAt) bulkS(p.body);
            if (funcs > 0 && P(100 * funcs / (g.stmts - i))) { funcs--; funcDecl(p.body, g.coroutines && P(g.coroHeavy ? 65 : 35), P(25)); }
            stmt(p.body);
        }
        if (!faultDone && faultAt >= 0) { faultDone = true; p.body.push_back(faultS()); p.body.push_back(outS()); }
        for (int i = -1; i <= 6; i++) p.keys.push_back({'i', i, 0, ""});
        for (float f : {0.5f, 1.5f, 2.0f}) p.keys.push_back({'f', 0, f, ""});
        for (const char *s : {"a", "b", "c", "x", "y", "s", "t", "p", "q", "u", "v", "_data", "d", "ko-1", "ko0", "ko1", "ko2", "ko3", "ks-1", "ks0", "ks1", "ks2", "ks3"}) p.keys.push_back({'s', 0, 0, s});
    }
};
}
void generate(Program &p, Rng &r, const GenOpts &g) { G x(p, r, g); x.run(); }

#include "lang.hpp"

const char *const opText[] = {"+", "-", "*", "/", "%", ">", "<", ">=", "<=", "==", "!=", "===", "&&", "||"};
const int opPrec[] = {6, 6, 5, 5, 5, 8, 8, 8, 8, 9, 9, 9, 13, 14};

str floatText(float f) {
    char b[128];
    for (int p = 1; p < 60; p++) {
        snprintf(b, sizeof b, "%.*f", p, (double)f);
        if ((float)atof(b) == f) return b;
    }
    return b;
}
str quoteStr(const str &s) {
    str o = "\"";
    for (char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c == '"') o += "\\\"";
        else o += c;
    }
    return o + "\"";
}
namespace {
struct Tok { str t; bool nl = false; int indent = 0; bool directive = false; int setLine = -1; str setFile; std::vector<std::pair<Stmt *, int>> marks; };
struct P {
    Program &p; const PrintOpts &o; std::vector<Tok> v; int ind = 0; bool nextNl = false;
    std::vector<std::pair<Stmt *, int>> pend;
    std::map<str, str> ren;
    P(Program &p, const PrintOpts &o) : p(p), o(o) {}
    bool rp(int pc) { return o.r && o.r->pct(pc); }
    void T(const str &t) { Tok k; k.t = t; k.nl = nextNl; k.indent = ind; nextNl = false; k.marks.swap(pend); v.push_back(k); }
    void nl() { nextNl = true; }
    void start(Stmt *s, int role) { pend.push_back({s, role}); }
    void end(Stmt *s, int role) { v.back().marks.push_back({s, role}); }
    str name(Var *x) {
        if (!x->native && o.pad && !o.rename) return x->shown = str(o.pad, 'L') + x->name;
        if (x->native || !o.rename) return x->shown = x->name;
        auto it = ren.find(x->name); if (it != ren.end()) return x->shown = it->second;
        str n; static const char *const pre[] = {"zz", "Q", "_u", "longish_name_", "v\xc3\xa9", "IF", "fun", "returnx", "nilly", "x"};
        n = str(pre[o.r ? o.r->below(10) : 0]) + fmt("%d", (int)ren.size() + 1) + (rp(30) ? "_" : "");
        ren[x->name] = n; return x->shown = n;
    }
    bool postfixBase(Expr *e) { return e->k == E_VAR || e->k == E_CALL || e->k == E_INDEX || e->k == E_FIELD || e->k == E_METHOD || e->k == E_PAREN || e->k == E_LEN || e->k == E_CORO || e->k == E_RESUME || e->k == E_ISFIN || e->k == E_OBJECT || e->k == E_YIELD; }
    void base(Expr *e) { if (postfixBase(e)) X(e, 0, false); else { T("("); X(e, 99, false); T(")"); } }
    void args(const std::vector<Expr *> &a, size_t from) {
        T("("); for (size_t i = from; i < a.size(); i++) { if (i > from) T(","); X(a[i], 99, false); } T(")");
    }
    void fn(Func *f) {
        T("("); for (size_t i = 0; i < f->params.size(); i++) { if (i) T(","); T(name(f->params[i])); } T(")");
        block(f->body, true);
    }
    // maxp: loosest precedence that may stand here unparenthesised
    void X(Expr *e, int maxp, bool) {
        if (o.parens && rp(12)) { T("("); X2(e, 99); T(")"); return; }
        X2(e, maxp);
    }
    void X2(Expr *e, int maxp) {
        switch (e->k) {
        case E_INT: T(fmt("%d", e->ival)); break;
        case E_FLT: T(e->s); break;
        case E_STR:
            { size_t c = o.random && e->s.size() > 1 && rp(15) ? 1 + o.r->below((uint32_t)e->s.size() - 1) : 0;
            if (c && e->s[c - 1] != '\\') { T(quoteStr(e->s.substr(0, c))); T(quoteStr(e->s.substr(c))); }
            else T(quoteStr(e->s)); }
            break;
        case E_NIL: T("nil"); break;
        case E_VAR: T(name(e->var)); break;
        case E_PAREN: T("("); X(e->a[0], 99, false); T(")"); break;
        case E_BIN: {
            int pr = opPrec[e->op]; bool par = pr > maxp;
            if (par) T("(");
            X(e->a[0], pr, false); T(opText[e->op]); X(e->a[1], pr - 1, true);
            if (par) T(")");
            break; }
        case E_NEG: case E_NOT: case E_PRE: {
            T(e->k == E_NEG ? "-" : e->k == E_NOT ? "!" : e->op > 0 ? "++" : "--");
            Expr *x = e->a[0];
            if (e->k == E_PRE) X2(x, 0);
            else if (x->k == E_BIN || x->k == E_ASSIGN) { T("("); X(x, 99, false); T(")"); }
            else X(x, 0, false);
            break; }
        case E_POST: { X2(e->a[0], 0); T(e->op > 0 ? "++" : "--"); break; }
        case E_ASSIGN: {
            bool par = maxp < 99; if (par) T("(");
            X2(e->a[0], 0); T("="); if (e->a[1]->k == E_ASSIGN) { T("("); X(e->a[1], 99, true); T(")"); } else X(e->a[1], 14, true);
            if (par) T(")");
            break; }
        case E_INDEX: base(e->a[0]); T("["); X(e->a[1], 99, false); T("]"); break;
        case E_FIELD: base(e->a[0]); T("."); T(e->s); break;
        case E_CALL: base(e->a[0]); args(e->a, 1); break;
        case E_METHOD: base(e->a[0]); T("->"); T(e->s); args(e->a, 1); break;
        case E_FUNC: T("function"); fn(e->fn); break;
        case E_NEWOBJ: T("newobject"); break;
        case E_OBJECT: T("object"); T("("); T(")"); break;
        case E_LEN: T("len"); args(e->a, 0); break;
        case E_CORO: T("coroutine"); args(e->a, 0); break;
        case E_YIELD: T("yield"); args(e->a, 0); break;
        case E_RESUME: T("resume"); args(e->a, 0); break;
        case E_ISFIN: T("is_finished"); args(e->a, 0); break;
        }
    }
    void block(std::vector<Stmt *> &b, bool forceBraces) {
        if (!forceBraces && b.size() == 1 && o.random && rp(30) && (b[0]->k == S_EXPR || b[0]->k == S_RETURN || b[0]->k == S_BREAK)) { ind++; nl(); S(b[0]); ind--; return; }
        T("{"); ind++;
        for (auto *s : b) { nl(); S(s); }
        ind--; nl(); T("}");
    }
    void S(Stmt *s) {
        if (o.blocks && s->k == S_EXPR && rp(15)) { T("{"); ind++; nl(); S2(s); ind--; nl(); T("}"); return; }
        S2(s);
    }
    void S2(Stmt *s) {
        start(s, 0);
        switch (s->k) {
        case S_EXPR: {
            Expr *e = s->e; Expr *l = e; // an expression statement must not start with "function"
            bool fnStart = false;
            while (true) { if (l->k == E_FUNC) { fnStart = true; break; } if ((l->k == E_BIN || l->k == E_ASSIGN) && l->a.size()) { l = l->a[0]; continue; } break; }
            if (fnStart && e->k != E_BIN && e->k != E_ASSIGN) { T("("); X(e, 99, false); T(")"); }
            else if (fnStart) { T("("); X2(e, 99); T(")"); }
            else X(e, 99, false);
            T(";"); end(s, 1); break; }
        case S_VAR: T("var"); T(name(s->var)); if (s->e) { T("="); X(s->e, 14, false); } T(";"); end(s, 1); break;
        case S_RETURN: T("return"); X(s->e, 99, false); T(";"); end(s, 1); break;
        case S_IF:
            T("if"); T("("); X(s->e, 99, false); T(")"); end(s, 1); block(s->body, false);
            if (s->hasElse) { nl(); T("else"); if (s->elseIf) S2(s->els[0]); else block(s->els, false); }
            break;
        case S_WHILE: T("while"); T("("); X(s->e, 99, false); T(")"); end(s, 1); block(s->body, false); break;
        case S_DO: T("do"); end(s, 1); block(s->body, true); T("while"); v.back().marks.push_back({s, 2}); T("("); X(s->e, 99, false); T(")"); T(";"); end(s, 3); break;
        case S_FOR: {
            T("for"); T("("); if (s->init->k == S_VAR) { start(s->init, 0); T("var"); T(name(s->init->var)); if (s->init->e) { T("="); X(s->init->e, 14, false); } T(";"); end(s->init, 1); }
            else { start(s->init, 0); X(s->init->e, 99, false); T(";"); end(s->init, 1); }
            X(s->e, 99, false); T(";"); X(s->e2, 99, false); T(")"); end(s, 1); block(s->body, false); break; }
        case S_BREAK: T("break"); T(";"); end(s, 1); break;
        case S_BLOCK: T("{"); end(s, 1); ind++; for (auto *x : s->body) { nl(); S(x); } ind--; nl(); T("}"); break;
        case S_FUNC: T("function"); T(name(s->var)); end(s, 1); fn(s->fn); break;
        }
    }
    static bool wordy(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || (unsigned char)c >= 0x80 || c == '"'; }
    bool mustSep(const str &a, const str &b) {
        char x = a.back(), y = b[0];
        if (strchr("(){}[];,", x) || strchr("(){}[];,", y)) return false;
        return true;
    }
    // returns text and assigns lines
    // Directives are only put between statements, so a statement's lines stay in one file.
    str layout(int fileIdx, std::vector<str> *names = nullptr) {
        str out; int line = 1, open = 0; const char *eol = o.crlf ? "\r\n" : "\n"; bool bol = true;
        auto newline = [&]() { out += eol; line++; bol = true; };
        for (size_t i = 0; i < v.size(); i++) {
            Tok &k = v[i];
            if (names && o.directives && !open && o.r->pct(k.nl || !i ? 22 : 4)) {
                if (!bol) newline();
                do { directive(out, line, fileIdx, *names, eol); bol = true; } while (o.r->pct(15));
            } else if (i) {
                if (!o.random) {
                    if (k.nl && !o.oneLine) { newline(); out += str(k.indent * 4, ' '); }
                    else {
                        const str &a = v[i - 1].t; bool tight = k.t == ";" || k.t == "," || k.t == ")" || k.t == "]" || a == "(" || a == "[" ||
                            ((k.t == "(" || k.t == "[") && (wordy(a.back()) || a == ")" || a == "]") && a != "if" && a != "while" && a != "for" && a != "return" && a != "=");
                        if (!tight) out += ' ';
                    }
                } else {
                    bool sep = mustSep(v[i - 1].t, k.t); bool any = false;
                    int n = o.r->below(100) < 60 ? 0 : 1 + o.r->below(3);
                    if (k.nl && o.r->pct(50)) n++;
                    for (int q = 0; q < n; q++) {
                        switch (o.r->below(o.comments ? 6 : 4)) {
                        case 0: out += ' '; any = true; break;
                        case 1: out += '\t'; any = true; break;
                        case 2: newline(); any = true; break;
                        case 3: out += "  "; any = true; break;
                        case 4: { static const char *const cm[] = {"// hi", "//", "// \"quoted ' text", "// x = y; }{ //", "//#line 99", "// \xff\x80", "// /* nope */", "// cr\r inside\r", "//\r\r", "// form\ffeed\ttab\v", "// a very long comment a very long comment a very long comment a very long comment a very long comment"};
                            out += str(any ? "" : " ") + cm[o.r->below(11)]; newline(); any = true; break; }
                        case 5: newline(); newline(); any = true; break;
                        }
                    }
                    if (sep && !any) out += ' ';
                }
            }
            int startLine = line; (void)startLine;
            out += k.t; bol = false;
            for (auto &m : k.marks) {
                Stmt *s = m.first; if (m.second == 0) s->file = s->cfile = fileIdx; else if (m.second == 2) s->cfile = fileIdx;
                if (m.second == 0 || m.second == 2) open++; else open--;
                if (m.second == 0) { s->line = line; s->endLine = line; s->cline = line; s->cend = line; }
                else if (m.second == 1) s->endLine = line;
                else if (m.second == 2) s->cline = line;
                else s->cend = line;
            }
        }
        out += eol;
        return out;
    }
    void directive(str &out, int &line, int &fileIdx, std::vector<str> &names, const char *eol) {
        static const char *const pool[] = {"a", "a.", "a.inc", "ab", "A", "b", "main", "main.nks", "main.nks.in", "dir/main.nks", "dir", "x y", "x", "f", "f0", "f0.nks", "f1.nks", "f1", "0", "1", "<none>", "k=v;", "#line"};
        Rng &r = *o.r; bool setLine = r.pct(65), setFile = !setLine || r.pct(60); str f; static const char *const sp[] = {"", " ", "\t", "  "};
        if (setFile) { f = r.pct(25) ? names[r.below((uint32_t)names.size())] : r.pct(4) ? str(300, 'n') + pool[r.below(4)] : str(pool[r.below(sizeof pool / sizeof *pool)]); size_t k = 0; while (k < names.size() && names[k] != f) k++; if (k == names.size()) names.push_back(f); fileIdx = (int)k; }
        out += str("#") + sp[r.below(4)];
        if (setLine) { line = r.pct(30) ? r.below(3) : r.pct(50) ? line + (int)r.below(5) - 2 : r.pct(90) ? (int)r.below(5000) : 2000000000 + (int)r.below(1000000); if (line < 0) line = 0; out += "line" + str(1 + r.below(2), ' ') + fmt("%d", line); if (setFile) out += " \"" + f + "\""; }
        else { out += "file \"" + f + "\""; line++; }
        out += sp[r.below(4)]; if (o.comments && r.pct(20)) out += r.pct(50) ? " // note" : "// \"q\" #line 7"; out += eol;
    }
};
}
std::vector<Piece> printProgram(Program &p, const PrintOpts &o, std::vector<str> *files) {
    std::vector<Piece> out;
    int n = o.pieces < 1 ? 1 : o.pieces; if (n > (int)p.body.size()) n = p.body.size() ? (int)p.body.size() : 1;
    std::map<str, str> ren;
    // choose cut points
    std::vector<int> cut; // piece index of each top-level statement
    int cur = 0;
    for (size_t i = 0; i < p.body.size(); i++) {
        int left = (int)(p.body.size() - i);
        if (i && cur + 1 < n) { if (left <= n - 1 - cur || (o.r ? o.r->pct(100 * n / (int)p.body.size()) : (int)(i * n / p.body.size()) > cur)) cur++; }
        cut.push_back(cur);
    }
    std::vector<str> names; std::vector<P> ps;
    for (int k = 0; k <= cur; k++) {
        P q(p, o); q.ren = ren;
        for (size_t i = 0; i < p.body.size(); i++) if (cut[i] == k) { p.body[i]->piece = k; q.nl(); q.S(p.body[i]); }
        ren = q.ren;
        Piece pc; pc.file = o.fileBase + fmt("%d.nks", k);
        names.push_back(pc.file); out.push_back(pc);
        ps.push_back(q);
    }
    for (size_t k = 0; k < out.size(); k++) out[k].text = ps[k].layout((int)k, &names);
    if (files) *files = names;
    return out;
}
str printExpr(Program &p, Expr *e) {
    PrintOpts o; P q(p, o); q.X2(e, 99); return q.layout(0);
}

// C19: calls between scripts, native functions and the host deliver exactly the right values.
#include "vm.hpp"
#include <memory>
#include <cmath>
#include <algorithm>
namespace {
struct Val { char t = 'n'; int i = 0; float f = 0; str s; int k = -1; }; // i f s n, o: object k, F: function k
struct Sig { NKValueType t; int ext = -1; };                             // ext: -1 any, 0 box, 1 box2
enum { B_CONST, B_ARG, B_APPLY, B_CALL, B_TWICE, B_ERROR, B_CHECK, B_DATA };
struct Fn { bool native = true; str name; bool checked = false; std::vector<Sig> sig; int n = 0; int beh = B_CONST, j = 0, form = 0; Val c; int g = -1; std::vector<int> perm; std::vector<Val> extra; int line = 0; };
struct Side; thread_local Side *cur = nullptr;
const int NN = 10;
struct Side { World *w; std::vector<Fn> *fns; std::string log; int objs; std::function<void()> inject; };
str render(const Val &v, std::vector<Fn> &fns) { switch (v.t) { case 'i': return fmt("i%d", v.i); case 'f': { uint32_t b; memcpy(&b, &v.f, 4); return fmt("f%08x", b); } case 's': return "s" + visible(v.s); case 'o': return fmt("o%d", v.k); case 'F': return "F" + fns[v.k].name; default: return "n"; } }
str renderNK(Side &S, NKValue *v) {
    NKVM *vm = S.w->vm; switch (v->type) {
    case NK_VALUETYPE_INT: return fmt("i%d", v->intData);
    case NK_VALUETYPE_FLOAT: { uint32_t b; memcpy(&b, &v->floatData, 4); return fmt("f%08x", b); }
    case NK_VALUETYPE_STRING: { const char *s = nkxValueToString(vm, v); return s ? "s" + visible(s) : str("s?"); }
    case NK_VALUETYPE_NIL: return "n";
    case NK_VALUETYPE_OBJECTID: for (int i = 0; i < S.objs; i++) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, fmt("o%d", i).c_str()); if (g && g->type == NK_VALUETYPE_OBJECTID && g->objectId == v->objectId) return fmt("o%d", i); } return "o?";
    case NK_VALUETYPE_FUNCTIONID: for (auto &f : *S.fns) { NKValue *g = nkxVmFindGlobalVariable(vm, nullptr, f.name.c_str()); if (g && g->type == NK_VALUETYPE_FUNCTIONID && g->functionId.id == v->functionId.id) return "F" + f.name; } return "F?";
    default: return "?"; } }
NKVMFunctionCallback nativeOf(int k);
NKValue toNK(Side &S, const Val &v) { NKVM *vm = S.w->vm; NKValue x; memset(&x, 0, sizeof x); switch (v.t) { case 'i': nkxValueSetInt(vm, &x, v.i); break; case 'f': nkxValueSetFloat(vm, &x, v.f); break; case 's': nkxValueSetString(vm, &x, v.s.c_str()); break; case 'o': x = *nkxVmFindGlobalVariable(vm, nullptr, fmt("o%d", v.k).c_str()); break; case 'F': { Fn &f = (*S.fns)[v.k]; if (f.native && (S.log.size() & 1)) { nkxValueSetFunction(vm, &x, nkxVmGetOrCreateInternalFunctionForExternalFunction(vm, nkxVmRegisterExternalFunction(vm, f.name.c_str(), nativeOf(v.k)))); break; } x = *nkxVmFindGlobalVariable(vm, nullptr, f.name.c_str()); break; } default: nkxValueSetNil(vm, &x); } return x; }
void line(Side &S, const str &name, NKVMFunctionCallbackData *d) { S.log += name + "("; for (uint32_t i = 0; i < d->argumentCount; i++) { NKValue a = d->arguments[i]; S.log += (i ? "," : "") + renderNK(S, &a); } S.log += ")\n"; }
void nrec(NKVMFunctionCallbackData *d) { line(*cur, "rec", d); if (d->argumentCount) d->returnValue = d->arguments[0]; if (cur->inject) cur->inject(); }
void nmk2(NKVMFunctionCallbackData *d) { NKValue o; memset(&o, 0, sizeof o); nkxCreateObject(d->vm, &o); nkxVmObjectSetExternalType(d->vm, &o, cur->w->box2Type); d->returnValue = o; }
template <int N> void nat(NKVMFunctionCallbackData *d) {
    Side &S = *cur; Fn &f = (*S.fns)[N]; line(S, f.name, d); if (d->vm != S.w->vm) S.log += "wrong machine\n";
    switch (f.beh) {
    case B_CONST: d->returnValue = toNK(S, f.c); break;
    case B_ARG: if ((int)d->argumentCount > f.j) d->returnValue = d->arguments[f.j]; else nkxValueSetInt(d->vm, &d->returnValue, -1); break;
    case B_ERROR: nkxAddError(d->vm, "native reports an error"); break;
    case B_CHECK: if (!nkxFunctionCallbackCheckArguments(d, "chk", 2, NK_VALUETYPE_INT, NK_VALUETYPE_STRING)) { S.log += "check refused\n"; if (!nkxVmHasErrors(d->vm)) S.log += "without error\n"; return; } d->returnValue = d->arguments[1]; break;
    case B_DATA: { if (!nkxFunctionCallbackCheckArgCount(d, 1, "data")) { S.log += "count refused\n"; return; } Box *b = (Box *)nkxFunctionCallbackGetExternalDataArgument(d, "data", 0, S.w->boxType); if (!b) { S.log += "data refused\n"; if (!nkxVmHasErrors(d->vm)) S.log += "without error\n"; return; } nkxValueSetInt(d->vm, &d->returnValue, b->payload); break; }
    default: { // call back
        std::vector<NKValue> a; NKValue fv, ret; memset(&ret, 0, sizeof ret); memset(&fv, 0, sizeof fv);
        if (f.beh == B_APPLY) { if (!d->argumentCount) { nkxAddError(d->vm, "nothing to apply"); return; } fv = d->arguments[0]; for (uint32_t i = 1; i < d->argumentCount; i++) a.push_back(d->arguments[i]); }
        else { fv = toNK(S, [&] { Val v; v.t = 'F'; v.k = f.g; return v; }()); for (int p : f.perm) { if (p < (int)d->argumentCount && p >= 0) a.push_back(d->arguments[p]); else a.push_back(toNK(S, f.extra[-p - 1 >= 0 && -p - 1 < (int)f.extra.size() ? -p - 1 : 0])); } }
        NKValue z; memset(&z, 0, sizeof z); nkxVmCallFunction(d->vm, &fv, (uint32_t)a.size(), a.size() ? a.data() : nullptr, &ret);
        if (nkxVmHasErrors(d->vm)) { S.log += f.name + " interrupted\n"; return; }
        if (f.beh == B_TWICE) { NKValue r2; memset(&r2, 0, sizeof r2); nkxVmCallFunction(d->vm, &fv, (uint32_t)a.size(), a.size() ? a.data() : nullptr, &r2); if (nkxVmHasErrors(d->vm)) { S.log += f.name + " interrupted\n"; return; } S.log += f.name + " " + renderNK(S, &ret) + "\n"; ret = r2; nkxVmCallFunction(d->vm, &fv, (uint32_t)a.size(), a.size() ? a.data() : nullptr, nullptr); if (nkxVmHasErrors(d->vm)) { S.log += f.name + " interrupted\n"; return; } }
        S.log += f.name + " ret " + renderNK(S, &ret) + "\n"; { NKVMFunctionCallbackData x = *d; line(S, "still", &x); } d->returnValue = ret; } } }
const NKVMFunctionCallback NF[NN] = {nat<0>, nat<1>, nat<2>, nat<3>, nat<4>, nat<5>, nat<6>, nat<7>, nat<8>, nat<9>};
NKVMFunctionCallback nativeOf(int k) { return NF[k]; }
struct Case {
    Ctx &c; Rng r; std::vector<Fn> fns; int nn, ns; int objs = 6; str log; bool err = false; int errLine = 0; int budget = 400; bool over = false; int depth = 0, maxDepth = 0; uint64_t calls = 0;
    // o0..o2 plain, o3 box, o4 box2, o5 box
    int extOf(int o) { return o == 3 || o == 5 ? 0 : o == 4 ? 1 : -2; }
    Case(Ctx &c, uint64_t s) : c(c), r(s) {}
    Val lit() { Val v; switch (r.below(7)) { case 0: case 1: v.t = 'i'; v.i = r.pct(70) ? r.range(-9, 99) : (int)r.next(); if (v.i == INT32_MIN) v.i = 1; break; case 2: v.t = 'f'; v.f = r.range(-999, 999) / 8.0f; break; case 3: v.t = 's'; { int n = r.below(8); while (n--) v.s += "abcXYZ 019_#"[r.below(12)]; } break; case 4: v.t = 'n'; break; case 5: v.t = 'o'; v.k = r.below(objs); break; default: v.t = 'F'; v.k = r.below((uint32_t)fns.size()); } return v; }
    Val ofType(const Sig &s) { for (int i = 0; i < 2000; i++) { Val v = lit(); if (ok(s, v)) return v; } Val v; v.t = 'o'; v.k = s.ext == 1 ? 4 : 3; return v; }
    bool ok(const Sig &s, const Val &v) { switch (s.t) { case NK_VALUETYPE_NIL: return true; case NK_VALUETYPE_INT: return v.t == 'i'; case NK_VALUETYPE_FLOAT: return v.t == 'f'; case NK_VALUETYPE_STRING: return v.t == 's'; case NK_VALUETYPE_FUNCTIONID: return v.t == 'F'; default: return v.t == 'o' && (s.ext < 0 || extOf(v.k) == s.ext); } }
    bool accepts(Fn &f, const std::vector<Val> &a) { if (!f.native) return (int)a.size() == f.n; if (!f.checked) return true; if (a.size() != f.sig.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!ok(f.sig[i], a[i])) return false; return true; }
    str T(const Val &v) { switch (v.t) { case 'i': return fmt("%d", v.i); case 'f': return v.f < 0 ? "-" + floatText(-v.f) : floatText(v.f); case 's': return quoteStr(v.s); case 'o': return fmt("o%d", v.k); case 'F': return fns[v.k].name; default: return "nil"; } }
    str argText(const std::vector<Val> &a, const char *lead = "") { str s = lead; for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + T(a[i]); return s; }
    void L(const str &name, const std::vector<Val> &a) { log += name + "("; for (size_t i = 0; i < a.size(); i++) log += (i ? "," : "") + render(a[i], fns); log += ")\n"; }
    std::vector<Val> permuted(Fn &f, const std::vector<Val> &a) { std::vector<Val> o; for (int p : f.perm) { if (p >= 0 && p < (int)a.size()) o.push_back(a[p]); else o.push_back(f.extra[p < 0 && -p - 1 < (int)f.extra.size() ? -p - 1 : 0]); } return o; }
    // the oracle
    Val call(int k, const std::vector<Val> &a, int line) {
        Val none; if (err || over) return none; if (--budget < 0) { over = true; return none; } Fn &f = fns[k]; calls++; depth++; maxDepth = std::max(maxDepth, depth); struct D { int &d; ~D() { d--; } } dd{depth};
        if (!accepts(f, a)) { err = true; errLine = line; return none; }
        if (!f.native) {
            int ln = f.line;
            if (f.beh == B_CONST) { L("rec", withName(f, a)); return f.c; } if (f.beh == B_ARG) { L("rec", withName(f, a)); return f.j < (int)a.size() ? a[f.j] : f.c; }
            L("rec", withName(f, a)); Val r = call(f.g, permuted(f, a), ln + 3); if (err || over) return none; Val kp; kp.t = 'i'; kp.i = f.j * 7 + 1; std::vector<Val> out;
            if (f.form == 0) { out = {kp, r}; for (auto &v : a) out.push_back(v); L("rec", out); return r; } if (f.form == 1) { out = {kp, r}; for (auto &v : a) out.push_back(v); L("rec", out); return kp; }
            out = {r}; L("rec", out); out = {kp}; for (auto &v : a) out.push_back(v); L("rec", out); return r; }
        L(f.name, a);
        switch (f.beh) {
        case B_CONST: return f.c; case B_ARG: if ((int)a.size() > f.j) return a[f.j]; none.t = 'i'; none.i = -1; return none;
        case B_ERROR: err = true; errLine = line; return none;
        case B_CHECK: if (a.size() != 2 || a[0].t != 'i' || a[1].t != 's') { log += "check refused\n"; err = true; errLine = line; return none; } return a[1];
        case B_DATA: if (a.size() != 1) { log += "count refused\n"; err = true; errLine = line; return none; } if (a[0].t != 'o' || extOf(a[0].k) != 0) { log += "data refused\n"; err = true; errLine = line; return none; } none.t = 'i'; none.i = a[0].k == 3 ? 33 : 55; return none;
        default: {
            int target; std::vector<Val> x; if (f.beh == B_APPLY) { if (a.empty()) { err = true; errLine = line; return none; } if (a[0].t != 'F') { log += f.name + " interrupted\n"; err = true; errLine = line; return none; } target = a[0].k; x.assign(a.begin() + 1, a.end()); } else { target = f.g; x = permuted(f, a); }
            Val r = call(target, x, line); if (err) { log += f.name + " interrupted\n"; return none; } if (over) return none;
            if (f.beh == B_TWICE) { Val r2 = call(target, x, line); if (err) { log += f.name + " interrupted\n"; return none; } log += f.name + " " + render(r, fns) + "\n"; r = r2; call(target, x, line); if (err) { log += f.name + " interrupted\n"; return none; } if (over) return none; }
            log += f.name + " ret " + render(r, fns) + "\n"; L("still", a); return r; } } }
    std::vector<Val> withName(Fn &f, const std::vector<Val> &a) { Val n; n.t = 's'; n.s = f.name; std::vector<Val> o = {n}; o.insert(o.end(), a.begin(), a.end()); return o; }
    void design() {
        nn = r.range(3, NN); ns = r.range(2, 8); fns.resize(nn + ns);
        for (int k = 0; k < nn + ns; k++) fns[k].name = k < nn ? fmt("nat%d", k) : fmt("sf%d", k - nn);
        for (int k = 0; k < nn + ns; k++) { Fn &f = fns[k]; f.native = k < nn; f.j = r.below(4);
            if (f.native) { f.checked = r.pct(75); f.n = r.pct(85) ? r.below(5) : r.below(14); for (int i = 0; i < f.n; i++) { Sig s; static const NKValueType ty[] = {NK_VALUETYPE_INT, NK_VALUETYPE_FLOAT, NK_VALUETYPE_STRING, NK_VALUETYPE_NIL, NK_VALUETYPE_OBJECTID, NK_VALUETYPE_FUNCTIONID}; s.t = ty[r.below(6)]; if (s.t == NK_VALUETYPE_OBJECTID) s.ext = r.range(-1, 1); f.sig.push_back(s); } } else f.n = r.pct(85) ? r.below(5) : r.below(14); }
        for (int k = 0; k < nn + ns; k++) { Fn &f = fns[k]; f.c = lit(); int q = r.below(20); f.beh = q < 3 ? B_CONST : q < 7 ? B_ARG : q < 12 ? B_CALL : q < 15 ? B_APPLY : q < 17 ? B_TWICE : q == 17 ? B_CHECK : q == 18 ? B_DATA : r.pct(30) ? B_ERROR : B_ARG; f.form = r.below(3);
            if (!f.native && f.beh != B_CONST && f.beh != B_ARG) f.beh = B_CALL; if (f.beh == B_APPLY && f.checked && f.n) f.sig[0] = {NK_VALUETYPE_FUNCTIONID, -1}; if (f.beh == B_CHECK && r.pct(60)) { f.checked = false; } if (f.beh == B_DATA && r.pct(60)) f.checked = false;
            if (f.beh == B_CALL || f.beh == B_TWICE) { // target: ordered so that chains end
                f.g = -1; for (int t = 0; t < 20 && f.g < 0; t++) { int g = r.below(nn + ns); if (order(g) < order(k)) f.g = g; } if (f.g < 0) { f.beh = B_ARG; continue; }
                Fn &g = fns[f.g]; int want = g.native && !g.checked ? (int)r.below(5) : g.n; if (r.pct(4)) want += r.range(-1, 1); for (int i = 0; i < want; i++) { int p = -1; if (f.n && r.pct(70)) for (int t = 0; t < 8 && p < 0; t++) { int x = r.below(f.n); if (!(g.native && g.checked && i < (int)g.sig.size()) || g.sig[i].t == NK_VALUETYPE_NIL || (f.native && f.checked && f.sig[x].t == g.sig[i].t && (g.sig[i].ext < 0 || g.sig[i].ext == f.sig[x].ext))) p = x; } if (p < 0) { Val e = g.native && g.checked && i < (int)g.sig.size() && !r.pct(2) ? ofType(g.sig[i]) : lit(); f.extra.push_back(e); p = -(int)f.extra.size(); } f.perm.push_back(p); }
                if (f.extra.empty()) f.extra.push_back(lit()); } } }
    int order(int k) { return (k * 7 + 3) % (nn + ns); }
    std::vector<Val> argsFor(int k, bool good) { Fn &f = fns[k]; std::vector<Val> a; if (f.native && f.checked) { for (auto &s : f.sig) a.push_back(ofType(s)); } else if (f.native && f.beh == B_CHECK) { a.resize(2); a[0].t = 'i'; a[0].i = 4; a[1].t = 's'; a[1].s = "second"; } else if (f.native && f.beh == B_DATA) { a.resize(1); a[0].t = 'o'; a[0].k = r.pct(50) ? 3 : 5; } else { int n = f.native ? (int)r.below(7) : f.n; for (int i = 0; i < n; i++) a.push_back(lit()); }
        if (f.native && f.beh == B_APPLY && a.size()) { int g = r.below(nn + ns); std::vector<Val> rest = order(g) < order(k) || fns[g].beh != B_APPLY ? argsFor2(g) : std::vector<Val>(); if (!f.checked) { a.resize(1); a[0].t = 'F'; a[0].k = g; a.insert(a.end(), rest.begin(), rest.end()); } else { a[0].t = 'F'; a[0].k = g; } }
        if (!good) { switch (r.below(4)) { case 0: a.push_back(lit()); break; case 1: if (a.size()) a.pop_back(); break; case 2: if (a.size()) a[r.below((uint32_t)a.size())] = lit(); break; default: std::reverse(a.begin(), a.end()); } } return a; }
    std::vector<Val> argsFor2(int g) { Fn &f = fns[g]; std::vector<Val> a; if (f.native && f.checked) for (auto &s : f.sig) a.push_back(ofType(s)); else for (int i = f.native ? (int)r.below(4) : f.n; i-- > 0;) a.push_back(lit()); return a; }
    void setup(Vm &v, bool target) { NKCompilerState *cs = target ? nullptr : v.w.cs; nkbool g = cs ? nktrue : nkfalse; NKVM *vm = v.vm(); nkxVmSetupExternalFunction(vm, cs, "rec", nrec, g, NK_INVALID_VALUE); nkxVmSetupExternalFunction(vm, cs, "mk2", nmk2, g, 0); NKVMExternalDataTypeID any = {NK_INVALID_VALUE};
        for (int k = 0; k < nn; k++) { Fn &f = fns[k]; if (!f.checked) { nkxVmSetupExternalFunction(vm, cs, f.name.c_str(), NF[k], g, NK_INVALID_VALUE); continue; }
            // the variable argument list is built from pairs (type, id) in one fixed call with enough room
            struct A { int n; uint32_t q[40]; } x; x.n = 0; for (auto &s : f.sig) { x.q[x.n++] = s.t; if (s.t == NK_VALUETYPE_OBJECTID) x.q[x.n++] = s.ext < 0 ? any.id : s.ext == 0 ? v.w.boxType.id : v.w.box2Type.id; } while (x.n < 40) x.q[x.n++] = 0; uint32_t *q = x.q;
            nkxVmSetupExternalFunction(vm, cs, f.name.c_str(), NF[k], g, (nkuint32_t)f.sig.size(), q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14], q[15], q[16], q[17], q[18], q[19], q[20], q[21], q[22], q[23], q[24], q[25], q[26], q[27], q[28], q[29]); } }
    str text; int ln = 1; void P(const str &s) { text += s + "\n"; ln++; }
    void run() {
        design(); for (int i = 0; i < 3; i++) P(fmt("var o%d = object();", i)); P("var o3 = box(33);"); P("var o4 = mk2();"); P("var o5 = box(55);");
        // functions may refer to later ones only through globals that exist; declare in an order that works
        std::vector<int> ord; for (int k = nn; k < nn + ns; k++) ord.push_back(k); std::sort(ord.begin(), ord.end(), [&](int a, int b) { return order(a) < order(b); });
        // constants naming a later script function are replaced
        std::map<int, int> pos; for (size_t i = 0; i < ord.size(); i++) pos[ord[i]] = (int)i; auto fix = [&](Val &v, int k) { if (v.t == 'F' && v.k >= nn && pos[v.k] >= pos[k]) { v = Val(); v.t = 'i'; v.i = 12; } };
        for (int k : ord) { Fn &f = fns[k]; fix(f.c, k); for (auto &e : f.extra) fix(e, k); f.line = ln; str ps; for (int i = 0; i < f.n; i++) ps += (i ? ", " : "") + fmt("p%d", i); str pl; for (int i = 0; i < f.n; i++) pl += fmt(", p%d", i); P("function " + f.name + "(" + ps + ") {"); P("rec(" + quoteStr(f.name) + pl + ");");
            if (f.beh == B_CONST) P("return " + T(f.c) + ";"); else if (f.beh == B_ARG) P(f.j < f.n ? fmt("return p%d;", f.j) : "return " + T(f.c) + ";");
            else { P(fmt("var kp = %d;", f.j * 7 + 1)); str a; for (size_t i = 0; i < f.perm.size(); i++) { int p = f.perm[i]; a += (i ? ", " : "") + (p >= 0 && p < f.n ? fmt("p%d", p) : T(f.extra[p < 0 && -p - 1 < (int)f.extra.size() ? -p - 1 : 0])); } str cl = fns[f.g].name + "(" + a + ")"; if (f.form == 0) { P("var r = " + cl + ";"); P("rec(kp, r" + pl + ");"); P("return r;"); } else if (f.form == 1) { P("return rec(kp, " + cl + pl + ");"); } else { P("var r = rec(" + cl + ");"); P("rec(kp" + pl + "); return r;"); } }
            P("}"); }
        P("var tmp = object(); var fv = nil;");
        int n = r.range(4, 25); bool bad = r.pct(55); for (int s = 0; s < n && !err && !over; s++) {
            int k = r.below(nn + ns); bool good = !(bad && s == n - 1); std::vector<Val> a = argsFor(k, good); std::vector<Val> out; Val mark; mark.t = 'i'; mark.i = s; int at = ln; str f = fns[k].name, ar = argText(a); Val res;
            // do not start statements that would fail before the last one too often
            str sl = log; bool se = err, so = over; int sb = budget; { Val t = call(k, a, at); (void)t; bool e2 = err, o2 = over; log = sl; err = se; over = so; budget = sb; if (o2) continue; if (e2 && !bad && r.pct(90)) continue; }
            auto after = [&](const Val &v) { if (err || over) return; L("rec", {v, mark}); };
            switch (r.below(12)) {
            case 0: res = call(k, a, at); P("rec(" + f + "(" + ar + fmt("), %d);", s)); after(res); break;
            case 1: P("fv = " + f + ";"); at = ln; res = call(k, a, at); P("rec(fv(" + ar + fmt("), %d);", s)); after(res); break;
            case 2: P("tmp.m = " + f + ";"); at = ln; res = call(k, a, at); P("rec(tmp.m(" + ar + fmt("), %d);", s)); after(res); break;
            case 3: P("tmp[\"two words\"] = " + f + ";"); at = ln; res = call(k, a, at); P("rec(tmp[\"two words\"](" + ar + fmt("), %d);", s)); after(res); break;
            case 4: { // method: the object arrives first
                int o = r.below(objs); std::vector<Val> b = a; Val ov; ov.t = 'o'; ov.k = o; if (accepts(fns[k], a) && a.size() && a[0].t == 'o') { o = a[0].k; b.erase(b.begin()); ov.k = o; } std::vector<Val> full = b; full.insert(full.begin(), ov); if (!accepts(fns[k], full) && good) { res = call(k, a, at); P("rec(" + f + "(" + ar + fmt("), %d);", s)); after(res); break; }
                str sl2 = log; int sb2 = budget; call(k, full, at); bool o2 = over, e2 = err; log = sl2; budget = sb2; err = false; over = false; if (o2 || (e2 && good)) break;
                P(fmt("o%d.meth = ", o) + f + ";"); at = ln; res = call(k, full, at); P(fmt("rec(o%d->meth(", o) + argText(b) + fmt("), %d);", s)); after(res); c.count("method_calls"); break; }
            case 5: { // inside a coroutine
                std::vector<Val> fa; P("tmp.co = coroutine(function(x) { var l = x + 1;"); at = ln; P("rec(l, " + f + "(" + ar + "), l);"); P("yield(l); rec(l); return l + 1; }, 41);"); int rl = ln; P(fmt("rec(resume(tmp.co), %d);", s)); P("rec(resume(tmp.co));"); Val l; l.t = 'i'; l.i = 42; res = call(k, a, at); if (err || over) break; L("rec", {l, res, l}); L("rec", {l, mark}); L("rec", {l}); Val l2 = l; l2.i = 43; L("rec", {l2}); c.count("calls_in_coroutines"); (void)rl; break; }
            case 6: { // in the middle of an expression and of a block with locals
                P("{ var la = 5; { var lb = \"q\";"); at = ln; res = call(k, a, at); P("rec(la, rec(" + f + "(" + ar + fmt(")), la * 3 + 1, lb, %d);", s)); P("} rec(la); }"); if (err || over) break; L("rec", {res}); Val x, y, z; x.t = 'i'; x.i = 5; y.t = 'i'; y.i = 16; z.t = 's'; z.s = "q"; L("rec", {x, res, y, z, mark}); L("rec", {x}); break; }
            case 7: { P("for(var i = 0; i < 2; ++i) {"); at = ln; P("rec(" + f + "(" + ar + "), i);"); P("}"); for (int i = 0; i < 2; i++) { res = call(k, a, at); if (err || over) break; Val iv; iv.t = 'i'; iv.i = i; L("rec", {res, iv}); } break; }
            case 8: if (r.pct(60)) { // callable objects redirecting to each other, some with data of their own
                int lv = r.range(2, r.pct(30) ? 9 : 4), nd = 0; while (nd < (int)a.size() && nd < lv && a[nd].t != 'n' && r.pct(85)) nd++; std::vector<int> has(lv, 0); int put = 0; while (put < nd) { int q = r.below(lv); if (!has[q]) { has[q] = 1; put++; } }
                int di = 0; for (int q = 0; q < lv; q++) { P(fmt("tmp.c%d = object(); tmp.c%d._exec = ", q, q) + (q ? fmt("tmp.c%d", q - 1) : f) + ";"); if (has[q]) P(fmt("tmp.c%d._data = ", q) + T(a[di++]) + ";"); }
                std::vector<Val> b(a.begin() + nd, a.end()); at = ln; res = call(k, a, at); P(fmt("rec(tmp.c%d(", lv - 1) + argText(b) + fmt("), %d);", s)); after(res); c.count("callable_chains"); c.maxi("callable_levels", lv); break; } else { // callable object
                bool data = r.pct(50) && a.size(); std::vector<Val> b = a; P("tmp.cal = object(); tmp.cal._exec = " + f + ";"); if (data) { P("tmp.cal._data = " + T(a[0]) + ";"); b.erase(b.begin()); if (a[0].t == 'n') { at = ln; res = call(k, b, at); P("rec(tmp.cal(" + argText(b) + fmt("), %d);", s)); after(res); break; } } at = ln; res = call(k, a, at); P("rec(tmp.cal(" + argText(b) + fmt("), %d);", s)); after(res); c.count("callable_objects"); break; }
            case 9: { P("tmp.v = 7 + (function(q) {"); at = ln; res = call(k, a, at); P("rec(q, " + f + "(" + ar + ")); return q * 2; })(4);"); if (err || over) break; Val q; q.t = 'i'; q.i = 4; L("rec", {q, res}); P(fmt("rec(tmp.v, %d);", s)); q.i = 15; L("rec", {q, mark}); break; }
            case 10: { // arguments computed by calls
                if (a.empty()) { res = call(k, a, at); P("rec(" + f + fmt("(), %d);", s)); after(res); break; } str t; for (size_t i = 0; i < a.size(); i++) t += str(i ? ", " : "") + (r.pct(50) ? "rec(" + T(a[i]) + ")" : (log += "", T(a[i]))); // records of nested calls come first, left to right
                { size_t q = 0; size_t idx = 0; str u = t; std::vector<Val> seq; // find which were wrapped
                    str probe; for (size_t i = 0; i < a.size(); i++) { str plain = T(a[i]), wrap = "rec(" + plain + ")"; str sep = i ? ", " : ""; q += sep.size(); if (u.compare(q, wrap.size(), wrap) == 0) { seq.push_back(a[i]); q += wrap.size(); } else q += plain.size(); } for (auto &x : seq) L("rec", {x}); (void)idx; }
                res = call(k, a, at); P("rec(" + f + "(" + t + fmt("), %d);", s)); after(res); break; }
            default: res = call(k, a, at); P(f + "(" + ar + fmt("); rec(%d);", s)); if (!err && !over) L("rec", {mark}); } if (over) break; }
        if (over) { c.count("discarded"); return; }
        P("rec(\"end\");"); if (!err) { Val e; e.t = 's'; e.s = "end"; L("rec", {e}); }
        c.text(text); str want = log; bool wantErr = err; int wantLine = errLine; c.count("calls", calls); c.maxi("nesting", maxDepth); c.count(wantErr ? "refused_or_failing" : "clean");
        for (int variant = 0; variant < 4; variant++) {
            Vm v; v.create(); setup(v, false); Side S{&v.w, &fns, "", objs, nullptr}; cur = &S; bool okc = v.compile({{text, "c"}}); if (!okc) { c.fail("rejected", v.errors() + "\n" + text); v.destroy(); return; } v.finalize(); c.evals++; std::unique_ptr<Vm> t; Vm *live = &v; str injected;
            if (variant == 1) { nkxSetGarbageCollectionInterval(v.vm(), 1); nkxSetGarbageCollectionNewObjectInterval(v.vm(), 1); v.run(); }
            else if (variant == 2) { // the host calls into the machine between instructions and from inside rec()
                int q = 0; bool inside = false; uint64_t every = 1 + r.below(6); int pick = -1; for (int k = 0; k < nn + ns; k++) if ((fns[k].beh == B_ARG || fns[k].beh == B_CONST) && !(fns[k].native && fns[k].checked && fns[k].n)) pick = k;
                auto poke = [&] { if (pick < 0 || inside || v.hasErrors() || ++q % every) return; inside = true; str sv = S.log; Fn &f = fns[pick]; NKValue *g = nkxVmFindGlobalVariable(v.vm(), nullptr, f.name.c_str()); if (g && g->type == NK_VALUETYPE_FUNCTIONID) { NKValue fv = *g, ret; std::vector<NKValue> a; for (int i = 0; i < f.n; i++) { NKValue x; memset(&x, 0, sizeof x); nkxValueSetInt(v.vm(), &x, 100 + i); a.push_back(x); } memset(&ret, 0, sizeof ret); nkxVmCallFunction(v.vm(), &fv, (uint32_t)a.size(), a.data(), &ret); str want1 = f.beh == B_CONST ? render(f.c, fns) : f.j < f.n ? fmt("i%d", 100 + f.j) : f.native ? str("i-1") : render(f.c, fns); if (injected.empty() && renderNK(S, &ret) != want1 && want1[0] != 'o' && want1[0] != 'F') injected = "host call in the middle returned " + renderNK(S, &ret) + ", expected " + want1; c.count("host_calls_in_the_middle"); } S.log = sv; inside = false; };
                S.inject = poke; for (int i = 0; i < 200000 && !v.ended(); i++) { poke(); v.step(1); } }
            else if (variant == 3) { // continue in a loaded machine
                int stop = r.below(400); for (int i = 0; i < stop && !v.ended(); i++) v.step(1); if (!v.ended()) { str img; if (!v.save(img)) { c.fail("save failed", v.errors()); v.destroy(); return; } t.reset(new Vm()); t->create(false); setup(*t, true); Side S2 = S; if (!t->load(img)) { c.fail("load failed", t->errors() + "\n" + text); v.destroy(); t->destroy(); return; } S.w = &t->w; live = t.get(); t->run(); c.count("loaded"); } }
            else v.run();
            str p; bool e = live->hasErrors(); str et = live->errors();
            if (injected.size()) p = injected; else if (S.log != want) p = "log differs: " + diffText(S.log, want, "real", "expected") + et; else if (e != wantErr) p = e ? "unexpected error: " + et : fmt("an error was expected at line %d, none reported", wantLine); else if (!e && !live->ended()) p = "did not finish";
            else if (e) { str f, m; int l = 0; std::vector<str> el = live->errorList(); if (el.empty() || !parseErr(el[0], f, l, m) || f != "c" || l != wantLine) p = fmt("error expected at c:%d: ", wantLine) + et; }
            if (p.empty() && !e) { // the host calls the functions from outside, after the end
                for (int i = 0; i < 6 && p.empty(); i++) { int k = r.below(nn + ns); std::vector<Val> a = argsFor(k, true); log.clear(); err = over = false; budget = 400; Val res = call(k, a, 0); if (over) continue; if (err && i < 5) continue; S.log.clear(); S.inject = nullptr; Val fv; fv.t = 'F'; fv.k = k; NKValue f = toNK(S, fv), ret; memset(&ret, 0, sizeof ret); std::vector<NKValue> na; for (auto &x : a) na.push_back(toNK(S, x)); nkxVmCallFunction(live->vm(), &f, (uint32_t)na.size(), na.size() ? na.data() : nullptr, &ret); c.count("host_calls"); bool he = live->hasErrors(); if (S.log != log) p = "host call: log differs: " + diffText(S.log, log, "real", "expected"); else if (he != err) p = err ? "host call: an error was expected" : "host call: unexpected error: " + live->errors(); else if (!he && renderNK(S, &ret) != render(res, fns)) p = "host call of " + fns[k].name + " returned " + renderNK(S, &ret) + ", expected " + render(res, fns); if (he) break; } }
            if (p.size()) c.fail(p.substr(0, p.find(':')), fmt("variant %d: ", variant) + p + "\n" + text);
            if (t) { str n = t->w.note; t->destroy(); n += t->leakReport(); if (n.size()) c.fail("loaded machine", n); } v.destroy(); str n = v.leakReport() + v.w.note; if (n.size()) c.fail("machine", n + "\n" + text); cur = nullptr; if (p.size()) return; log = want; err = wantErr; errLine = wantLine; }
        c.distinct(hashStr(want)); c.sample(text); }
};
// Many arguments: what the host, a native, a method, a callable object or a coroutine hands over arrives in full and in order.
struct Wide { std::vector<NKValue> want; std::vector<str> wantText; int seen = 0, mode = 0; uint32_t pick = 0; str bad; NKValue fv; NKValue result; } *wd;
bool same(NKVM *vm, NKValue *a, size_t i) { if (wd->wantText[i].size()) { const char *s = a->type == NK_VALUETYPE_STRING ? nkxValueToString(vm, a) : nullptr; return s && wd->wantText[i] == s; } return a->type == NK_VALUETYPE_INT && a->intData == wd->want[i].intData; }
void wrec(NKVMFunctionCallbackData *d) { wd->seen++; if (d->argumentCount != wd->want.size()) { wd->bad = fmt("%u arguments arrived, %zu given", d->argumentCount, wd->want.size()); return; } for (uint32_t i = 0; i < d->argumentCount; i++) if (!same(d->vm, &d->arguments[i], i)) { wd->bad = fmt("argument %u of %u is wrong", i, d->argumentCount); return; } if (d->argumentCount) d->returnValue = d->arguments[wd->pick % d->argumentCount]; }
void wpass(NKVMFunctionCallbackData *d) { if (!d->argumentCount) return; std::vector<NKValue> a(d->arguments + 1, d->arguments + d->argumentCount); NKValue f = d->arguments[0], r; memset(&r, 0, sizeof r); nkxVmCallFunction(d->vm, &f, (uint32_t)a.size(), a.data(), &r); if (!nkxVmHasErrors(d->vm)) d->returnValue = r; }
void c19wide(Ctx &c, Rng &r) {
    Wide W; wd = &W; int n = r.pct(50) ? r.range(1, 200) : r.pct(70) ? r.range(201, 700) : r.range(701, 3000); bool small = n <= 190; W.pick = r.below(n);
    std::vector<str> names, lits; for (int i = 0; i < n; i++) names.push_back(fmt("p%d", i)); auto join = [](const std::vector<str> &v, size_t from = 0, const char *head = "") { str s = head; for (size_t i = from; i < v.size(); i++) s += (i > from || *head ? ", " : "") + v[i]; return s; };
    for (int i = 0; i < n; i++) { NKValue v; memset(&v, 0, sizeof v); v.type = NK_VALUETYPE_INT; v.intData = (nkint32_t)(i * 7919 + 3); str t; if (r.pct(10)) t = fmt("s%d", i); W.want.push_back(v); W.wantText.push_back(t); lits.push_back(t.size() ? "\"" + t + "\"" : fmt("%d", v.intData)); }
    str t = "var kept = 11; function whole(" + join(names) + ") { var l1 = 5; var l2 = " + names[W.pick] + "; " + (small ? "wrec(" + join(names) + "); " : "") + "kept = " + names[n - 1] + "; if(l1 == 5) { var l3 = 1; l1 = l1 + l3; } if(l1 != 6) { return nil; } return l2; }\nfunction any(x) { return x; }\nvar got; var k2;\n"; int how = r.below(small ? 8 : 3);
    if (small) switch (how) { case 3: t += "got = wrec(" + join(lits) + ");"; break; case 4: t += "got = whole(" + join(lits) + ");"; break; case 5: t += "var o = object(); o._exec = wrec; o._data = " + lits[0] + "; got = o(" + join(lits, 1) + ");"; break; case 6: t += "got = resume(coroutine(whole, " + join(lits) + "));"; break; case 7: t += "got = wpass(whole, " + join(lits) + ");"; break; }
    t += " k2 = kept;\n"; c.text(t.substr(0, 20000)); c.phase("many arguments"); Vm v; v.create(); nkxVmSetupExternalFunction(v.vm(), v.w.cs, "wrec", wrec, nktrue, NK_INVALID_VALUE); nkxVmSetupExternalFunction(v.vm(), v.w.cs, "wpass", wpass, nktrue, NK_INVALID_VALUE); str p;
    if (!v.compile({{t, "w"}})) p = "well-formed program rejected: " + v.errors(); v.finalize(); c.evals++; uint32_t ck = W.pick; bool whole = how == 4 || how == 6 || how == 7 || how == 1; int lastWant = n - 1;
    if (p.empty()) { if (r.pct(30)) { nkxSetGarbageCollectionInterval(v.vm(), 1 + r.below(4)); } if (r.pct(30)) { for (int i = 0; i < 2000000 && !v.ended(); i++) v.step(1 + r.below(3)); } else v.run(); if (v.hasErrors() || !v.ended()) p = "unexpected error: " + v.errors(); }
    auto check = [&](NKValue *g, size_t i, const char *what) { if (p.size()) return; if (!g || !same(v.vm(), g, i)) p = fmt("%s: wrong value (expected argument %zu)", what, i); };
    if (p.empty() && how >= 3) { check(nkxVmFindGlobalVariable(v.vm(), nullptr, "got"), ck, "result"); if (whole) check(nkxVmFindGlobalVariable(v.vm(), nullptr, "k2"), lastWant, "last parameter"); if (p.empty() && W.seen != 1) p = fmt("native called %d times", W.seen); }
    if (p.empty() && how < 3) { // the host itself calls
        std::vector<NKValue> a; for (int i = 0; i < n; i++) { NKValue x = W.want[i]; if (W.wantText[i].size()) nkxValueSetString(v.vm(), &x, W.wantText[i].c_str()); a.push_back(x); }
        // texts are kept alive by an object the host holds
        NKValue hold; memset(&hold, 0, sizeof hold); nkxCreateObject(v.vm(), &hold); nkxVmObjectAcquireHandle(v.vm(), &hold); for (int i = 0; i < n; i++) { a[i] = W.want[i]; if (W.wantText[i].size()) { NKValue k; memset(&k, 0, sizeof k); nkxValueSetInt(v.vm(), &k, i); NKValue x; memset(&x, 0, sizeof x); nkxValueSetString(v.vm(), &x, W.wantText[i].c_str()); NKValue *e = nkxVmObjectFindOrAddEntry(v.vm(), &hold, &k, nkfalse); if (e) *e = x; a[i] = x; } }
        for (int q = 0; q < 3 && p.empty(); q++) { NKValue f = *nkxVmFindGlobalVariable(v.vm(), nullptr, how == 0 ? "wrec" : how == 1 ? "whole" : "wpass"), res; memset(&res, 0, sizeof res); std::vector<NKValue> b = a; if (how == 2) b.insert(b.begin(), *nkxVmFindGlobalVariable(v.vm(), nullptr, "wrec")); int before = W.seen; nkxVmCallFunction(v.vm(), &f, (uint32_t)b.size(), b.data(), &res);
            if (v.hasErrors()) p = "unexpected error: " + v.errors(); if (p.empty() && W.bad.empty()) { check(&res, ck, "result"); if (how == 1) check(nkxVmFindGlobalVariable(v.vm(), nullptr, "kept"), lastWant, "last parameter"); if (how != 1 && W.seen != before + 1) p = "native not called"; } if (r.pct(30)) nkxVmGarbageCollect(v.vm()); }
        if (p.empty() && how == 1) { // a wrong number is refused
            NKValue f = *nkxVmFindGlobalVariable(v.vm(), nullptr, "whole"), res; memset(&res, 0, sizeof res); std::vector<NKValue> b = a; static const int off[] = {-1, 1, 256, -256, 128}; int d = off[r.below(5)]; if ((int)b.size() + d < 0) d = 1; NKValue z; memset(&z, 0, sizeof z); b.resize(b.size() + d, z); for (auto &x : b) if (x.type == NK_VALUETYPE_NIL && d > 0) nkxValueSetInt(v.vm(), &x, 1); nkxVmCallFunction(v.vm(), &f, (uint32_t)b.size(), b.data(), &res); if (!v.hasErrors()) p = fmt("%zu arguments accepted for %d parameters", b.size(), n); }
        else nkxVmObjectReleaseHandle(v.vm(), &hold);
    }
    if (p.empty() && W.bad.size()) p = W.bad; c.maxi("most_arguments", n); c.count("wide_calls"); c.distinct(hashStr(t)); v.destroy(); str l = v.leakReport(); if (p.empty() && l.size()) p = l; if (p.size()) c.fail("many arguments: " + p.substr(0, p.find(':')), fmt("way %d, %d arguments: ", how, n) + p + "\n" + t.substr(0, 20000));
}
void c19(Ctx &c, Rng &r) { if (r.pct(5)) return c19wide(c, r); Case k(c, r.next()); k.run(); }
}
ENGINE(C19, c19);

// Reference interpreter: written from the language rules, independent of the library.
#include "lang.hpp"
#include <cmath>
#include <sys/mman.h>
#include <ucontext.h>

struct MKey {
    char t; int i; uint32_t f; const str *s; const void *p;
    bool operator<(const MKey &o) const {
        if (t != o.t) return t < o.t;
        if (t == 'i') return i < o.i;
        if (t == 'f') return f < o.f;
        if (t == 's') return *s < *o.s;
        return p < o.p;
    }
};
struct MFiber;
struct MObj { std::map<MKey, MV> m; int cls = 0; /*0 plain 1 coroutine 2 box*/ MFiber *fb = nullptr; int payload = 0; MV held; int handles = 0; };
struct Frame { MV *slot; Frame *up; Stmt *cur; MV ret; int depth; };
struct MFunVal { Func *f; int native; };
struct MFiber {
    ucontext_t uc; MObj *obj = nullptr; MFiber *resumer = nullptr; void *stack = nullptr;
    int state = 0; // 0 created 1 running/suspended 2 finished
    bool active = false; int nativeDepth = 0; Func *fn = nullptr; int native = -1; std::vector<MV> args; MV xfer; int depth = 0; int nest = 0;
};
int mAtoi(const char *s) { return (int)(uint32_t)(uint64_t)atol(s); }
str mFloatToStr(float f) { return fmt("%f", (double)f); }

namespace {
const size_t STK = 256 * 1024;
std::vector<void *> stackPool;
enum { OK = 0, BRK, RET, STOP };
struct M;
M *gM;
struct M {
    Program &p; const ModelOpts &o; ModelResult r;
    std::vector<std::unique_ptr<MObj>> objs; std::vector<std::unique_ptr<str>> strs; std::vector<std::unique_ptr<MFiber>> fibers;
    std::map<std::pair<Func *, int>, MFunVal> fvals; std::map<str, const str *> intern;
    std::vector<MV *> frames; // slot arrays
    std::vector<MV> globals; std::vector<void *> usedStacks;
    MFiber *cur = nullptr; ucontext_t mainCtx;
    M(Program &p, const ModelOpts &o) : p(p), o(o) { globals.resize(p.nGlobals + 1); for (auto &g : globals) { g.t = 'i'; g.fn = nullptr; g.i = 0; } }
    ~M() { for (auto *f : frames) free(f); for (auto *s : usedStacks) stackPool.push_back(s); }

    int err(Frame *f, const char *what) {
        if (r.error || r.discard) return STOP;
        r.error = true; r.errWhat = what;
        r.errStmt = f->cur; r.errCond = inCond;
        return STOP;
    }
    bool inCond = false; std::set<Var *> unset;
    int disc(const char *why) { if (!r.discard && !r.error) { r.discard = true; r.why = why; } return STOP; }
    const str *mk(const str &s) { auto it = intern.find(s); if (it != intern.end()) return it->second; strs.emplace_back(new str(s)); intern[s] = strs.back().get(); return strs.back().get(); }
    static MV I(int i) { MV v; v.t = 'i'; v.fn = nullptr; v.i = i; return v; }
    static MV Fl(float f) { MV v; v.t = 'f'; v.fn = nullptr; v.f = f; return v; }
    static MV N() { return MV(); }
    MV S(const str &s) { MV v; v.t = 's'; v.s = mk(s); return v; }
    MV O(int cls) { objs.emplace_back(new MObj()); objs.back()->cls = cls; MV v; v.t = 'o'; v.o = objs.back().get(); r.objects++; return v; }
    MV Fn(Func *f, int native) { auto &x = fvals[{f, native}]; x.f = f; x.native = native; MV v; v.t = 'F'; v.fn = &x; return v; }

    int toInt(Frame *f, const MV &v, int &out) {
        switch (v.t) {
        case 'i': out = v.i; return OK;
        case 'f': { float x = v.f; if (std::isnan(x)) return disc("nan to int"); if (x >= 2147483648.0f || x < -2147483648.0f) out = INT32_MIN; else out = (int)x; return OK; }
        case 's': out = mAtoi(v.s->c_str()); return OK;
        case 'o': out = 1; return OK;
        case 'n': out = 0; return OK;
        default: out = 0; return err(f, "to int");
        }
    }
    int toFlt(Frame *f, const MV &v, float &out) {
        switch (v.t) {
        case 'i': out = (float)v.i; return OK;
        case 'f': out = v.f; return OK;
        case 's': out = (float)atof(v.s->c_str()); return OK;
        case 'n': out = 0; return OK;
        default: out = 0; return err(f, "to float");
        }
    }
    int toStr(Frame *f, const MV &v, str &out) {
        switch (v.t) {
        case 'i': out = fmt("%d", v.i); return OK;
        case 'f': if (std::isnan(v.f)) return disc("nan to string"); out = mFloatToStr(v.f); return OK;
        case 's': out = *v.s; return OK;
        case 'n': out = "<nil:0>"; return OK;
        default: return disc("object to string");
        }
    }
    // cmp result; wantOrder: ordering needed
    int cmp(Frame *f, const MV &a, const MV &b, bool order, int &out) {
        if (a.t == 'n') { out = b.t == 'n' ? 0 : 1; return OK; }
        if (b.t == 'n') { out = -1; return OK; }
        switch (a.t) {
        case 'i': { int y; if (toInt(f, b, y)) return STOP; out = a.i > y ? 1 : a.i == y ? 0 : -1; return OK; }
        case 'f': { float y; if (toFlt(f, b, y)) return STOP; out = a.f > y ? 1 : a.f == y ? 0 : -1; return OK; }
        case 's': {
            if (b.t == 'o' || b.t == 'F') { if (!order && (a.s->empty() || (*a.s)[0] != '<')) { out = 1; return OK; } return disc("string vs object"); }
            str y; if (toStr(f, b, y)) return STOP;
            const char *p = a.s->c_str(), *q = y.c_str(); int c = 0;
            for (size_t i = 0;; i++) { signed char x = (signed char)p[i], z = (signed char)q[i]; if (x != z || !x || !z) { c = x > z ? 1 : x < z ? -1 : 0; break; } }
            out = c; return OK; }
        case 'o': if (b.t == 'o' && a.o == b.o) { out = 0; return OK; } if (order) return disc("object order"); out = 1; return OK;
        case 'F': if (b.t == 'F' && a.fn == b.fn) { out = 0; return OK; } if (order) return disc("function order"); out = 1; return OK;
        }
        return disc("cmp");
    }
    int key(const MV &k, MKey &out) {
        out.t = k.t; out.i = 0; out.f = 0; out.s = nullptr; out.p = nullptr;
        switch (k.t) {
        case 'i': out.i = k.i; break;
        case 'f': { if (std::isnan(k.f)) return disc("nan key"); float f = k.f == 0 ? 0.0f : k.f; memcpy(&out.f, &f, 4); break; }
        case 's': out.s = k.s; break;
        case 'o': out.p = k.o; break;
        case 'F': out.p = k.fn; break;
        }
        return OK;
    }
    MV get(MObj *ob, const MKey &k) { auto it = ob->m.find(k); return it == ob->m.end() ? N() : it->second; }
    int bin(Frame *f, int op, const MV &a, const MV &b, MV &out) {
        switch (op) {
        case O_ADD: case O_SUB: case O_MUL: case O_DIV: case O_MOD:
            if (a.t == 'i') {
                int y; if (toInt(f, b, y)) return STOP; uint32_t x = (uint32_t)a.i, z = (uint32_t)y;
                if (op == O_ADD) out = I((int)(x + z)); else if (op == O_SUB) out = I((int)(x - z)); else if (op == O_MUL) out = I((int)(x * z));
                else { if (y == 0 || (a.i == INT32_MIN && y == -1)) return err(f, "int division"); out = I(op == O_DIV ? a.i / y : a.i % y); }
                return OK;
            }
            if (a.t == 'f' && op != O_MOD) {
                float y; if (toFlt(f, b, y)) return STOP; volatile float z;
                if (op == O_ADD) z = a.f + y; else if (op == O_SUB) z = a.f - y; else if (op == O_MUL) z = a.f * y; else z = a.f / y;
                out = Fl(z); return OK;
            }
            if (a.t == 's' && op == O_ADD) { str y; if (toStr(f, b, y)) return STOP; if (a.s->size() + y.size() > 20000) return disc("string too long"); out = S(*a.s + y); return OK; }
            return err(f, "arith type");
        case O_AND: case O_OR: { int x, y; int e2 = toInt(f, b, y); if (e2) return STOP; if (toInt(f, a, x)) return STOP; out = I(op == O_AND ? (x && y) : (x || y)); return OK; }
        case O_SEQ: { if (a.t != b.t) { out = I(0); return OK; } int c; if (cmp(f, a, b, false, c)) return STOP; out = I(c == 0); return OK; }
        case O_EQ: case O_NE: { int c; if (cmp(f, a, b, false, c)) return STOP; out = I((c == 0) == (op == O_EQ)); return OK; }
        default: { int c; if (cmp(f, a, b, true, c)) return STOP; out = I(op == O_GT ? c == 1 : op == O_LT ? c == -1 : op == O_GE ? c >= 0 : c <= 0); return OK; }
        }
    }
    MV &var(Frame *f, Var *v) { return v->global ? globals[v->slot] : f->slot[v->slot]; }
    int tick(Frame *f) { if (++r.steps > o.maxSteps) return disc("steps"); return OK; }

    int assign(Frame *f, Expr *l, const MV &v) {
        if (l->k == E_VAR) { unset.erase(l->var); var(f, l->var) = v; return OK; }
        MV ob, k; if (eval(f, l->a[0], ob)) return STOP;
        if (l->k == E_INDEX) { if (eval(f, l->a[1], k)) return STOP; } else k = S(l->s);
        if (ob.t != 'o') return err(f, "set field on non-object");
        MKey kk; if (key(k, kk)) return STOP;
        if (v.t == 'n') ob.o->m.erase(kk); else ob.o->m[kk] = v;
        return OK;
    }
    int newFrame(Frame &g, int slots, Frame *up) {
        g.slot = (MV *)calloc(slots + 4, sizeof(MV)); for (int i = 0; i < slots + 4; i++) g.slot[i].t = 'n';
        frames.push_back(g.slot); g.up = up; g.cur = nullptr; g.ret = I(0); g.depth = up ? up->depth + 1 : 0; return OK;
    }
    int callFunc(Frame *f, Func *fn, const MV *args, int n, MV &out) {
        if (cur->depth > o.maxDepth) return disc("depth");
        r.calls++;
        Frame g; newFrame(g, fn->nslots, f);
        for (int i = 0; i < n; i++) g.slot[fn->params[i]->slot] = args[i];
        cur->depth++; if (cur->depth > r.maxDepth) r.maxDepth = cur->depth;
        bool sc = inCond; inCond = false;
        int s = block(&g, fn->body);
        if (s == STOP) return STOP;
        inCond = sc;
        cur->depth--; out = s == RET ? g.ret : I(0); return OK;
    }
    // resolves callee, may insert _data
    int resolve(Frame *f, MV &c, std::vector<MV> &args) {
        int n = 0;
        while (c.t == 'o') {
            if (++n > 10) return err(f, "too many redirections");
            MObj *ob = c.o; MKey k; k.t = 's'; k.s = mk("_exec"); MV ex = get(ob, k); k.s = mk("_data"); 
            auto it = ob->m.find(k); if (it != ob->m.end()) args.insert(args.begin(), it->second);
            c = ex;
        }
        if (c.t != 'F') return err(f, "call of non-function");
        return OK;
    }
    int call(Frame *f, MV c, std::vector<MV> *args, MV &out) {
        if (tick(f)) return STOP;
        if (resolve(f, c, *args)) return STOP;
        MFunVal *fv = (MFunVal *)c.fn;
        if (fv->f) {
            if (fv->f->params.size() != args->size()) return err(f, "arg count");
            return callFunc(f, fv->f, args->data(), (int)args->size(), out);
        }
        return native(f, p.natives[fv->native], *args, out);
    }
    str canon(const MV &v, std::map<const void *, int> &ids) {
        switch (v.t) {
        case 'i': return fmt("i%d", v.i);
        case 'f': { if (std::isnan(v.f)) return "fNaN"; uint32_t b; memcpy(&b, &v.f, 4); return fmt("f%08x", b); }
        case 's': return fmt("s%zu:", v.s->size()) + visible(*v.s);
        case 'n': return "n";
        case 'F': { int k = ids.insert({v.fn, (int)ids.size()}).first->second; return fmt("F%d", k); }
        case 'o': { int k = ids.insert({v.o, (int)ids.size()}).first->second;
            if (v.o->cls == 1) return fmt("C%d#%zu", k, v.o->m.size());
            if (v.o->cls == 2) return fmt("B%d:%d#%zu", k, v.o->payload, v.o->m.size());
            return fmt("O%d#%zu", k, v.o->m.size()); }
        }
        return "?";
    }
    void dump(const MV &v, std::map<const void *, int> &ids, int depth, str &out) {
        bool seen = v.t == 'o' && ids.count(v.o);
        out += canon(v, ids);
        if (v.t != 'o' || seen || depth <= 0) return;
        out += "{";
        for (auto &k : p.keys) {
            MKey kk; kk.t = k.t; kk.i = k.i; kk.s = nullptr; kk.p = nullptr; kk.f = 0; if (k.t != 'i') kk.i = 0;
            if (k.t == 'f') { float x = k.f; memcpy(&kk.f, &x, 4); }
            if (k.t == 's') kk.s = mk(k.s);
            auto it = v.o->m.find(kk); if (it == v.o->m.end()) continue;
            out += (k.t == 'i' ? fmt("%d", k.i) : k.t == 'f' ? fmt("%gf", k.f) : visible(k.s)) + "=";
            dump(it->second, ids, depth - 1, out); out += ";";
        }
        if (v.o->cls == 2) { out += "held="; dump(v.o->held, ids, depth - 1, out); }
        out += "}";
    }
    void rec(const str &s) { r.trace += s; r.trace += "\n"; r.records++; }
    int native(Frame *f, const str &nm, std::vector<MV> &a, MV &out) {
        out = N(); r.ncalls++;
        size_t n = a.size();
        auto isBox = [&](const MV &v) { return v.t == 'o' && v.o->cls == 2; };
        if (nm == "out") { str s = "out"; std::map<const void *, int> ids; for (auto &v : a) s += " " + canon(v, ids); rec(s); return OK; }
        if (nm == "dump") { str s = "dump"; std::map<const void *, int> ids; for (auto &v : a) { s += " "; dump(v, ids, 3, s); } rec(s); return OK; }
        if (nm == "print") { for (auto &v : a) { if (v.t == 'o') r.printed += "<object>"; else if (v.t == 'F') r.printed += "<function>"; else { str x; if (toStr(f, v, x)) return STOP; r.printed += x; } } r.records++; return OK; }
        if (nm == "stringGetASCII") { int i; if (n != 2 || a[0].t != 's' || a[1].t != 'i') return err(f, "argtype"); i = a[1].i; if (i < 0 || i >= (int)a[0].s->size()) return err(f, "index"); out = S(str(1, (*a[0].s)[i])); return OK; }
        if (nm == "stringGetLengthASCII") { if (n != 1 || a[0].t != 's') return err(f, "argtype"); out = I((int)a[0].s->size()); return OK; }
        if (nm == "loadFile") { if (n != 1 || a[0].t != 's') return err(f, "argtype"); auto it = p.loadable.find(*a[0].s); if (it == p.loadable.end()) return err(f, "cannot open"); out = S(str(it->second.c_str())); return OK; }
        if (nm == "tick") return OK;
        if (nm == "id") { if (n != 1) return err(f, "nargs"); out = a[0]; return OK; }
        if (nm == "cb") {
            if (n < 1) return err(f, "nargs"); if (a[0].t != 'F') return err(f, "cb of non-function");
            MV c = a[0]; std::vector<MV> *rest = new std::vector<MV>(a.begin() + 1, a.end()); keepVec(rest);
            r.cbs++; cur->nativeDepth++; int s = call(f, c, rest, out); if (s == STOP) return STOP; cur->nativeDepth--; return OK;
        }
        if (nm == "box") { if (n != 1 || a[0].t != 'i') return err(f, "argtype"); out = O(2); out.o->payload = a[0].i; r.boxes++; return OK; }
        if (nm == "boxget") { if (n != 1 || !isBox(a[0])) return err(f, "argtype"); out = I(a[0].o->payload); return OK; }
        if (nm == "boxset") { if (n != 2 || !isBox(a[0]) || a[1].t != 'i') return err(f, "argtype"); a[0].o->payload = a[1].i; out = a[0]; return OK; }
        if (nm == "boxref") { if (n != 2 || !isBox(a[0])) return err(f, "argtype"); a[0].o->held = a[1]; out = a[1]; return OK; }
        if (nm == "boxderef") { if (n != 1 || !isBox(a[0])) return err(f, "argtype"); out = a[0].o->held; return OK; }
        if (nm == "fail") return err(f, "fail");
        if (nm == "nt_i") { if (n != 1 || a[0].t != 'i') return err(f, "argtype"); out = I((int)((uint32_t)a[0].i + 1u)); return OK; }
        if (nm == "nt_if") { if (n != 2 || a[0].t != 'i' || a[1].t != 'f') return err(f, "argtype"); out = a[1]; return OK; }
        if (nm == "nt_s") { if (n != 1 || a[0].t != 's') return err(f, "argtype"); out = I((int)a[0].s->size()); return OK; }
        if (nm == "nt_fo") { if (n != 3 || a[0].t != 'F' || a[1].t != 'o') return err(f, "argtype"); out = a[2]; return OK; }
        if (nm == "nt_sw") { if (n != 2 || a[1].t != 's') return err(f, "argtype"); out = a[1]; return OK; }
        if (nm == "nt_0") { if (n != 0) return err(f, "argtype"); out = I(77); return OK; }
        if (nm == "keep") { if (n != 1 || a[0].t != 'o') return err(f, "argtype"); a[0].o->handles++; kept.push_back(a[0]); out = I(a[0].o->handles); return OK; }
        if (nm == "drop") { if (n != 1 || a[0].t != 'o' || !a[0].o->handles) return err(f, "argtype"); a[0].o->handles--; for (size_t i = kept.size(); i--;) if (kept[i].o == a[0].o) { kept.erase(kept.begin() + i); break; } out = I(a[0].o->handles); return OK; }
        return disc("unknown native");
    }
    static void entry() { gM->fiberMain(); }
    void fiberMain() {
        MFiber *fb = cur; Frame f; newFrame(f, 0, nullptr);
        f.cur = nullptr;
        MV out; int s;
        s = callFunc(&f, fb->fn, fb->args.data(), (int)fb->args.size(), out);
        if (s == STOP) { swapcontext(&fb->uc, &mainCtx); return; }
        fb->state = 2; fb->active = false; MFiber *to = fb->resumer; fb->resumer = nullptr; to->xfer = out; cur = to;
        setcontext(&to->uc);
    }
    int resume(Frame *f, const MV &c, const MV &v, MV &out) {
        if (c.t != 'o' || c.o->cls != 1) return err(f, "resume of non-coroutine");
        MFiber *fb = c.o->fb; r.resumes++;
        if (fb->state == 2) { out = N(); return OK; }
        if (fb->state == 3) return err(f, "resume of a broken coroutine");
        if (fb->active) return err(f, "resume of active");
        MFiber *me = cur; fb->active = true; fb->resumer = me; fb->nest = me->nest + 1; if (fb->nest > r.maxCoroNest) r.maxCoroNest = fb->nest;
        if (fb->nest > 40) return disc("coro nest");
        bool sc = inCond;
        if (fb->state == 0) {
            fb->state = 1;
            if (stackPool.empty()) fb->stack = mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); else { fb->stack = stackPool.back(); stackPool.pop_back(); }
            usedStacks.push_back(fb->stack);
            getcontext(&fb->uc); fb->uc.uc_stack.ss_sp = fb->stack; fb->uc.uc_stack.ss_size = STK; fb->uc.uc_link = nullptr;
            makecontext(&fb->uc, (void (*)())entry, 0);
        } else fb->xfer = v;
        cur = fb;
        swapcontext(&me->uc, &fb->uc);
        inCond = sc;
        out = me->xfer; return OK;
    }
    int yield(Frame *f, const MV &v, MV &out) {
        MFiber *fb = cur;
        if (!fb->resumer) return err(f, "yield at root");
        if (fb->nativeDepth) return err(f, "yield across native");
        r.yields++;
        MFiber *to = fb->resumer; fb->resumer = nullptr; fb->active = false; to->xfer = v; cur = to;
        bool sc = inCond;
        swapcontext(&fb->uc, &to->uc);
        inCond = sc;
        out = fb->xfer; return OK;
    }
    int eval(Frame *f, Expr *e, MV &out) {
        if (tick(f)) return STOP;
        switch (e->k) {
        case E_INT: out = I(e->ival); return OK;
        case E_FLT: out = Fl((float)atof(e->s.c_str())); return OK;
        case E_STR: out = S(e->s); return OK;
        case E_NIL: out = N(); return OK;
        case E_VAR: if (unset.size() && unset.count(e->var)) return disc("variable whose declaration failed"); if (e->var->native) out = Fn(nullptr, e->var->nativeId); else out = var(f, e->var); return OK;
        case E_PAREN: return eval(f, e->a[0], out);
        case E_BIN: { MV a, b; if (eval(f, e->a[0], a) || eval(f, e->a[1], b)) return STOP; return bin(f, e->op, a, b, out); }
        case E_NEG: { MV a; if (eval(f, e->a[0], a)) return STOP; if (a.t == 'i') { out = I((int)(0u - (uint32_t)a.i)); return OK; } if (a.t == 'f') { out = Fl(-a.f); return OK; } return err(f, "negate"); }
        case E_NOT: { MV a; int i; if (eval(f, e->a[0], a) || toInt(f, a, i)) return STOP; out = I(!i); return OK; }
        case E_PRE: case E_POST: {
            MV a, b; if (eval(f, e->a[0], a)) return STOP; if (bin(f, e->op > 0 ? O_ADD : O_SUB, a, I(1), b)) return STOP;
            if (assign(f, e->a[0], b)) return STOP;
            if (e->k == E_PRE || e->ival /*discarded*/) { out = b; return OK; }
            return bin(f, e->op > 0 ? O_SUB : O_ADD, b, I(1), out); }
        case E_ASSIGN: { if (eval(f, e->a[1], out)) return STOP; return assign(f, e->a[0], out); }
        case E_INDEX: case E_FIELD: {
            MV ob, k; if (eval(f, e->a[0], ob)) return STOP; if (e->k == E_INDEX) { if (eval(f, e->a[1], k)) return STOP; } else k = S(e->s);
            if (ob.t != 'o') return err(f, "get field of non-object"); MKey kk; if (key(k, kk)) return STOP; out = get(ob.o, kk); return OK; }
        case E_CALL: {
            MV c; if (eval(f, e->a[0], c)) return STOP;
            std::vector<MV> *args = new std::vector<MV>(); keepVec(args);
            for (size_t i = 1; i < e->a.size(); i++) { MV x; if (eval(f, e->a[i], x)) return STOP; args->push_back(x); }
            return call(f, c, args, out); }
        case E_METHOD: {
            MV ob; if (eval(f, e->a[0], ob)) return STOP; if (ob.t != 'o') return err(f, "get field of non-object");
            MKey kk; if (key(S(e->s), kk)) return STOP; MV c = get(ob.o, kk);
            std::vector<MV> *args = new std::vector<MV>(); keepVec(args); args->push_back(ob);
            for (size_t i = 1; i < e->a.size(); i++) { MV x; if (eval(f, e->a[i], x)) return STOP; args->push_back(x); }
            return call(f, c, args, out); }
        case E_FUNC: out = Fn(e->fn, -1); return OK;
        case E_NEWOBJ: case E_OBJECT: out = O(0); return OK;
        case E_LEN: { MV a; if (eval(f, e->a[0], a)) return STOP; if (a.t != 'o') return err(f, "len"); out = I((int)a.o->m.size()); return OK; }
        case E_CORO: {
            MV c; if (eval(f, e->a[0], c)) return STOP;
            std::vector<MV> *args = new std::vector<MV>(); keepVec(args);
            for (size_t i = 1; i < e->a.size(); i++) { MV x; if (eval(f, e->a[i], x)) return STOP; args->push_back(x); }
            if (resolve(f, c, *args)) return STOP;
            MFunVal *fv = (MFunVal *)c.fn;
            if (!fv->f) return err(f, "coroutine of native");
            if (fv->f->params.size() != args->size()) return err(f, "arg count");
            out = O(1); fibers.emplace_back(new MFiber()); MFiber *fb = fibers.back().get(); fb->obj = out.o; fb->fn = fv->f; fb->args = *args; out.o->fb = fb; r.corosMade++;
            return OK; }
        case E_YIELD: { MV a; if (e->a.size()) { if (eval(f, e->a[0], a)) return STOP; } return yield(f, a, out); }
        case E_RESUME: { MV a, b; if (eval(f, e->a[0], a)) return STOP; if (e->a.size() > 1) { if (eval(f, e->a[1], b)) return STOP; } return resume(f, a, b, out); }
        case E_ISFIN: { MV a; if (eval(f, e->a[0], a)) return STOP; if (a.t != 'o' || a.o->cls != 1) return err(f, "is_finished"); out = I(a.o->fb->state == 2); return OK; }
        }
        return disc("expr");
    }
    std::vector<MV> kept;
    std::vector<std::vector<MV> *> vecs; void keepVec(std::vector<MV> *v) { vecs.push_back(v); }
    int cond(Frame *f, Stmt *s, bool &out) { s_cur(f, s); inCond = true; MV v; int i; if (eval(f, s->e, v) || toInt(f, v, i)) return STOP; inCond = false; out = i != 0; return OK; }
    void s_cur(Frame *f, Stmt *s) { f->cur = s; }
    int block(Frame *f, std::vector<Stmt *> &b) { for (auto *s : b) { int k = exec(f, s); if (k) return k; } return OK; }
    int exec(Frame *f, Stmt *s) {
        if (tick(f)) return STOP;
        f->cur = s; MV v;
        switch (s->k) {
        case S_EXPR: return eval(f, s->e, v);
        case S_VAR: { v = I(0); if (s->e && eval(f, s->e, v)) return STOP; var(f, s->var) = v; return OK; }
        case S_RETURN: if (eval(f, s->e, v)) return STOP; f->ret = v; return RET;
        case S_IF: { bool c; if (cond(f, s, c)) return STOP; return block(f, c ? s->body : s->els); }
        case S_WHILE: for (;;) { bool c; if (tick(f) || cond(f, s, c)) return STOP; if (!c) return OK; int k = block(f, s->body); if (k == BRK) return OK; if (k) return k; }
        case S_DO: for (;;) { bool c; int k = block(f, s->body); if (k == BRK) return OK; if (k) return k; if (tick(f) || cond(f, s, c)) return STOP; if (!c) return OK; }
        case S_FOR: { int k = exec(f, s->init); if (k) return k;
            for (;;) { bool c; if (tick(f) || cond(f, s, c)) return STOP; if (!c) return OK; k = block(f, s->body); if (k == BRK) return OK; if (k) return k; s_cur(f, s); if (eval(f, s->e2, v)) return STOP; } }
        case S_BREAK: return BRK;
        case S_BLOCK: return block(f, s->body);
        case S_FUNC: var(f, s->var) = Fn(s->fn, -1); return OK;
        }
        return OK;
    }
    // marks increments whose value is discarded (statement root, for-increment root)
    void run() {
        for (auto &s : p.st) {
            if (s->k == S_EXPR && s->e->k == E_POST) s->e->ival = 1;
            if (s->k == S_FOR && s->e2 && s->e2->k == E_POST) s->e2->ival = 1;
        }
        MFiber root; cur = &root; Frame f; newFrame(f, p.rootSlots, nullptr);
        // Errors and discards inside a fiber come back here through mainCtx.
        volatile bool started = false;
        getcontext(&mainCtx);
        if (o.interactive) {
            // each piece runs until its end or a fault; a fault breaks every running coroutine and ends the piece
            static volatile size_t at; if (!started) { started = true; at = 0; }
            for (;;) {
                if (r.discard) break;
                if (r.error) {
                    size_t bad = at - 1; int pc = p.body[bad]->piece; r.caught.push_back({pc, r.errStmt, r.errCond, r.errWhat, r.trace.size(), r.printed.size()}); r.error = false; inCond = false;
                    for (MFiber *x = cur; x && x != &root; x = x->resumer) { x->state = 3; x->active = false; }
                    cur = &root; root.depth = 0; root.nativeDepth = 0; at = bad;
                    for (; at < p.body.size() && p.body[at]->piece == pc; at = at + 1) { Stmt *s = p.body[at]; if (s->k == S_VAR || s->k == S_FUNC) unset.insert(s->var); }
                    rec("-- fault");
                }
                if (at >= p.body.size()) break;
                at = at + 1; exec(&f, p.body[at - 1]);
            }
            for (auto *v : unset) r.unset.insert(v->name);
        } else
        if (!started) { started = true; block(&f, p.body); }
        if (!r.discard) for (auto *g : p.globals) { std::map<const void *, int> ids; str s; dump(globals[g->slot], ids, 3, s); r.globals[g->name] = s; }
        if (!r.discard) for (size_t i = 0; i < kept.size(); i++) { std::map<const void *, int> ids; str s; dump(kept[i], ids, 3, s); r.globals[fmt("#kept%zu", i)] = s + fmt(" h%d", kept[i].o->handles); }
        for (auto *v : vecs) delete v;
    }
};
}
ModelResult runModel(Program &p, const ModelOpts &o) {
    M m(p, o); M *save = gM; gM = &m; m.run(); gM = save; return std::move(m.r);
}

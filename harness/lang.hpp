// Abstract syntax of Ninkasi programs, printer, generator, and an independent
// reference interpreter (the model).  Nothing here uses the library.
#pragma once
#include "common.hpp"
#include <memory>
#include <set>

enum EK { E_INT, E_FLT, E_STR, E_NIL, E_VAR, E_BIN, E_NEG, E_NOT, E_PRE, E_POST, E_ASSIGN, E_INDEX, E_FIELD,
          E_CALL, E_METHOD, E_FUNC, E_NEWOBJ, E_OBJECT, E_LEN, E_CORO, E_YIELD, E_RESUME, E_ISFIN, E_PAREN };
enum SK { S_EXPR, S_VAR, S_RETURN, S_IF, S_WHILE, S_DO, S_FOR, S_BREAK, S_BLOCK, S_FUNC };
enum OpK { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_GT, O_LT, O_GE, O_LE, O_EQ, O_NE, O_SEQ, O_AND, O_OR };
extern const char *const opText[];
extern const int opPrec[];

struct Func;
struct Var {
    str name;
    bool global = false;    // static space of the root scope
    int slot = 0;           // global slot or slot within the owning frame
    bool native = false;    // predefined native function (name in Natives)
    int nativeId = -1;
    // generator-side typing
    char type = 'n';        // i f s o n c(oroutine) F(unction) b(ox) q(callable object)
    Func *sig = nullptr;
    bool readonly = false;  // loop counters and the like
    str shown;              // name as last printed
};
struct Expr {
    EK k;
    int op = 0;             // OpK, or +1/-1 for E_PRE/E_POST
    int ival = 0;
    float fval = 0;
    str s;                  // string value, literal text of a float, field name
    Var *var = nullptr;
    Func *fn = nullptr;
    std::vector<Expr *> a;  // operands
};
struct Stmt {
    SK k;
    int line = 0, endLine = 0, file = 0;   // first/last line of the statement's own tokens (header for compounds)
    int cline = 0, cend = 0, cfile = 0;               // do-while: lines of the condition
    Expr *e = nullptr, *e2 = nullptr;  // expression / condition / increment
    Var *var = nullptr;
    Func *fn = nullptr;
    std::vector<Stmt *> body, els;
    bool hasElse = false, elseIf = false;
    Stmt *init = nullptr;
    int piece = 0;
};
struct Func {
    str name;               // "" for anonymous
    std::vector<Var *> params;
    std::vector<Stmt *> body;
    int nslots = 0;
    int id = 0;
    char ret = 'i';
    bool yields = false;    // may yield when run (only used inside coroutines)
    bool recursive = false;
    int cost = 1;           // rough number of steps, to keep programs short
};
// A key usable for probing objects
struct Key { char t; int i; float f; str s; };

struct Program {
    std::vector<std::unique_ptr<Expr>> ex;
    std::vector<std::unique_ptr<Stmt>> st;
    std::vector<std::unique_ptr<Func>> fn;
    std::vector<std::unique_ptr<Var>> vr;
    std::vector<Stmt *> body;          // top level
    std::vector<Var *> globals;
    int nGlobals = 0, rootSlots = 0;
    std::vector<Key> keys;             // universe for dumps
    std::vector<str> natives;          // names of predefined natives used by E_VAR native
    std::map<str, int> feat;           // features generated
    std::map<str, str> loadable;       // files loadFile() can read (command-line interpreter)

    Expr *E(EK k) { ex.emplace_back(new Expr()); ex.back()->k = k; return ex.back().get(); }
    Stmt *S(SK k) { st.emplace_back(new Stmt()); st.back()->k = k; return st.back().get(); }
    Func *F() { fn.emplace_back(new Func()); fn.back()->id = (int)fn.size(); return fn.back().get(); }
    Var *V(const str &n) { vr.emplace_back(new Var()); vr.back()->name = n; return vr.back().get(); }
    Expr *I(int v) { Expr *e = E(E_INT); e->ival = v; return e; }
    Expr *Str(const str &s) { Expr *e = E(E_STR); e->s = s; return e; }
    Expr *Flt(const str &text) { Expr *e = E(E_FLT); e->s = text; e->fval = (float)atof(text.c_str()); return e; }
    Expr *R(Var *v) { Expr *e = E(E_VAR); e->var = v; return e; }
    Expr *B(int op, Expr *x, Expr *y) { Expr *e = E(E_BIN); e->op = op; e->a = {x, y}; return e; }
    Expr *Asg(Expr *l, Expr *r) { Expr *e = E(E_ASSIGN); e->a = {l, r}; return e; }
    Stmt *X(Expr *e) { Stmt *s = S(S_EXPR); s->e = e; return s; }
};

struct Piece { str text, file; };
struct PrintOpts {
    bool random = false;        // random layout (meaning preserving)
    bool parens = false;        // random redundant parentheses
    bool blocks = false;        // wrap single statements
    bool comments = false;
    bool rename = false;
    int pad = 0;                // put this many more characters in front of every name
    bool oneLine = false;       // everything on as few lines as possible
    bool crlf = false;
    bool directives = false;    // random #line / #file directives
    bool numberLines = true;    // write Stmt::line
    int pieces = 1;             // how many compiled pieces (split between top-level statements)
    Rng *r = nullptr;
    str fileBase = "f";
};
// Prints; sets line/file/piece of each statement. Files are named fileBase<k>.nks.
std::vector<Piece> printProgram(Program &p, const PrintOpts &o, std::vector<str> *files = nullptr);
str printExpr(Program &p, Expr *e);
str quoteStr(const str &s);
str floatText(float f);   // decimal text that reads back as f (f finite, >= 0)

// ---------------------------------------------------------------- generator
struct GenOpts {
    int stmts = 12;         // top-level statements
    int depth = 3;          // expression depth
    int nest = 3;           // statement nesting
    int funcs = 3;
    bool objects = true, coroutines = true, natives = true, boxes = false, methods = true, strings = true, floats = true;
    bool callbacks = true, callable = true, typedNatives = false, handles = false;
    int faultPct = 0;       // chance that the program contains a deliberate run-time fault
    bool objHeavy = false, coroHeavy = false, exprHeavy = false, funcHeavy = false, strHeavy = false, gcHeavy = false;
    bool tick = false;      // sprinkle tick() calls
    bool funcKeys = true;   // objects/functions as keys
    int outPct = 35;        // chance that a statement is an out(...)
    bool bigInts = true;
    int bulkPct = 0;        // chance that one construct of unusual size is part of the program
    int faultEvery = 0;     // chance, per statement, of a fault (interactive sessions)
};
void generate(Program &p, Rng &r, const GenOpts &g);

// ---------------------------------------------------------------- model
struct MObj; struct MFiber; struct MStr;
struct MV {
    char t = 'n';           // i f s o F n
    union { int i; float f; const str *s; MObj *o; void *fn; };
    MV() : i(0) { fn = nullptr; }
};
struct ModelResult {
    bool discard = false; str why;
    bool error = false; str errWhat; Stmt *errStmt = nullptr; bool errCond = false;   // location: of errStmt as last printed
    int errFile() const { return !errStmt ? 0 : errCond && errStmt->k == S_DO ? errStmt->cfile : errStmt->file; }
    int errLine() const { return !errStmt ? 0 : errCond && errStmt->k == S_DO ? errStmt->cline : errStmt->line; }
    int errEnd() const { return !errStmt ? 0 : errCond && errStmt->k == S_DO ? errStmt->cend : errStmt->endLine; }
    str trace;              // one record per line
    str printed;            // output of print() (command-line interpreter), objects and functions as <object> and <function>
    int records = 0;
    std::map<str, str> globals;
    struct Caught { int piece; Stmt *st; bool cond; str what; size_t traceAt, printedAt; int line() const { return !st ? 0 : cond && st->k == S_DO ? st->cline : st->line; } int end() const { return !st ? 0 : cond && st->k == S_DO ? st->cend : st->endLine; } };
    std::vector<Caught> caught;   // interactive mode: faults that ended a piece
    std::set<str> unset;          // variables whose declaration was cut off by a fault
    uint64_t steps = 0;
    int maxDepth = 0, yields = 0, resumes = 0, corosMade = 0, calls = 0, objects = 0, ncalls = 0, cbs = 0, maxCoroNest = 0;
    int boxes = 0;
};
struct ModelOpts { uint64_t maxSteps = 20000; int maxDepth = 150; bool interactive = false; /* a fault ends its piece only */ };
ModelResult runModel(Program &p, const ModelOpts &o = ModelOpts());
// Value semantics shared by several monitors
int mAtoi(const char *s);
str mFloatToStr(float f);

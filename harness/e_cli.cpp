// C28: the command-line interpreter, run as a child process (sanitized build)
// on script files and interactive input in a scratch directory.
#include "hostile.hpp"
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
str badPiece(Rng &r, int id, Program &p);
namespace {
bool msanCase = false; // this case runs the build that watches for uninitialised reads
struct Res { int code = -1, sig = 0; bool limit = false; str out, err; };
Res cli(const str &dir, const std::vector<str> &args, const str &in, const char *asan = "", int cpu = 20, const char *var = "NK_CLI") {
    Res q; str o = dir + "/stdout", e = dir + "/stderr", i = dir + "/stdin"; writeFile(i, in); if (msanCase && !strcmp(var, "NK_CLI")) var = "NK_CLI_MSAN"; const char *exe = getenv(var); str path = exe ? exe : "/verif/build/ninkasi";
    str opt = str("ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=100000:malloc_fill_byte=40:hard_rss_limit_mb=3000:") + (asan ? asan : "");
    std::vector<char *> av; av.push_back((char *)path.c_str()); for (auto &a : args) av.push_back((char *)a.c_str()); av.push_back(nullptr);
    str mopt = str("MSAN_OPTIONS=halt_on_error=1:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3000:") + (asan ? asan : "");
    char *ev[] = {(char *)opt.c_str(), (char *)mopt.c_str(), (char *)"UBSAN_OPTIONS=halt_on_error=1:exitcode=77:print_stacktrace=1", (char *)"PATH=/usr/bin:/bin", nullptr};
    pid_t pid = fork();
    if (!pid) {
        int f = open(i.c_str(), O_RDONLY); dup2(f, 0); f = open(o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 1); f = open(e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(f, 2);
        struct rlimit rl; rl.rlim_cur = cpu; rl.rlim_max = cpu + 1; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = rl.rlim_max = 200u << 20; setrlimit(RLIMIT_FSIZE, &rl);
        if (chdir(dir.c_str())) _exit(99); execve(path.c_str(), av.data(), ev); _exit(99);
    }
    int st = 0; waitpid(pid, &st, 0); q.out = readFile(o); q.err = readFile(e);
    if (WIFSIGNALED(st)) { q.sig = WTERMSIG(st); if (q.sig == SIGXCPU || q.sig == SIGKILL || q.sig == SIGXFSZ) q.limit = true; } else q.code = WEXITSTATUS(st);
    if (q.err.find("hard rss limit") != str::npos || q.err.find("hard_rss_limit") != str::npos) q.limit = true;
    return q;
}
// <object:12> -> <object>
str norm(const str &s) {
    str o; for (size_t i = 0; i < s.size();) { bool hit = false; for (const char *p : {"<object:", "<function:"}) { size_t n = strlen(p); if (s.compare(i, n, p) == 0) { size_t j = i + n; if (j < s.size() && s[j] == '-') j++; size_t k = j; while (j < s.size() && isdigit((unsigned char)s[j])) j++; if (j > k && j < s.size() && s[j] == '>') { o.append(p, n - 1); o += '>'; i = j + 1; hit = true; break; } } } if (!hit) o += s[i++]; }
    return o;
}
bool sane(Ctx &c, const Res &q, const str &show) {
    if (q.limit) { c.count("stopped_by_cpu_or_memory_limit"); return false; }
    if (q.sig || q.code < 0 || q.code > 1) { c.fail(q.sig ? fmt("the interpreter was killed by signal %d", q.sig) : fmt("the interpreter crashed (status %d)", q.code), q.err.substr(0, 5000) + "\n--- " + show); return false; }
    return true;
}
str diffBytes(const str &a, const str &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t s = i > 60 ? i - 60 : 0; return fmt("first difference at byte %zu of %zu/%zu\n  real:     ", i, a.size(), b.size()) + visible(a.substr(s, 160)) + "\n  expected: " + visible(b.substr(s, 160)) + "\n"; }
// Rewrites a generated program to use the interpreter's own functions.
void adapt(Program &p, Rng &r, const std::map<str, str> &files) {
    std::map<str, Var *> nat; auto N = [&](const char *n) { Var *&v = nat[n]; if (!v) { v = p.V(n); v->native = true; v->nativeId = (int)p.natives.size(); p.natives.push_back(n); } return p.R(v); };
    p.loadable = files; size_t n = p.ex.size(); std::vector<str> names; for (auto &f : files) names.push_back(f.first);
    for (size_t i = 0; i < n; i++) {
        Expr *e = p.ex[i].get();
        if (e->k == E_VAR && e->var->native && !nat.count(e->var->name)) { bool o = e->var->name == "out" || e->var->name == "dump"; if (!o) { /* handled with its call */ } }
        if (e->k == E_CALL && e->a[0]->k == E_VAR && e->a[0]->var->native) {
            str nm = e->a[0]->var->name;
            if (nm == "out" || nm == "dump") {
                std::vector<Expr *> a = {N("print")}; a.push_back(p.Str(nm == "out" ? "out" : "d"));
                for (size_t k = 1; k < e->a.size(); k++) { Expr *x = e->a[k]; if (x->k == E_STR && r.pct(30)) { Expr *y = p.E(E_CALL); int w = r.below(3); if (w == 0 && x->s.size()) y->a = {N("stringGetASCII"), x, p.I(r.below((uint32_t)x->s.size()))}; else if (w == 1 || names.empty()) y->a = {N("stringGetLengthASCII"), x}; else y->a = {N("loadFile"), p.Str(r.pick(names))}; x = y; } if (r.pct(80)) a.push_back(p.Str(" ")); a.push_back(x); }
                if (r.pct(85)) a.push_back(p.Str("\n")); e->a = a;
            } else if (nm == "fail") { if (r.pct(50) || names.empty()) e->a = {N("stringGetASCII"), p.Str("x"), p.I(5)}; else e->a = {N("loadFile"), p.Str("no such file")}; }
            else e->a = {N("stringGetLengthASCII"), p.I(1)};
        }
    }
    for (size_t i = 0; i < n; i++) { Expr *e = p.ex[i].get(); if (e->k == E_VAR && e->var->native && (e->var->name == "out" || e->var->name == "dump" || !nat.count(e->var->name))) e->var = N("print")->var; }
}
void gen(Program &p, Rng &r, bool inter, const std::map<str, str> &files) {
    GenOpts g; g.stmts = r.range(3, 16); g.funcs = r.range(1, 4); g.depth = 2; g.natives = false; g.callbacks = false; g.coroHeavy = r.pct(40); g.objHeavy = r.pct(30); g.strHeavy = r.pct(40);
    if (inter) g.faultEvery = r.pct(70) ? r.range(3, 20) : 0; else g.faultPct = 30; generate(p, r, g); adapt(p, r, files);
}
std::map<str, str> mkFiles(const str &dir, Rng &r) {
    std::map<str, str> f; int n = r.below(3); for (int i = 0; i < n; i++) { str s; int m = r.pct(20) ? 0 : r.pct(20) ? r.below(5000) : r.below(40); while (m-- > 0) s += (char)(r.pct(3) ? 0 : r.pct(10) ? r.below(256) : 32 + r.below(90)); str nm = fmt("data%d.txt", i); f[nm] = s; writeFile(dir + "/" + nm, s); } return f;
}
void fileMode(Ctx &c, Rng &r, const str &dir) {
    Program p; gen(p, r, false, mkFiles(dir, r)); static const char *const names[] = {"script.nks", "a", "with space.nks", "./rel.nks", "x\"y.nks", "\xc3\xa9.nks"}; str name = names[r.below(6)]; if (r.pct(20)) name = dir + "/abs.nks";
    PrintOpts po; po.r = &r; if (r.pct(50)) { po.random = po.comments = true; po.parens = r.pct(30); po.crlf = r.pct(20); } std::vector<str> files; std::vector<Piece> ps = printProgram(p, po, &files); str text = ps[0].text; if (r.pct(30) && text.size() && text.back() == '\n') text.pop_back();
    if (r.pct(30)) { size_t want = 256u << r.below(5); want += r.range(-2, 2); if (text.size() + 3 < want) text += "//" + str(want - text.size() - 2, 'x'); }
    ModelResult m = runModel(p); if (m.discard) { c.count("discarded"); return; }
    str path = name[0] == '/' ? name : dir + "/" + name; writeFile(path, text); str show = "script file " + name + "\n" + text; c.text(show); c.phase("script file"); c.count("script_files"); c.evals++;
    Res q = cli(dir, {name}, ""); unlink(path.c_str()); if (!sane(c, q, show)) return; str out = norm(q.out);
    if (out != m.printed) { c.fail("the output of a script differs", diffBytes(out, m.printed) + "stderr: " + q.err.substr(0, 300) + "\n--- " + show); return; }
    if (q.code != (m.error ? 1 : 0)) { c.fail("wrong exit status", fmt("status %d, %s\nstderr: ", q.code, m.error ? "the script fails" : "the script succeeds") + q.err.substr(0, 500) + "\n--- " + show); return; }
    if (!m.error && q.err.size()) { c.fail("a successful script wrote to standard error", q.err.substr(0, 500) + "\n--- " + show); return; }
    if (m.error) {
        c.count("failing_scripts"); size_t at = q.err.find("error:\n"); str l = at == str::npos ? "" : q.err.substr(at + 7); str f, msg; int line = 0; size_t nl = l.find('\n'); bool ok = parseErr(l.substr(0, nl), f, line, msg);
        if (!ok || f != name || line < m.errLine() || line > m.errEnd()) { c.fail("the error of a script is not located where it happened", fmt("expected %s:%d..%d, stderr: ", name.c_str(), m.errLine(), m.errEnd()) + q.err.substr(0, 500) + "\n--- " + show); return; }
    }
    if (m.records > 1) c.distinct(hashStr(show)); c.count("printed_bytes", out.size()); c.sample(show);
}
str oneLine(str s) { for (auto &ch : s) if (ch == '\n' || ch == '\r') ch = ' '; return s; }
// splits standard error into the reports of single lines
std::vector<str> reports(const str &e) { std::vector<str> v; size_t i = 0; while ((i = e.find("error:\n", i)) != str::npos) { size_t j = e.find("\nerror:\n", i + 1); v.push_back(e.substr(i + 7, j == str::npos ? str::npos : j - i - 7)); if (j == str::npos) break; i = j + 1; } return v; }
void replMode(Ctx &c, Rng &r, const str &dir) {
    Program p; gen(p, r, true, mkFiles(dir, r)); PrintOpts po; po.r = &r; po.oneLine = true; po.pieces = r.pct(50) ? (int)p.body.size() : 1 + r.below(p.body.size()); std::vector<Piece> ps = printProgram(p, po);
    ModelOpts mo; mo.interactive = true; ModelResult m = runModel(p, mo); if (m.discard) { c.count("discarded"); return; }
    str in, want; size_t fault = 0, at = 0; int nerr = 0; int bp = r.pct(60) ? r.below(50) : 0; Program *pp = &p; bool eol = true;
    // print positions per piece are only known at faults, so the output is compared as a whole, prompts removed
    for (size_t i = 0; i < ps.size(); i++) {
        while (r.pct(bp)) { str b; do b = badPiece(r, (int)c.caseIdx % 1000 * 100 + nerr, *pp); while (0); b = oneLine(b); size_t k; while ((k = b.find("out(")) != str::npos && r.pct(95)) b.replace(k, 4, "print("); in += b + "\n"; nerr++; c.count("uncompilable_lines"); }
        if (r.pct(8)) in += "\n"; if (r.pct(5)) in += "// comment\n"; if (r.pct(5)) in += "   \t \n";
        str t = oneLine(ps[i].text); if (r.pct(3)) t += "//" + str(r.below(70000), 'y'); in += t + "\n"; c.count("lines");
        if (fault < m.caught.size() && m.caught[fault].piece == (int)i) { fault++; nerr++; c.count("faulting_lines"); }
    }
    if (r.pct(30)) in.pop_back();
    str show = "interactive input\n" + in; c.text(show); c.phase("interactive input"); c.count("sessions"); c.evals++;
    Res q = cli(dir, {}, in); if (!sane(c, q, show)) return;
    int lines = (int)std::count(in.begin(), in.end(), '\n') + (in.size() && in.back() != '\n' ? 1 : 0);
    str out, rest = norm(q.out); int prompts = 0; for (size_t i = 0; i < rest.size();) { if (rest.compare(i, 5, "\n>>> ") == 0) { prompts++; i += 5; } else out += rest[i++]; }
    str exp, er = m.printed; for (size_t i = 0; i < er.size();) { if (er.compare(i, 5, "\n>>> ") == 0) i += 5; else exp += er[i++]; } exp += "\n";
    if (out != exp) { c.fail("the output of an interactive session differs", diffBytes(out, exp) + "stderr: " + q.err.substr(0, 600) + "\n--- " + show); return; }
    if (prompts != lines + 1) { c.fail("wrong number of prompts", fmt("%d prompts for %d lines\n--- ", prompts, lines) + show); return; }
    auto rep = reports(q.err); if ((int)rep.size() != nerr) { c.fail("wrong number of error reports in an interactive session", fmt("%zu reports, expected %d\n", rep.size(), nerr) + q.err.substr(0, 1500) + "\n--- " + show); return; }
    for (auto &e : rep) { str f, msg; int line = 0; if (!parseErr(e.substr(0, e.find('\n')), f, line, msg) || f != "<stdin>" || line != 1) { c.fail("an error of an interactive session is not located", e.substr(0, 500) + "\n--- " + show); return; } }
    if (q.code != 0) { c.fail("wrong exit status of an interactive session", fmt("%d\n", q.code) + q.err.substr(0, 500) + "\n--- " + show); return; }
    if (m.records > 1) c.distinct(hashStr(show)); c.sample(show);
}
void hostile(Ctx &c, Rng &r, const str &dir, bool inter) {
    str kind, t = hostileText(c, r, &kind); if (r.pct(60)) { size_t k = 0; while ((k = t.find("out(", k)) != str::npos) { t.replace(k, 4, "print("); k += 6; } }
    if (r.pct(25)) { int n = r.range(1, 5); while (n-- && t.size()) t[r.below((uint32_t)t.size())] = 0; }
    if (inter) { str u; int n = r.range(1, 6); Program dummy; for (int i = 0; i < n; i++) { u += r.pct(30) ? oneLine(badPiece(r, i, dummy)) : r.pct(50) ? oneLine(t) : t; u += "\n"; if (r.pct(50)) t = hostileText(c, r, &kind); } t = u; }
    str show = (inter ? "hostile interactive input\n" : "hostile script file\n") + t; c.text(show); c.phase(inter ? "hostile input" : "hostile file"); c.count(inter ? "hostile_inputs" : "hostile_files"); c.evals++;
    writeFile(dir + "/h.nks", t); Res q = inter ? cli(dir, {}, t, "max_allocation_size_mb=64:", 2) : cli(dir, {"h.nks"}, "", "max_allocation_size_mb=64:", 2); if (!sane(c, q, show)) return; c.distinct(hashStr(show));
    bool err = q.err.find("error:") != str::npos; if (!inter && q.code != (err ? 1 : 0)) { c.fail("exit status does not match the error report", fmt("status %d, stderr: ", q.code) + q.err.substr(0, 500) + "\n--- " + show); return; }
}
void odd(Ctx &c, Rng &r, const str &dir) {
    str what; int k = r.below(16); Res q; int code = 1; str out, errHas = "error", file = dir + "/s.nks", show; bool exact = true; c.phase("command line"); c.evals++;
    auto script = [&](const str &t, const char *asan = "") { writeFile(file, t); show = t; c.text(t); q = cli(dir, {"s.nks"}, "", asan); };
    switch (k) {
    case 0: what = "missing script"; q = cli(dir, {"nosuch.nks"}, ""); break;
    case 1: what = "directory as script"; mkdir((dir + "/d").c_str(), 0700); q = cli(dir, {"d"}, ""); break;
    case 2: what = "empty script"; script(""); code = 0; break;
    case 3: what = "unknown option"; q = cli(dir, {"--nosuch"}, ""); break;
    case 4: what = "two scripts"; writeFile(file, "print(1);"); q = cli(dir, {"s.nks", "s.nks"}, ""); break;
    case 5: what = "no input"; q = cli(dir, {}, ""); code = 0; out = "\n>>> \n"; break;
    case 6: what = "loadFile of a directory"; mkdir((dir + "/d").c_str(), 0700); script("print(\"a\");\nprint(loadFile(\"d\"));\nprint(\"b\");\n"); out = "a"; errHas = "s.nks:2:"; break;
    case 7: what = "loadFile of a character device"; script("print(\"a\");\nvar s = loadFile(\"/dev/null\");\nprint(\"b\");\n"); out = "ab"; code = 0; break;
    case 8: what = "loadFile of a file without a size"; script("var s = loadFile(\"/proc/self/stat\");\nprint(\"b\");\n"); out = "b"; code = 0; break;
    case 9: what = "loadFile of a missing file"; script("print(\"a\");\n\nloadFile(\"nosuch\");\nprint(\"b\");\n"); out = "a"; errHas = "s.nks:3:"; break;
    case 10: what = "memory exhaustion in a script"; script("var s = \"0123456789abcdef\";\nprint(\"x\");\nwhile(1) { s = s + s; }\n", "max_allocation_size_mb=16:"); out = "x"; break;
    case 11: what = "memory exhaustion in a session"; show = "var s = \"0123456789abcdef\";\nprint(\"x\");\nwhile(1) { s = s + s; }\nprint(1);\n"; q = cli(dir, {}, show, "max_allocation_size_mb=16:"); exact = false; break;
    case 12: { what = "script of many lines"; int n = r.range(1000, 20000); str t; for (int i = 0; i < n; i++) t += "//\n"; t += fmt("print(%d);\n", n); script(t); out = fmt("%d", n); code = 0; break; }
    case 13: { what = "bytes after a NUL"; str t = "print(\"a\");\n"; t += '\0'; t += "print(\"b\"); ((("; script(t); out = "a"; code = 0; break; }
    case 14: { what = "uncompilable script"; Program dummy; str b = badPiece(r, 1, dummy); size_t i; while ((i = b.find("out(")) != str::npos) b.replace(i, 4, "print("); script("print(\"a\");\n" + b); errHas = "s.nks:"; break; }
    default: { what = "long output"; int n = r.range(1, 3000); script(fmt("for(var i = 0; i < %d; i++) print(i, \"\\n\");\n", n)); for (int i = 0; i < n; i++) out += fmt("%d\n", i); code = 0; break; }
    }
    c.count(("odd_" + what).c_str()); show = what + "\n" + show.substr(0, 3000);
    if (!sane(c, q, show)) return; c.distinct(hashStr(show));
    if (q.code != code) { c.fail("wrong exit status: " + what, fmt("status %d, expected %d\nstderr: ", q.code, code) + q.err.substr(0, 500) + "\n--- " + show); return; }
    if (exact && q.out != out) { c.fail("wrong output: " + what, diffBytes(q.out, out) + "stderr: " + q.err.substr(0, 500) + "\n--- " + show); return; }
    if (code ? q.err.find(errHas) == str::npos : q.err.size()) c.fail("wrong error report: " + what, "stderr: " + q.err.substr(0, 500) + "\n--- " + show);
}
void c28(Ctx &c, Rng &r) {
    str dir = (c.scratch.size() ? c.scratch : str("/tmp/nk-cli")) + "/w"; mkdir(c.scratch.size() ? c.scratch.c_str() : "/tmp/nk-cli", 0700); mkdir(dir.c_str(), 0700);
    if (c.thorough && c.caseIdx == 7 && getenv("NK_CLI_FAST")) { // more instructions than one call of the machine can run
        c.phase("script of more than 2^32 instructions"); writeFile(dir + "/long.nks", "var i = 0;\nwhile(i < 480000000) { i = i + 1; }\nprint(\"done \", i);\n"); Res q = cli(dir, {"long.nks"}, "", "", 500, "NK_CLI_FAST"); c.evals++;
        if (q.limit) c.count("stopped_by_cpu_or_memory_limit"); else { c.count("scripts_beyond_2^32_instructions"); if (q.code || q.out != "done 480000000") c.fail("a very long script ended early", fmt("status %d, output ", q.code) + q.out); } return;
    }
    msanCase = getenv("NK_CLI_MSAN") && r.pct(25); if (msanCase) c.count("runs_of_the_memory_sanitizer_build");
    int k = r.below(100); if (k < 40) fileMode(c, r, dir); else if (k < 72) replMode(c, r, dir); else if (k < 82) hostile(c, r, dir, false); else if (k < 92) hostile(c, r, dir, true); else odd(c, r, dir);
}
}
ENGINE(C28, c28);

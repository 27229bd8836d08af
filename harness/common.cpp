#include <sys/stat.h>
#include "common.hpp"
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>

str fmt(const char *f, ...) {
    va_list a; va_start(a, f); char b[512]; va_list a2; va_copy(a2, a);
    int n = vsnprintf(b, sizeof b, f, a); va_end(a);
    if (n < (int)sizeof b) { va_end(a2); return str(b, n); }
    str s(n + 1, 0); vsnprintf(&s[0], n + 1, f, a2); va_end(a2); s.resize(n); return s;
}
str jsonEsc(const str &s) {
    str o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o + "\"";
}
str visible(const str &s) {
    str o;
    for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) o += fmt("\\x%02x", c); else o += (char)c; }
    return o;
}
static std::vector<Engine> &engines() { static std::vector<Engine> e; return e; }
EngineReg::EngineReg(const char *p, CaseFn f) { engines().push_back({p, f, nullptr}); }

void Ctx::fail(const str &sig, const str &detail) {
    failures++;
    if (st) st->failures = failures;
    str line = "{\"case\":" + fmt("%llu", (unsigned long long)caseIdx) + ",\"sig\":" + jsonEsc(sig) + ",\"detail\":" + jsonEsc(detail.substr(0, 20000)) + "}\n";
    if (failFile) { fputs(line.c_str(), failFile); fflush(failFile); }
    if (verbose || !failFile) fprintf(stderr, "FAIL case=%llu %s\n%s\n", (unsigned long long)caseIdx, sig.c_str(), detail.c_str());
}
static Status *gStatus;
static int cpuLimit = 60;
static void onAlarm(int) { if (gStatus) gStatus->hang = 1; _exit(98); }
void Ctx::resetTimer() {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = cpuLimit;
    setitimer(ITIMER_PROF, &t, nullptr);
}
extern void engineInit(Ctx &c);

int main(int argc, char **argv) {
    Ctx c; uint64_t from = 0, to = 1, step = 1; str out = ""; bool list = false; double maxSec = 0;
    for (int i = 1; i < argc; i++) {
        str a = argv[i];
        auto val = [&]() { return str(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") c.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = strtoull(val().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(val().c_str(), 0, 10);
        else if (a == "--step") step = strtoull(val().c_str(), 0, 10);
        else if (a == "--case") { from = strtoull(val().c_str(), 0, 10); to = from + 1; }
        else if (a == "--out") out = val();
        else if (a == "--scratch") c.scratch = val();
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--cpu") cpuLimit = atoi(val().c_str());
        else if (a == "--max-seconds") maxSec = atof(val().c_str());
        else if (a == "-v") c.verbose = true;
        else if (a == "--list") list = true;
        else c.prop = a;
    }
    if (list) { for (auto &e : engines()) printf("%s\n", e.prop); return 0; }
    Engine *eng = nullptr; for (auto &e : engines()) if (c.prop == e.prop) eng = &e;
    if (!eng) { fprintf(stderr, "no engine %s\n", c.prop.c_str()); return 2; }
    if (c.scratch.empty()) c.scratch = fmt("/tmp/nkmon.%d", (int)getpid());
    mkdir(c.scratch.c_str(), 0755);
    signal(SIGPROF, onAlarm);
    signal(SIGPIPE, SIG_IGN);
    if (out.size()) {
        int fd = open((out + ".status").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Status))) { perror("status"); return 2; }
        c.st = (Status *)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        gStatus = c.st;
        c.failFile = fopen((out + ".fail").c_str(), "a");
    }
    struct timeval t0; gettimeofday(&t0, 0);
    uint64_t n = 0; bool stopped = false;
    for (uint64_t i = from; i < to; i += step) {
        if (maxSec > 0) {
            struct timeval t; gettimeofday(&t, 0);
            if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) * 1e-6 > maxSec) { stopped = true; break; }
        }
        c.caseIdx = i; if (c.st) { c.st->caseIdx = i; c.st->phase[0] = 0; c.st->text[0] = 0; }
        c.resetTimer();
        Rng r(hashStr(c.prop) ^ (c.seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1342543DE82EF95ull));
        for (int k = 0; k < 3; k++) r.next();
        eng->fn(c, r);
        n++;
        if (c.failures > 40) { stopped = true; break; }
    }
    str j = "{\"cases\":" + fmt("%llu", (unsigned long long)n) + ",\"stopped\":" + (stopped ? "true" : "false") + ",\"evals\":" + fmt("%llu", (unsigned long long)c.evals) + ",\"failures\":" + fmt("%llu", (unsigned long long)c.failures) + ",\"distinct\":" + fmt("%zu", c.hashes.size()) + ",\"feat\":{";
    bool first = true;
    for (auto &p : c.feat) { j += (first ? "" : ",") + jsonEsc(p.first) + ":" + fmt("%llu", (unsigned long long)p.second); first = false; }
    j += "},\"samples\":["; first = true;
    for (auto &s : c.samples) { j += (first ? "" : ",") + jsonEsc(s); first = false; }
    j += "]}\n";
    if (out.size()) {
        writeFile(out + ".json", j);
        FILE *f = fopen((out + ".hash").c_str(), "wb");
        if (f) { for (uint64_t h : c.hashes) fwrite(&h, 8, 1, f); fclose(f); }
        c.st->done = 1;
    } else fputs(j.c_str(), stdout);
    rmdir(c.scratch.c_str()); fflush(stdout);
    return c.failures ? 1 : 0;
}

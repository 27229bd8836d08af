// Wrapping of the library under test: host allocator, natives, host-backed types, trace recorder.
#pragma once
#include "lang.hpp"
extern "C" {
#include "nkx.h"
}
#ifdef NK_MSAN
#include <sanitizer/msan_interface.h>
#define MS_CHECK(p, n) __msan_check_mem_is_initialized(p, n)
#define MS_FRESH(p, n) __msan_poison(p, n)
#define MS_GONE(p, n) __msan_unpoison(p, n)
#else
#define MS_CHECK(p, n) ((void)0)
#define MS_FRESH(p, n) ((void)0)
#define MS_GONE(p, n) ((void)0)
#endif
#include <unordered_map>
#include <set>

// ------------------------------------------------------------------ host allocator
struct Alloc {
    std::unordered_map<void *, uint32_t> live;
    uint64_t requests = 0, frees = 0, liveBytes = 0, peakBytes = 0, firstSize = 0; void *firstPtr = nullptr;
    uint64_t failAt = 0;      // 1-based index of the request to refuse (0 = none)
    bool failForever = false; // refuse that one and all later ones
    uint64_t refused = 0;
    bool badUser = false, badFree = false, sawNull = false;
    uint64_t limitBytes = 0, overLimit = 0; // requests that would exceed the configured maximum (C03)
    uint32_t magic = 0xA110C8; ~Alloc() { magic = 0; if (tls == this) tls = nullptr; }
    void *get(uint32_t size);
    void put(void *p);
    uint64_t vmBytes() const { return liveBytes - (firstPtr && live.count(firstPtr) ? firstSize : 0); }
    static void *cbMalloc(nkuint32_t size, void *ud);
    static void cbFree(void *p, void *ud);
    static thread_local Alloc *tls;
};

struct World;
struct Box { int id; int payload; NKValue held; World *w; uint32_t magic; };

struct World {
    Alloc al;
    NKVM *vm = nullptr;
    NKCompilerState *cs = nullptr;
    str trace; int records = 0; size_t traceMax = 2000000;
    std::vector<Key> keys;
    NKVMExternalDataTypeID boxType{NK_INVALID_VALUE}, box2Type{NK_INVALID_VALUE};
    // host-backed objects
    int nextBox = 0;
    std::map<int, Box *> boxes;         // live host data
    std::map<int, int> cleaned;         // box id -> clean-up calls
    std::set<int> markSeen;
    int cleanups = 0, doubleCleanups = 0, nullCleanups = 0, nullMarks = 0, boxSer = 0, marks = 0, boxLoads = 0;
    std::vector<int> serLog;
    // subsystem
    int ssData = 0; int ssCleanups = 0, ssSer = 0, ssBad = 0; void *ssPtr = nullptr; int ssLoaded = -1, ssCatastrophic = 0, enumerated = 0;
    bool ssRegistered = false; uint32_t shuffle = 0;   // order in which a load target registers its natives
    std::function<void(World &)> onTick, onNat; uint64_t ticks = 0;
    std::vector<NKValue> kept;          // values the host holds a handle on, in order of keep()
    std::map<uint32_t, int> handles;    // object id -> handle count taken by natives
    int bodies = 0; uint64_t nativeCalls = 0;
    bool argCheckFailed = false; str note;
    str errs;
    void rec(const str &s);
};
str canonV(World &w, NKValue *v, std::map<uint64_t, int> &ids);
void dumpV(World &w, NKValue *v, std::map<uint64_t, int> &ids, int depth, str &out);
bool isBoxObj(World &w, NKValue *v);
bool isCoroObj(World &w, NKValue *v);

struct Limits { uint32_t gcInterval = 0, gcNew = 0, instr = 0, stack = 0, fields = 0, mem = 0; bool set = false; };

// One machine with its host side.
struct Vm {
    World w; bool created = false; bool loadTarget = false; uint32_t seenPeak = 0;
    NKVM *vm() { return w.vm; }
    bool create(bool compiler = true);      // machine (+compiler) with the standard prelude
    bool createBare();
    bool compile(const std::vector<Piece> &ps);
    void finalize();
    bool build(const std::vector<Piece> &ps); // create+compile+finalize; false when errors
    void limits(const Limits &l);
    bool run(uint64_t maxInstr = 400000);     // to the end or error; false when out of budget
    bool ended() { return nkxVmHasErrors(w.vm) || nkxVmProgramHasEnded(w.vm); }
    void step(uint32_t n) { nkxVmIterate(w.vm, n); }
    bool hasErrors() { return nkxVmHasErrors(w.vm); }
    str errors();
    std::vector<str> errorList();
    str global(const str &name);               // canonical dump of a global, "?" when missing
    void destroy();                             // delete and verify accounting; problems appended to w.note
    str leakReport();                           // "" when everything was given back exactly once
    bool save(str &img, int64_t failAt = -1, bool once = false); uint64_t ioCalls = 0, ioFailed = 0; size_t ioRead = 0;
    bool load(const str &img, int64_t failAt = -1, size_t cut = (size_t)-1, bool once = false);
    bool nativesOk(str &why, uint64_t &n);
    void carry(Vm &from);                       // take over trace, handles and keys after loading an image of from
    bool checkMem(str &why);                    // reported usage equals host's view
    ~Vm();
};
void registerPrelude(Vm &v, bool asLoadTarget);
bool parseErr(const str &e, str &file, int &line, str &msg);

struct RunResult { bool ok = false, compileErr = false, timeout = false, error = false; str trace, errFile, errText; int errLine = 0; int nErr = 0; std::map<str, str> globals; str problem; };
void collect(Vm &v, Program *p, RunResult &r);
// compare with the model; returns "" when they agree
str agree(const RunResult &a, const ModelResult &m, const std::vector<str> &files, bool globals = true);
str agreeRuns(const RunResult &a, const RunResult &b, bool globals = true, bool location = true);
str showPieces(const std::vector<Piece> &ps);
str diffText(const str &a, const str &b, const char *na, const char *nb);

// C27 failing memory requests are reported and harm nothing.
#include "player.hpp"
#include <link.h>
#include <cerrno>
#include <fcntl.h>
#include <unistd.h>

extern "C" {
void *___interceptor_malloc(size_t);
void *___interceptor_calloc(size_t, size_t);
void *___interceptor_realloc(void *, size_t);
void *___interceptor_reallocarray(void *, size_t, size_t);
char *___interceptor_strdup(const char *);
FILE *___interceptor_fopen(const char *, const char *);
int __lsan_do_recoverable_leak_check(void);
}

// ------------------------------------------------------------------ the failing allocator
static uintptr_t lo, hi;            // code of the FMU under test
static long requests, failAt = -1;  // requests of the FMU so far, the one to fail
static bool andAllLater;
static long failed;
static bool refuse(void *ra) {
    uintptr_t a = (uintptr_t)ra;
    if (a < lo || a >= hi) return false;
    long k = requests++;
    if (failAt < 0 || !(k == failAt || (andAllLater && k > failAt))) return false;
    failed++;
    errno = ENOMEM;
    return true;
}
#define RA __builtin_return_address(0)
extern "C" void *malloc(size_t n) { return refuse(RA) ? nullptr : ___interceptor_malloc(n); }
extern "C" void *calloc(size_t a, size_t b) { return refuse(RA) ? nullptr : ___interceptor_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) { return refuse(RA) ? nullptr : ___interceptor_realloc(p, n); }
extern "C" void *reallocarray(void *p, size_t a, size_t b) { return refuse(RA) ? nullptr : ___interceptor_reallocarray(p, a, b); }
extern "C" char *strdup(const char *s) { return refuse(RA) ? nullptr : ___interceptor_strdup(s); }
extern "C" char *__strdup(const char *s) { return refuse(RA) ? nullptr : ___interceptor_strdup(s); }
extern "C" FILE *fopen(const char *p, const char *m) { return refuse(RA) ? nullptr : ___interceptor_fopen(p, m); }

static void watch(Lib *l) {
    lo = hi = 0;
    std::string path = l->path;
    struct Arg { const char *p; } a{path.c_str()};
    dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *q) {
        if (strcmp(i->dlpi_name, ((Arg *)q)->p)) return 0;
        for (int k = 0; k < i->dlpi_phnum; k++)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; hi = lo + i->dlpi_phdr[k].p_memsz; }
        return 1;
    }, &a);
    if (!lo) broken("no code range of %s", path.c_str());
}
static void arm(long k, bool later) { requests = 0; failed = 0; failAt = k; andAllLater = later; }
static void disarm() { failAt = -1; }

void driverInit() {
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

// ------------------------------------------------------------------ scripted histories
// One history: what happened in each step, up to the first step that reports the failure.
struct Step { std::string what, result; int status; };
struct Play {
    Lib *l;
    InstOpt o;
    const std::vector<Step> *ref = nullptr;   // the undisturbed run
    std::vector<Step> steps;
    bool reported = false;                    // a call reported the failure
    long before = 0;
    Inst in, other;

    static std::string dump(Inst &in, St *s) {
        Snap n;
        in.quiet = true;
        bool ok = snapshot(in, n);
        in.quiet = false;
        std::string t;
        for (auto &v : n) t += v.second + ";";
        *s = ok ? sOK : sError;
        return t;
    }
    // false ends the history
    bool log(const char *what, int status, const std::string &result = "") {
        long f = failed - before;
        before = failed;
        size_t k = steps.size();
        steps.push_back({what, result, status});
        if (!ref) return true;
        const Step &w = (*ref)[k];
        count("evaluations");
        if (status != w.status) {
            if (!f) fail("status", "%s returned %s instead of %s though no memory request failed in it", what, stName(status), stName(w.status));
            if (status != sError && status != sFatal) fail("status", "%s returned %s when memory ran out (otherwise %s)", what, stName(status), stName(w.status));
            reported = true;
            feature("reported %s", what);
            return false;
        }
        if (f) feature("survived %s", what);
        if (result != w.result) fail("effect", "%s reports %s after a failed memory request but its results differ", what, stName(status));
        return true;
    }
};

// what is printed on the standard output instead of being reported
struct Printed {
    int keep;
    Printed() {
        static int file = -1;
        if (file < 0 && (file = open((opt.scratch + "/printed-" + std::to_string(getpid())).c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0600)) < 0) broken("no file for the output");
        fflush(stdout);
        keep = dup(1);
        if (ftruncate(file, 0)) broken("the output cannot be emptied");
        dup2(file, 1);
    }
    long end() {
        if (keep < 0) return 0;
        fflush(stdout);
        long n = (long)lseek(1, 0, SEEK_END);
        dup2(keep, 1);
        close(keep);
        keep = -1;
        return n;
    }
    ~Printed() { end(); }
};

static void attempt(const Kind_ &k, uint64_t seed, long at, bool later, const std::vector<Step> *ref, std::vector<Step> *out, long *total) {
    Play p;
    p.l = k.l;
    p.o = k.o;
    p.ref = ref;
    const ModelInfo &m = *k.l->m;
    Rng r(seed);
    InstOpt oo = k.o;
    oo.name = "bystander";
    disarm();
    if (!p.other.open(k.l, oo)) fail("instantiate", "instantiation failed");
    St s;
    bool dumpable = k.l->ver == 3;
    if (!dumpable && p.other.enterInit(0, false, 0) != sOK) fail("init", "initialization failed");
    std::string before = Play::dump(p.other, &s);
    InstOpt o = k.o;
    o.logging = r.chance(0.5);
    o.name = std::string(1 + r.below(200), 'n');
    std::vector<void *> states;
    bool cs = k.o.type == CSIM, se = k.o.type == SE;
    auto history = [&] {
        if (!p.log("instantiation", p.in.open(k.l, o) ? sOK : sError)) return;
        Inst &in = p.in;
        auto state = [&](int how) {
            void *q = how == 0 || states.empty() ? nullptr : states[0];
            bool fresh = !q;
            s = in.getState(&q);
            if (fresh && q) states.push_back(q);
            if (fresh && s == sOK && !q) fail("state", "GetFMUState reports OK but there is no state");
            if (fresh && s != sOK && q) fail("state", "GetFMUState failed but left a state");
            if (!fresh && !q) fail("state", "GetFMUState dropped the state that was to be overwritten");
            if (!fresh) states[0] = q;
            return p.log("GetFMUState", s);
        };
        auto serial = [&] {
            if (states.empty()) return true;
            size_t n = 0;
            s = in.stateSize(states[0], &n);
            if (!p.log("SerializedFMUStateSize", s, std::to_string(n))) return false;
            Buf<unsigned char> b(n);
            s = in.serialize(states[0], b.p, n);
            if (!p.log("SerializeFMUState", s)) return false;
            void *q = nullptr;
            s = in.deserialize(b.p, n, &q);
            if (s == sOK && !q) fail("state", "DeserializeFMUState reports OK but there is no state");
            if (s != sOK && q) fail("state", "DeserializeFMUState failed but left a state");
            if (q) states.push_back(q);
            return p.log("DeserializeFMUState", s);
        };
        // a call that is rejected, with a message
        auto wrong = [&] {
            double d = 1;
            uint32_t vr = 4711;
            s = r.chance(0.5) ? in.set(F64, &vr, 1, &d, 1) : in.get(F64, &vr, 1, &d, 1);
            return p.log("a wrong value reference", s);
        };
        auto look = [&] { std::string t = Play::dump(in, &s); return p.log("reading all variables", s, t); };
        for (int round = 0; round < 2; round++) {
            if (round && !p.log("Reset", in.reset())) return;
            if (r.chance(0.3) && !p.log("SetDebugLogging", in.debugLogging(true, {"logEvents"}))) return;
            if (r.chance(0.3) && !p.log("SetDebugLogging", in.debugLogging(true, {"logEvents", "logStatusError"}))) return;
            if (!state(0)) return;
            if (!p.log("EnterInitializationMode", in.enterInit(0, false, 0))) return;
            if (!look()) return;
            if (!p.log("ExitInitializationMode", in.exitInit())) return;
            if (!state((int)r.below(2))) return;
            if (cs && !(k.o.eventMode)) {
                double t = 0;
                for (int q = 0; q < 3; q++) {
                    StepResult sr;
                    s = in.doStep(t, 2 * m.step, &sr);
                    if (!p.log("DoStep", s)) return;
                    t += 2 * m.step;
                }
            } else if (!se) {
                EventInfo e;
                if (!p.log("UpdateDiscreteStates", in.update(&e))) return;
            } else if (!p.log("ActivateModelPartition", in.activate(1001, 0))) return;
            if (!se && !look()) return;
            if (!serial()) return;
            if (states.size() && r.chance(0.7) && !p.log("SetFMUState", in.setState(states[r.below(states.size())]))) return;
            if (r.chance(0.5) && states.size() > 1) { s = in.freeState(&states.back()); states.pop_back(); if (!p.log("FreeFMUState", s)) return; }
            if (!wrong()) return;
            if (!state(1)) return;
        }
    };
    Printed printed;
    arm(at, later);
    history();
    *total = requests;
    bool hit = failed > 0;
    disarm();
    if (long n = printed.end()) fail("printed", "%ld characters were printed on the standard output", n);
    if (ref && at >= 0 && !hit) fail("harness", "the failure was never reached");
    Inst &in = p.in;
    for (void *q : states) {
        s = in.c ? in.freeState(&q) : sOK;
        if (s != sOK) fail("free state", "FreeFMUState failed after memory had run out");
    }
    // the affected instance can still be reset, and works as a new one
    if (hit && in.c) {
        if (in.reset() != sOK) fail("reset", "Reset failed after memory had run out");
        Inst fresh;
        if (!fresh.open(k.l, k.o)) fail("instantiate", "instantiation failed after memory had been available again");
        std::string a, b;
        for (int q = 0; q < 2; q++) {
            Inst &x = q ? fresh : in;
            std::string &t = q ? b : a;
            if (x.enterInit(0, false, 0) != sOK || x.exitInit() != sOK) fail("init", "initialization failed after memory had run out");
            if (cs && !k.o.eventMode) { StepResult sr; if (x.doStep(0, 3 * m.step, &sr) != sOK) fail("step", "a step failed after memory had run out"); }
            if (!se) t = Play::dump(x, &s);
        }
        if (a != b) fail("reset", "an instance that ran out of memory differs from a new one after Reset");
        count("evaluations", 2);
    } else if (hit) {
        Inst again;
        if (!again.open(k.l, k.o)) fail("instantiate", "instantiation failed after memory had been available again");
        count("evaluations");
    }
    std::string after = Play::dump(p.other, &s);
    if (before != after) fail("bystander", "another instance changed when memory ran out");
    in.free();
    p.other.free();
    if (hit) feature("%s%d type %d request %ld %d", m.name, k.l->ver, k.o.type, at, later);
    *out = p.steps;
}

static void caseScript(const Kind_ &k, Rng &r) {
    watch(k.l);
    uint64_t seed = r.u64();
    std::vector<Step> ref, got;
    long total = 0, x;
    attempt(k, seed, -1, false, nullptr, &ref, &total);
    count("requests", (uint64_t)total);
    for (int later = 0; later < 2; later++)
        for (long q = 0; q < total; q++) {
            traceClear();
            trace("%s FMI%d %s, request %ld%s of %ld fails", k.l->m->name, k.l->ver, ifName(k.o.type), q, later ? " and all later ones" : "", total);
            attempt(k, seed, q, later, &ref, &got, &x);
            count("failures enumerated");
        }
    sample("%s FMI%d %s: %ld requests, each failed alone and with all later ones", k.l->m->name, k.l->ver, ifName(k.o.type), total);
}

// arbitrary histories in which requests fail now and then
static void caseWild(const Kind_ &k, Rng &r) {
    watch(k.l);
    Player p;
    arm(-1, false);
    if (!p.open(k, r)) fail("instantiate", "instantiation failed");
    for (size_t q = 0, n = 60 + r.below(60); q < n; q++) {
        if (r.chance(0.4)) arm((long)r.below(3), r.chance(0.3));
        p.one(r);
        count("evaluations");
        if (failed) { count("failures in arbitrary histories"); feature("wild %s%d %s", k.l->m->name, k.l->ver, p.w.lastOp); }
        arm(-1, false);
    }
    p.close();
}

size_t driverCases() { return kinds.size() * opt.scale(12, 150); }
void driverCase(size_t i, Rng &r) {
    const Kind_ &k = kinds[i % kinds.size()];
    if (i / kinds.size() % 2) caseWild(k, r);
    else caseScript(k, r);
    disarm();
    if (i % 16 == 0 && __lsan_do_recoverable_leak_check()) fail("leak", "memory is left behind after requests failed (see the log)");
}

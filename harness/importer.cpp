// C28 the import library forwards every call; C29 its call log is exact; C26 it leaves nothing behind.
#include "common.hpp"
#include <dlfcn.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <algorithm>
#include "FMI2.h"
#include "FMI3.h"

static int P;

// ------------------------------------------------------------------ failing memory requests (C27)
static bool armed;                  // inside the import library
static long requests, failAt = -1, failed;
static bool andAllLater;
#ifdef WITH_OOM
#include <cerrno>
extern "C" {
void *___interceptor_malloc(size_t);
void *___interceptor_calloc(size_t, size_t);
void *___interceptor_realloc(void *, size_t);
char *___interceptor_strdup(const char *);
}
static bool refuse() {
    if (!armed) return false;
    long k = requests++;
    if (failAt < 0 || !(k == failAt || (andAllLater && k > failAt))) return false;
    failed++;
    errno = ENOMEM;
    return true;
}
extern "C" void *malloc(size_t n) { return refuse() ? nullptr : ___interceptor_malloc(n); }
extern "C" void *calloc(size_t a, size_t b) { return refuse() ? nullptr : ___interceptor_calloc(a, b); }
extern "C" void *realloc(void *p, size_t n) { return refuse() ? nullptr : ___interceptor_realloc(p, n); }
extern "C" char *strdup(const char *s) { return refuse() ? nullptr : ___interceptor_strdup(s); }
extern "C" char *__strdup(const char *s) { return refuse() ? nullptr : ___interceptor_strdup(s); }
#endif
struct Imp : InCall { Imp(const char *w) : InCall(w) { armed = P == 27; } ~Imp() { armed = false; } };
struct Outside { bool a = armed; Outside() { armed = false; } ~Outside() { armed = a; } };
static std::string mockPath;
struct entry { const char *name; void **slot; };

#define FN2(n) F2_##n,
#define FN3(n) F3_##n,
enum Fn { FMI2_FUNCS(FN2) FMI3_FUNCS(FN3) NFN };
#define NM2(n) "fmi2" #n,
#define NM3(n) "fmi3" #n,
static const char *fnName[] = {FMI2_FUNCS(NM2) FMI3_FUNCS(NM3)};

// ------------------------------------------------------------------ what a call should look like
enum EK { VALUE, IN, OUT, TEXT, ANY };
struct Exp { EK k; uint64_t bits; const void *p; size_t size; std::string bytes; };
struct Expect {
    Fn fn;
    std::vector<Exp> args;      // without the instance where there is one
    bool hasInstance = true;
    uint64_t ret = 0;           // status or pointer
    int calls = 0;
    std::string wrong;
};
static Expect *cur;
static void *const COMPONENT = (void *)0x5150cafe1234;
static std::vector<uint64_t> lastArgs;

static std::string strayCall;
static uint64_t received(int fn, const std::vector<uint64_t> &a) {
    if (!cur || cur->fn != fn) {
        strayCall = fnName[fn];
        return 0;
    }
    Expect &e = *cur;
    e.calls++;
    lastArgs = a;
    size_t o = 0;
    char m[300];
    if (e.hasInstance) {
        if (a[0] != (uint64_t)COMPONENT) { snprintf(m, sizeof m, "the instance pointer is %#llx", (unsigned long long)a[0]); e.wrong = m; }
        o = 1;
    }
    if (a.size() - o != e.args.size()) broken("%s: %zu arguments described, %zu received", fnName[fn], e.args.size(), a.size() - o);
    for (size_t i = 0; i < e.args.size(); i++) {
        const Exp &x = e.args[i];
        uint64_t g = a[i + o];
        switch (x.k) {
        case VALUE: if (g != x.bits) { snprintf(m, sizeof m, "argument %zu is %#llx instead of %#llx", i + 1, (unsigned long long)g, (unsigned long long)x.bits); e.wrong = m; } break;
        case IN:
            if (g == (uint64_t)x.p) break;
            if (!g || memcmp((const void *)g, x.p, x.size)) { snprintf(m, sizeof m, "argument %zu points to something else", i + 1); e.wrong = m; }
            break;
        case OUT:
            if (!g) { if (x.p) { snprintf(m, sizeof m, "argument %zu is NULL", i + 1); e.wrong = m; } break; }
            if (!x.p) { snprintf(m, sizeof m, "argument %zu is not NULL", i + 1); e.wrong = m; break; }
            memcpy((void *)g, x.bytes.data(), x.bytes.size());
            break;
        case TEXT:
            if (!g) { if (x.p) { snprintf(m, sizeof m, "text argument %zu is NULL", i + 1); e.wrong = m; } break; }
            if (!x.p || x.bytes != (const char *)g) { snprintf(m, sizeof m, "text argument %zu differs", i + 1); e.wrong = m; }
            break;
        case ANY: break;
        }
    }
    return e.ret;
}
template <class T> static uint64_t bitsOf(T v) {
    if constexpr (std::is_pointer_v<T>) return (uint64_t)(uintptr_t)v;
    else if constexpr (std::is_floating_point_v<T>) { uint64_t b = 0; memcpy(&b, &v, sizeof v); return b; }
    else return (uint64_t)(int64_t)v;
}
template <int N, class F> struct Mock;
template <int N, class R, class... A> struct Mock<N, R(A...)> {
    static R fn(A... a) {
        Outside o;
        uint64_t r = received(N, {bitsOf(a)...});
        if constexpr (!std::is_void_v<R>) return (R)r;
        else (void)r;
    }
};
static void fill(void *handle) {
    entry *t = (entry *)dlsym(handle, "mockTable");
    if (!t) broken("no table");
    std::map<std::string, void *> m;
#define X(n) m["fmi2" #n] = (void *)&Mock<F2_##n, fmi2##n##TYPE>::fn;
    FMI2_FUNCS(X)
#undef X
#define X(n) m["fmi3" #n] = (void *)&Mock<F3_##n, fmi3##n##TYPE>::fn;
    FMI3_FUNCS(X)
#undef X
    for (; t->name; t++) *t->slot = m.count(t->name) ? m[t->name] : nullptr;
}

// ------------------------------------------------------------------ messages
struct Msg { FMIInstance *i; int status; std::string category, text; };
static std::vector<Msg> calls, logs;
static void onCall(FMIInstance *i, FMIStatus s, const char *m) { Outside o; calls.push_back({i, s, "", m}); }
static void onLog(FMIInstance *i, FMIStatus s, const char *c, const char *m) { Outside o; logs.push_back({i, s, c, m}); }
static void onError(const char *, va_list) {}

// a rendering of the message in which \1 stands for any address
static bool same(const std::string &want, const std::string &got) {
    size_t j = 0;
    for (size_t i = 0; i < want.size(); i++) {
        if (want[i] == '\1') {
            // an address as printed by %p, possibly with 0x in front
            char hex[32];
            snprintf(hex, sizeof hex, "%s", want.substr(i + 1, 16).c_str());
            i += 16;
            uint64_t a = strtoull(hex, nullptr, 16);
            size_t q = j;
            while (got.compare(q, 2, "0x") == 0 || got.compare(q, 2, "0X") == 0) q += 2;
            if (got.compare(q, 5, "(nil)") == 0 || got.compare(q, 6, "(null)") == 0) { if (a) return false; j = got.find(')', q) + 1; continue; }
            size_t e = q;
            while (e < got.size() && isxdigit((unsigned char)got[e])) e++;
            if (e == q || strtoull(got.substr(q, e - q).c_str(), nullptr, 16) != a) return false;
            j = e;
            continue;
        }
        if (j >= got.size() || want[i] != got[j]) return false;
        j++;
    }
    return j == got.size();
}
static std::string addr(const void *p) { char b[32]; snprintf(b, sizeof b, "\1%016llx", (unsigned long long)(uintptr_t)p); return b; }

// ------------------------------------------------------------------ one call under test
static double anyDouble(Rng &r) {
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return -1.0 / 3 * (double)r.irange(1, 1000);
    case 2: { uint64_t u = r.u64(); double d; memcpy(&d, &u, 8); return d; }
    case 3: return (double)r.irange(-100, 100);
    case 4: return r.chance(0.3) ? INFINITY : r.chance(0.5) ? -INFINITY : NAN;
    case 5: return 1.7976931348623157e308 * r.unit();
    default: return r.range(-10, 10);
    }
}
struct Sess;
struct Test : Expect {
    Rng &r;
    std::string text;
    long target = -1;       // wanted length of the message
    std::vector<std::unique_ptr<char[]>> keep;
    struct OutBuf { char *p; std::string bytes; std::string name; };
    std::vector<OutBuf> outs;
    std::vector<char *> blocks;
    Test(Fn f, Rng &r_) : r(r_) { fn = f; text = std::string(fnName[f]) + "("; }
    ~Test() { for (char *b : blocks) ::free(b); }
    char *block(size_t n) { char *p = (char *)malloc(n ? n : 1); memset(p, 0, n ? n : 1); blocks.push_back(p); return p; }
    void name(const char *n) { if (text.back() != '(') text += ", "; text += n; text += "="; }
    void val(uint64_t b) { args.push_back({VALUE, b, nullptr, 0, ""}); }
    size_t len() { if (target >= 0) return r.below(5); return r.chance(0.1) ? 0 : r.chance(0.5) ? r.below(4) : r.chance(0.8) ? r.below(60) : r.below(600); }
    // scalars
    double d(const char *n) { double v = anyDouble(r); val(bitsOf(v)); name(n); char b[64]; snprintf(b, sizeof b, "%.16g", v); text += b; return v; }
    template <class T> T i(const char *n) {
        T v;
        if constexpr (std::is_same_v<T, bool>) v = r.chance(0.5);
        else { uint64_t u = r.u64(); v = (T)(r.chance(0.5) ? u : u % 10); }
        val(bitsOf(v));
        name(n);
        text += std::is_same_v<T, bool> ? (v ? "1" : "0") : std::to_string(v);
        return v;
    }
    int b2(const char *n) { int v = (int)r.below(2); val(bitsOf(v)); name(n); text += std::to_string(v); return v; }
    template <class T> T en(const char *n, int m) { int v = (int)r.below((size_t)m); val((uint64_t)v); name(n); text += std::to_string(v); return (T)v; }
    size_t z(const char *n, size_t v) { val(v); name(n); text += std::to_string(v); return v; }
    void *ptr(const char *n) { void *p = r.chance(0.1) ? nullptr : (void *)(uintptr_t)(r.u64() >> 17); val((uint64_t)p); name(n); text += addr(p); return p; }
    const char *str(const char *n, bool mayNull) {
        if (mayNull && r.chance(0.0)) return nullptr;
        std::string s = word(30);
        char *p = block(s.size() + 1);
        memcpy(p, s.c_str(), s.size() + 1);
        args.push_back({TEXT, 0, p, 0, s});
        if (n) { name(n); text += "\"" + s + "\""; }
        return p;
    }
    std::string word(size_t n) {
        std::string s;
        for (size_t k = r.chance(0.05) ? 500 + r.below(1000) : r.below(n + 1); k; k--) s += r.chance(0.9) ? (char)r.irange(32, 126) : (char)r.irange(128, 255);
        return s;
    }
    template <class T> static std::string show(const T &v) {
        char b[64];
        if constexpr (std::is_same_v<T, double>) snprintf(b, sizeof b, "%.16g", v);
        else if constexpr (std::is_same_v<T, float>) snprintf(b, sizeof b, "%.7g", (double)v);
        else if constexpr (std::is_same_v<T, bool>) snprintf(b, sizeof b, "%d", (int)v);
        else return std::to_string(v);
        return b;
    }
    template <class T> T any() {
        if constexpr (std::is_same_v<T, double>) return anyDouble(r);
        else if constexpr (std::is_same_v<T, float>) return (float)anyDouble(r);
        else if constexpr (std::is_same_v<T, bool>) return r.chance(0.5);
        else { uint64_t u = r.u64(); return (T)(r.chance(0.5) ? u : u % 10); }
    }
    template <class T> std::string list(const std::vector<T> &v) { std::string s; for (size_t k = 0; k < v.size(); k++) s += (k ? ", " : "") + show<T>(v[k]); return "{" + s + "}"; }
    enum How { LIST, ADDR, PLAIN };
    // an array that is read
    template <class T> T *in(const char *n, size_t k, How how = LIST) {
        T *p = (T *)block(k * sizeof(T));
        std::vector<T> v(k);
        for (size_t q = 0; q < k; q++) { v[q] = any<T>(); p[q] = v[q]; }
        args.push_back({IN, 0, p, k * sizeof(T), ""});
        name(n);
        text += how == ADDR ? addr(p) : list(v);
        return p;
    }
    // an array or value that is written
    template <class T> T *out(const char *n, size_t k, How how = LIST) {
        T *p = (T *)block(k * sizeof(T));
        std::string b(k * sizeof(T), 0);
        std::vector<T> v(k);
        for (size_t q = 0; q < k; q++) { T x = any<T>(); v[q] = x; memcpy(&b[q * sizeof(T)], &x, sizeof x); }
        args.push_back({OUT, 0, p, k * sizeof(T), b});
        outs.push_back({(char *)p, b, n});
        name(n);
        text += how == ADDR ? addr(p) : how == PLAIN ? show<T>(v[0]) : list(v);
        return p;
    }
    int *out2(const char *n) { int *p = (int *)block(sizeof(int)); int x = (int)r.below(2); std::string b((char *)&x, sizeof x); args.push_back({OUT, 0, p, sizeof x, b}); outs.push_back({(char *)p, b, n}); name(n); text += std::to_string(x); return p; }
    // arrays of texts; the last one makes the message as long as wanted
    std::vector<std::string> words(size_t k) {
        std::vector<std::string> w;
        size_t have = text.size() + 40;
        for (size_t q = 0; q < k; q++) {
            if (q + 1 == k && target > (long)have) {
                size_t want = (size_t)(target - (long)have) + r.below(80);
                std::string s;
                while (s.size() < want) s += (char)r.irange(33, 126);
                w.push_back(s);
            } else w.push_back(word(40));
            have += w.back().size() + 4;
        }
        return w;
    }
    const char **strings(const char *n, size_t k, bool isOut) {
        const char **p = (const char **)block(k * sizeof(char *));
        name(n);
        auto w = words(k);
        std::string s, b(k * sizeof(char *), 0);
        for (size_t q = 0; q < k; q++) {
            char *c = block(w[q].size() + 1);
            memcpy(c, w[q].c_str(), w[q].size() + 1);
            if (!isOut) p[q] = c;
            memcpy(&b[q * sizeof(char *)], &c, sizeof c);
            s += (q ? ", \"" : "\"") + w[q] + "\"";
        }
        if (isOut) { args.push_back({OUT, 0, p, b.size(), b}); outs.push_back({(char *)p, b, n}); }
        else args.push_back({IN, 0, p, b.size(), ""});
        text += "{" + s + "}";
        return p;
    }
    void binaries(size_t k, bool isOut, size_t **sizes, const unsigned char ***values) {
        auto w = words(k);
        if (target >= 0 && k) w.back().resize(w.back().size() / 2);
        *sizes = (size_t *)block(k * sizeof(size_t));
        *values = (const unsigned char **)block(k * sizeof(char *));
        std::string s, t, b(k * 8, 0), c(k * 8, 0);
        for (size_t q = 0; q < k; q++) {
            size_t n = w[q].size();
            char *x = block(n);
            for (size_t j = 0; j < n; j++) w[q][j] = (char)r.below(256);
            memcpy(x, w[q].data(), n);
            if (!isOut) { (*sizes)[q] = n; (*values)[q] = (unsigned char *)x; }
            memcpy(&b[q * 8], &n, 8);
            memcpy(&c[q * 8], &x, 8);
            s += (q ? ", " : "") + std::to_string(n);
            t += q ? ", 0x" : "0x";
            for (size_t j = 0; j < n; j++) { char h[4]; snprintf(h, sizeof h, "%02x", (unsigned char)x[j]); t += h; }
        }
        if (isOut) {
            args.push_back({OUT, 0, *sizes, k * 8, b});
            args.push_back({OUT, 0, *values, k * 8, c});
            outs.push_back({(char *)*sizes, b, "sizes"});
            outs.push_back({(char *)*values, c, "values"});
        } else {
            args.push_back({IN, 0, *sizes, k * 8, ""});
            args.push_back({IN, 0, *values, k * 8, ""});
        }
        name("sizes");
        text += "{" + s + "}";
        name("values");
        text += "{" + t + "}";
    }
};

// ------------------------------------------------------------------ a session with one instance
struct Sess {
    FMIInstance *i = nullptr;
    int ver = 0, type = 0;
    bool eventMode = false;
    bool listen = false;    // call log on
    int state = 0;
    bool nullLog = false;
    int atLeast = FMIOK, atMost = FMIOK;    // the recorded status
    std::string name;
    ~Sess() { if (i) { InCall c("FMIFreeInstance"); FMIFreeInstance(i); } }
};

// Functions whose result the import library does not record in the instance.
static const std::set<int> unrecorded = {F3_SetDebugLogging, F3_GetBinary, F3_SetBinary, F3_GetClock, F3_SetClock, F3_SerializedFMUStateSize, F3_UpdateDiscreteStates, F3_CompletedIntegratorStep, F3_SetContinuousStates,
                                         F3_GetContinuousStateDerivatives, F3_GetEventIndicators, F3_GetContinuousStates, F3_GetNominalsOfContinuousStates, F3_DoStep};

template <class C> static void check(Sess &s, Test &t, int status, C &&call, bool isStatus = true) {
    t.ret = (uint64_t)status;
    calls.clear();
    logs.clear();
    strayCall.clear();
    cur = &t;
    trace("%s", t.text.substr(0, 300).c_str());
    long got;
    { Imp ic(fnName[t.fn]); got = (long)call(); }
    cur = nullptr;
    t.text += ")";
    const char *n = fnName[t.fn];
    if (!strayCall.empty()) fail("other call", "%s called %s", n, strayCall.c_str());
    if (t.calls != 1) fail("calls", "%s was called %d times", n, t.calls);
    if (!t.wrong.empty()) fail("argument", "%s: %s", n, t.wrong.c_str());
    if (isStatus && got != status) fail("status", "%s returned %ld but the FMU returned %d", n, got, status);
    for (auto &o : t.outs) if (memcmp(o.p, o.bytes.data(), o.bytes.size())) fail("result", "%s: result %s is not what the FMU delivered", n, o.name.c_str());
    if (isStatus) {
        s.atMost = std::max(s.atMost, status);
        if (s.ver == 3 && !unrecorded.count(t.fn)) s.atLeast = std::max(s.atLeast, status);
        if ((int)s.i->status < s.atLeast || (int)s.i->status > s.atMost) fail("recorded status", "after %s the recorded status is %d instead of %d to %d", n, (int)s.i->status, s.atLeast, s.atMost);
        s.atLeast = (int)s.i->status;
    }
    count("evaluations");
    feature("%s status %d log %d", n, status, s.listen);
    if (s.listen) {
        if (calls.size() != 1) fail("log count", "%zu messages for one call of %s", calls.size(), n);
        if (calls[0].i != s.i) fail("log instance", "the message of %s came with another instance", n);
        if (isStatus && calls[0].status != status) fail("log status", "the call of %s is logged with status %d instead of %d", n, calls[0].status, status);
        if (P == 29) {
            const std::string &g = calls[0].text;
            if (!same(t.text, g)) {
                size_t k = 0;
                while (k < g.size() && k < t.text.size() && g[k] == t.text[k]) k++;
                fail("log text", "%s: the message of %zu characters is wrong from position %zu: \"%.60s\" instead of \"%.60s\"", n, g.size(), k, g.substr(k).c_str(), k < t.text.size() ? t.text.substr(k).c_str() : "");
            }
            feature("%s length %zu", n, g.size());
            if (g.size() > 1000) count("messages over 1000 characters");
            if (g.size() > 1000 && g.size() < 1300) sample("%s: message of %zu characters exact", n, g.size());
        }
    } else if (!calls.empty()) fail("log count", "%s was logged without listener", n);
}

static void expectState(Sess &s, int status, int state, const char *what) {
    if (status <= FMIWarning) {
        s.state = state;
        if (s.i->state != state) fail("state", "the mode tracked after %s is %#x instead of %#x", what, (unsigned)s.i->state, (unsigned)state);
        count("states");
    }
    s.state = s.i->state;
}

// ------------------------------------------------------------------ the functions
typedef std::function<void(Sess &, Rng &, long)> Step;
static std::vector<Step> steps2me, steps2cs, steps3;

static int anyStatus(Rng &r, int n) { return r.chance(0.5) ? 0 : (int)r.below((size_t)n); }

#define T2(f) [](Sess &s, Rng &r, long target) { (void)s; Test t(F2_##f, r); t.target = target; int st = anyStatus(r, 6);
#define T3(f) [](Sess &s, Rng &r, long target) { (void)s; Test t(F3_##f, r); t.target = target; int st = anyStatus(r, 5);
#define CHECK(call) check(s, t, st, [&] { return call; })
#define END })

static void make2() {
    auto both = [](Step f) { steps2me.push_back(f); steps2cs.push_back(f); };
#define GETSET(S, N, T, io) both(T2(S##N) size_t n = t.len(); auto vr = t.in<uint32_t>("vr", n); t.z("nvr", n); auto v = t.io<T>("value", n); CHECK(FMI2##S##N(s.i, vr, n, v)); END
    GETSET(Get, Real, double, out); GETSET(Set, Real, double, in);
    GETSET(Get, Integer, int, out); GETSET(Set, Integer, int, in);
    GETSET(Get, Boolean, int, out); GETSET(Set, Boolean, int, in);
#undef GETSET
    both(T2(GetString) size_t n = t.len(); if (target >= 0) n = 1 + r.below(4); auto vr = t.in<uint32_t>("vr", n); t.z("nvr", n); auto v = t.strings("value", n, true); CHECK(FMI2GetString(s.i, vr, n, v)); END;
    both(T2(SetString) size_t n = t.len(); if (target >= 0) n = 1 + r.below(4); auto vr = t.in<uint32_t>("vr", n); t.z("nvr", n); auto v = t.strings("value", n, false); CHECK(FMI2SetString(s.i, vr, n, v)); END;
    both(T2(SetDebugLogging) int on = t.b2("loggingOn"); size_t n = target >= 0 ? 1 + r.below(3) : r.below(20); t.z("nCategories", n); auto c = t.strings("categories", n, false); CHECK(FMI2SetDebugLogging(s.i, on, n, c)); END;
    both(T2(SetupExperiment) int a = t.b2("toleranceDefined"); double b = t.d("tolerance"), c = t.d("startTime"); int d = t.b2("stopTimeDefined"); double e = t.d("stopTime"); CHECK(FMI2SetupExperiment(s.i, a, b, c, d, e)); END;
    both(T2(EnterInitializationMode) CHECK(FMI2EnterInitializationMode(s.i)); expectState(s, st, FMIInitializationModeState, "EnterInitializationMode"); END;
    both(T2(ExitInitializationMode) CHECK(FMI2ExitInitializationMode(s.i)); expectState(s, st, s.type == ME ? FMIEventModeState : FMIStepModeState, "ExitInitializationMode"); END;
    both(T2(Terminate) CHECK(FMI2Terminate(s.i)); expectState(s, st, FMITerminatedState, "Terminate"); END;
    both(T2(Reset) CHECK(FMI2Reset(s.i)); expectState(s, st, FMIInstantiatedState, "Reset"); END;
    both(T2(GetFMUstate) auto p = t.out<size_t>("FMUstate", 1, Test::ADDR); CHECK(FMI2GetFMUstate(s.i, (void **)p)); END;
    both(T2(SetFMUstate) auto p = t.ptr("FMUstate"); CHECK(FMI2SetFMUstate(s.i, p)); END;
    both(T2(FreeFMUstate) auto p = t.out<size_t>("FMUstate", 1, Test::ADDR); CHECK(FMI2FreeFMUstate(s.i, (void **)p)); END;
    both(T2(SerializedFMUstateSize) auto p = t.ptr("FMUstate"); auto z = t.out<size_t>("size", 1, Test::PLAIN); CHECK(FMI2SerializedFMUstateSize(s.i, p, z)); END;
    both(T2(SerializeFMUstate) auto p = t.ptr("FMUstate"); size_t n = t.len(); auto b = t.out<signed char>("serializedState", n, Test::ADDR); t.z("size", n); CHECK(FMI2SerializeFMUstate(s.i, p, (char *)b, n)); END;
    both(T2(DeSerializeFMUstate) size_t n = t.len(); auto b = t.in<signed char>("serializedState", n, Test::ADDR); t.z("size", n); auto p = t.out<size_t>("FMUstate", 1, Test::ADDR); CHECK(FMI2DeSerializeFMUstate(s.i, (const char *)b, n, (void **)p)); END;
    both(T2(GetDirectionalDerivative) size_t a = t.len(), b = t.len(); auto u = t.in<uint32_t>("vUnknown_ref", a); t.z("nUnknown", a); auto k = t.in<uint32_t>("vKnown_ref", b); t.z("nKnown", b);
         auto d = t.in<double>("dvKnown", b); auto e = t.out<double>("dvUnknown", a); CHECK(FMI2GetDirectionalDerivative(s.i, u, a, k, b, d, e)); END;
    auto &me = steps2me;
    auto &cs = steps2cs;
    me.push_back(T2(EnterEventMode) CHECK(FMI2EnterEventMode(s.i)); expectState(s, st, FMIEventModeState, "EnterEventMode"); END;
    me.push_back(T2(EnterContinuousTimeMode) CHECK(FMI2EnterContinuousTimeMode(s.i)); expectState(s, st, FMIContinuousTimeModeState, "EnterContinuousTimeMode"); END;
    me.push_back(T2(NewDiscreteStates)
        fmi2EventInfo *e = (fmi2EventInfo *)t.block(sizeof *e);
        fmi2EventInfo w;
        memset((void *)&w, 0, sizeof w);
        w.newDiscreteStatesNeeded = (int)r.below(2); w.terminateSimulation = (int)r.below(2); w.nominalsOfContinuousStatesChanged = (int)r.below(2); w.valuesOfContinuousStatesChanged = (int)r.below(2);
        w.nextEventTimeDefined = (int)r.below(2); w.nextEventTime = anyDouble(r);
        std::string b((char *)&w, sizeof w);
        t.args.push_back({OUT, 0, e, sizeof w, b});
        t.outs.push_back({(char *)e, b, "eventInfo"});
        char m[400];
        snprintf(m, sizeof m, "eventInfo={newDiscreteStatesNeeded=%d, terminateSimulation=%d, nominalsOfContinuousStatesChanged=%d, valuesOfContinuousStatesChanged=%d, nextEventTimeDefined=%d, nextEventTime=%.16g}",
                 w.newDiscreteStatesNeeded, w.terminateSimulation, w.nominalsOfContinuousStatesChanged, w.valuesOfContinuousStatesChanged, w.nextEventTimeDefined, w.nextEventTime);
        t.text += m;
        CHECK(FMI2NewDiscreteStates(s.i, e)); END;
    me.push_back(T2(CompletedIntegratorStep) int a = t.b2("noSetFMUStatePriorToCurrentPoint"); auto b = t.out2("enterEventMode"); auto c = t.out2("terminateSimulation"); CHECK(FMI2CompletedIntegratorStep(s.i, a, b, c)); END;
    me.push_back(T2(SetTime) double d = t.d("time"); CHECK(FMI2SetTime(s.i, d)); END;
    me.push_back(T2(SetContinuousStates) size_t n = t.len(); auto x = t.in<double>("x", n); t.z("nx", n); CHECK(FMI2SetContinuousStates(s.i, x, n)); END;
    me.push_back(T2(GetDerivatives) size_t n = t.len(); auto x = t.out<double>("derivatives", n); t.z("nx", n); CHECK(FMI2GetDerivatives(s.i, x, n)); END;
    me.push_back(T2(GetEventIndicators) size_t n = t.len(); auto x = t.out<double>("eventIndicators", n); t.z("ni", n); CHECK(FMI2GetEventIndicators(s.i, x, n)); END;
    me.push_back(T2(GetContinuousStates) size_t n = t.len(); auto x = t.out<double>("x", n); t.z("nx", n); CHECK(FMI2GetContinuousStates(s.i, x, n)); END;
    me.push_back(T2(GetNominalsOfContinuousStates) size_t n = t.len(); auto x = t.out<double>("x_nominal", n); t.z("nx", n); CHECK(FMI2GetNominalsOfContinuousStates(s.i, x, n)); END;
    cs.push_back(T2(SetRealInputDerivatives) size_t n = t.len(); auto v = t.in<uint32_t>("vr", n, Test::ADDR); t.z("nvr", n); auto o = t.in<int>("order", n, Test::ADDR); auto x = t.in<double>("value", n, Test::ADDR); CHECK(FMI2SetRealInputDerivatives(s.i, v, n, o, x)); END;
    cs.push_back(T2(GetRealOutputDerivatives) size_t n = t.len(); auto v = t.in<uint32_t>("vr", n, Test::ADDR); t.z("nvr", n); auto o = t.in<int>("order", n, Test::ADDR); auto x = t.out<double>("value", n, Test::ADDR); CHECK(FMI2GetRealOutputDerivatives(s.i, v, n, o, x)); END;
    cs.push_back(T2(DoStep) double a = t.d("currentCommunicationPoint"), b = t.d("communicationStepSize"); int c = t.b2("noSetFMUStatePriorToCurrentPoint"); CHECK(FMI2DoStep(s.i, a, b, c)); END;
    cs.push_back(T2(CancelStep) CHECK(FMI2CancelStep(s.i)); END;
    cs.push_back(T2(GetStatus) auto k = t.en<fmi2StatusKind>("s", 4); auto v = t.out<int>("value", 1, Test::PLAIN); CHECK(FMI2GetStatus(s.i, k, (fmi2Status *)v)); END;
    cs.push_back(T2(GetRealStatus) auto k = t.en<fmi2StatusKind>("s", 4); auto v = t.out<double>("value", 1, Test::PLAIN); CHECK(FMI2GetRealStatus(s.i, k, v)); END;
    cs.push_back(T2(GetIntegerStatus) auto k = t.en<fmi2StatusKind>("s", 4); auto v = t.out<int>("value", 1, Test::PLAIN); CHECK(FMI2GetIntegerStatus(s.i, k, v)); END;
    cs.push_back(T2(GetBooleanStatus) auto k = t.en<fmi2StatusKind>("s", 4); auto v = t.out2("value"); CHECK(FMI2GetBooleanStatus(s.i, k, v)); END;
    cs.push_back(T2(GetStringStatus) auto k = t.en<fmi2StatusKind>("s", 4);
        std::string w = t.words(1)[0];
        char *c = t.block(w.size() + 1);
        memcpy(c, w.c_str(), w.size() + 1);
        const char **v = (const char **)t.block(sizeof(char *));
        std::string b((char *)&c, sizeof c);
        t.args.push_back({OUT, 0, v, sizeof c, b});
        t.outs.push_back({(char *)v, b, "value"});
        t.name("value");
        t.text += "\"" + w + "\"";
        CHECK(FMI2GetStringStatus(s.i, k, v)); END;
}

static void make3() {
    auto &st3 = steps3;
#define VR size_t n = t.len(); auto vr = t.in<uint32_t>("valueReferences", n); t.z("nValueReferences", n);
#define VRP size_t n = t.len(); auto vr = t.in<uint32_t>("valueReferences", n, Test::ADDR); t.z("nValueReferences", n);
#define GETSET(S, N, T, io) st3.push_back(T3(S##N) VR size_t m = r.chance(0.7) ? n : t.len(); auto v = t.io<T>("values", m); t.z("nValues", m); CHECK(FMI3##S##N(s.i, vr, n, v, m)); END
#define GS(N, T) GETSET(Get, N, T, out); GETSET(Set, N, T, in)
    GS(Float32, float); GS(Float64, double); GS(Int8, int8_t); GS(UInt8, uint8_t); GS(Int16, int16_t); GS(UInt16, uint16_t); GS(Int32, int32_t); GS(UInt32, uint32_t); GS(Int64, int64_t); GS(UInt64, uint64_t); GS(Boolean, bool);
    st3.push_back(T3(GetString) VR size_t m = target >= 0 ? 1 + r.below(4) : t.len(); auto v = t.strings("values", m, true); t.z("nValues", m); CHECK(FMI3GetString(s.i, vr, n, v, m)); END;
    st3.push_back(T3(SetString) VR size_t m = target >= 0 ? 1 + r.below(4) : t.len(); auto v = t.strings("values", m, false); t.z("nValues", m); CHECK(FMI3SetString(s.i, vr, n, v, m)); END;
    st3.push_back(T3(GetBinary) VR size_t m = target >= 0 ? 1 + r.below(4) : r.chance(0.5) ? n : t.len(); size_t *z; const unsigned char **v; t.binaries(m, true, &z, &v); t.z("nValues", m); CHECK(FMI3GetBinary(s.i, vr, n, z, v, m)); END;
    st3.push_back(T3(SetBinary) VR size_t m = target >= 0 ? 1 + r.below(4) : r.chance(0.5) ? n : t.len(); size_t *z; const unsigned char **v; t.binaries(m, false, &z, &v); t.z("nValues", m); CHECK(FMI3SetBinary(s.i, vr, n, z, v, m)); END;
    st3.push_back(T3(GetClock) VR auto v = t.out<bool>("values", n); CHECK(FMI3GetClock(s.i, vr, n, v)); END;
    st3.push_back(T3(SetClock) VR auto v = t.in<bool>("values", n); CHECK(FMI3SetClock(s.i, vr, n, v)); END;
    st3.push_back(T3(SetDebugLogging) bool on = t.i<bool>("loggingOn"); size_t n = target >= 0 ? 1 + r.below(3) : r.below(20); t.z("nCategories", n); auto c = t.strings("categories", n, false); CHECK(FMI3SetDebugLogging(s.i, on, n, c)); END;
    st3.push_back(T3(EnterInitializationMode) bool a = t.i<bool>("toleranceDefined"); double b = t.d("tolerance"), c = t.d("startTime"); bool d = t.i<bool>("stopTimeDefined"); double e = t.d("stopTime");
        CHECK(FMI3EnterInitializationMode(s.i, a, b, c, d, e)); expectState(s, st, FMIInitializationModeState, "EnterInitializationMode"); END;
    st3.push_back(T3(ExitInitializationMode) CHECK(FMI3ExitInitializationMode(s.i));
        expectState(s, st, s.type == ME || (s.type == CSIM && s.eventMode) ? FMIEventModeState : s.type == CSIM ? FMIStepModeState : FMIClockActivationMode, "ExitInitializationMode"); END;
    st3.push_back(T3(EnterEventMode) CHECK(FMI3EnterEventMode(s.i)); expectState(s, st, FMIEventModeState, "EnterEventMode"); END;
    st3.push_back(T3(Terminate) CHECK(FMI3Terminate(s.i)); expectState(s, st, FMITerminatedState, "Terminate"); END;
    st3.push_back(T3(Reset) CHECK(FMI3Reset(s.i)); expectState(s, st, FMIInstantiatedState, "Reset"); END;
    st3.push_back(T3(EnterConfigurationMode) bool fresh = s.i->state == FMIInstantiatedState; CHECK(FMI3EnterConfigurationMode(s.i)); expectState(s, st, fresh ? FMIConfigurationModeState : FMIReconfigurationModeState, "EnterConfigurationMode"); END;
    st3.push_back(T3(ExitConfigurationMode)
        int was = s.i->state;
        if (was != FMIConfigurationModeState && was != FMIReconfigurationModeState) return;
        CHECK(FMI3ExitConfigurationMode(s.i));
        expectState(s, st, was == FMIConfigurationModeState ? FMIInstantiatedState : s.type == ME ? FMIEventModeState : s.type == CSIM ? FMIStepModeState : FMIClockActivationMode, "ExitConfigurationMode"); END;
    st3.push_back(T3(EnterContinuousTimeMode) CHECK(FMI3EnterContinuousTimeMode(s.i)); expectState(s, st, FMIContinuousTimeModeState, "EnterContinuousTimeMode"); END;
    st3.push_back(T3(EnterStepMode) CHECK(FMI3EnterStepMode(s.i)); expectState(s, st, FMIStepModeState, "EnterStepMode"); END;
    st3.push_back(T3(EvaluateDiscreteStates) CHECK(FMI3EvaluateDiscreteStates(s.i)); END;
    st3.push_back(T3(GetNumberOfVariableDependencies) auto v = t.i<uint32_t>("valueReference"); auto n = t.out<size_t>("nDependencies", 1, Test::ADDR); CHECK(FMI3GetNumberOfVariableDependencies(s.i, v, n)); END;
    st3.push_back(T3(GetVariableDependencies) size_t n = t.len(); auto v = t.i<uint32_t>("dependent"); auto a = t.out<size_t>("elementIndicesOfDependent", n, Test::ADDR); auto b = t.out<uint32_t>("independents", n, Test::ADDR);
        auto c = t.out<size_t>("elementIndicesOfIndependents", n, Test::ADDR); auto d = t.out<int>("dependencyKinds", n, Test::ADDR); t.z("nDependencies", n);
        CHECK(FMI3GetVariableDependencies(s.i, v, a, b, c, (fmi3DependencyKind *)d, n)); END;
    st3.push_back(T3(GetFMUState) auto p = t.out<size_t>("FMUState", 1, Test::ADDR); CHECK(FMI3GetFMUState(s.i, (void **)p)); END;
    st3.push_back(T3(SetFMUState) auto p = t.ptr("FMUState"); CHECK(FMI3SetFMUState(s.i, p)); END;
    st3.push_back(T3(FreeFMUState) auto p = t.out<size_t>("FMUState", 1, Test::ADDR); CHECK(FMI3FreeFMUState(s.i, (void **)p)); END;
    st3.push_back(T3(SerializedFMUStateSize) auto p = t.ptr("FMUState"); auto z = t.out<size_t>("size", 1, Test::PLAIN); CHECK(FMI3SerializedFMUStateSize(s.i, p, z)); END;
    st3.push_back(T3(SerializeFMUState) auto p = t.ptr("FMUstate"); size_t n = t.len(); auto b = t.out<uint8_t>("serializedState", n, Test::ADDR); t.z("size", n); CHECK(FMI3SerializeFMUState(s.i, p, b, n)); END;
    st3.push_back(T3(DeserializeFMUState) size_t n = t.len(); auto b = t.in<uint8_t>("serializedState", n, Test::ADDR); t.z("size", n); auto p = t.out<size_t>("FMUState", 1, Test::ADDR); CHECK(FMI3DeserializeFMUState(s.i, b, n, (void **)p)); END;
#define DER(f) st3.push_back(T3(f) size_t a = t.len(), b = t.len(), c = t.len(), d = t.len(); auto u = t.in<uint32_t>("unknowns", a, Test::ADDR); t.z("nUnknowns", a); auto k = t.in<uint32_t>("knowns", b, Test::ADDR); t.z("nKnowns", b); \
        auto x = t.in<double>("seed", c, Test::ADDR); t.z("nSeed", c); auto y = t.out<double>("sensitivity", d, Test::ADDR); t.z("nSensitivity", d); CHECK(FMI3##f(s.i, u, a, k, b, x, c, y, d)); END
    DER(GetDirectionalDerivative);
    DER(GetAdjointDerivative);
    st3.push_back(T3(GetIntervalDecimal) VRP auto a = t.out<double>("intervals", n, Test::ADDR); auto q = t.out<int>("qualifiers", n, Test::ADDR); CHECK(FMI3GetIntervalDecimal(s.i, vr, n, a, (fmi3IntervalQualifier *)q)); END;
    st3.push_back(T3(GetIntervalFraction) VRP auto a = t.out<uint64_t>("intervalCounters", n, Test::ADDR); auto b = t.out<uint64_t>("resolutions", n, Test::ADDR); auto q = t.out<int>("qualifiers", n, Test::ADDR); CHECK(FMI3GetIntervalFraction(s.i, vr, n, a, b, (fmi3IntervalQualifier *)q)); END;
    st3.push_back(T3(GetShiftDecimal) VRP auto a = t.out<double>("shifts", n, Test::ADDR); CHECK(FMI3GetShiftDecimal(s.i, vr, n, a)); END;
    st3.push_back(T3(GetShiftFraction) VRP auto a = t.out<uint64_t>("shiftCounters", n, Test::ADDR); auto b = t.out<uint64_t>("resolutions", n, Test::ADDR); CHECK(FMI3GetShiftFraction(s.i, vr, n, a, b)); END;
    st3.push_back(T3(SetIntervalDecimal) VRP auto a = t.in<double>("intervals", n, Test::ADDR); CHECK(FMI3SetIntervalDecimal(s.i, vr, n, a)); END;
    st3.push_back(T3(SetIntervalFraction) VRP auto a = t.in<uint64_t>("intervalCounters", n, Test::ADDR); auto b = t.in<uint64_t>("resolutions", n, Test::ADDR); CHECK(FMI3SetIntervalFraction(s.i, vr, n, a, b)); END;
    st3.push_back(T3(SetShiftDecimal) VRP auto a = t.in<double>("shifts", n, Test::ADDR); CHECK(FMI3SetShiftDecimal(s.i, vr, n, a)); END;
    st3.push_back(T3(SetShiftFraction) VRP auto a = t.in<uint64_t>("shiftCounters", n, Test::ADDR); auto b = t.in<uint64_t>("resolutions", n, Test::ADDR); CHECK(FMI3SetShiftFraction(s.i, vr, n, a, b)); END;
    st3.push_back(T3(UpdateDiscreteStates) auto a = t.out<bool>("discreteStatesNeedUpdate", 1, Test::PLAIN); auto b = t.out<bool>("terminateSimulation", 1, Test::PLAIN); auto c = t.out<bool>("nominalsOfContinuousStatesChanged", 1, Test::PLAIN);
        auto d = t.out<bool>("valuesOfContinuousStatesChanged", 1, Test::PLAIN); auto e = t.out<bool>("nextEventTimeDefined", 1, Test::PLAIN); auto f = t.out<double>("nextEventTime", 1, Test::PLAIN); CHECK(FMI3UpdateDiscreteStates(s.i, a, b, c, d, e, f)); END;
    st3.push_back(T3(CompletedIntegratorStep) bool a = t.i<bool>("noSetFMUStatePriorToCurrentPoint"); auto b = t.out<bool>("enterEventMode", 1, Test::PLAIN); auto c = t.out<bool>("terminateSimulation", 1, Test::PLAIN); CHECK(FMI3CompletedIntegratorStep(s.i, a, b, c)); END;
    st3.push_back(T3(SetTime) double d = t.d("time"); CHECK(FMI3SetTime(s.i, d)); END;
    st3.push_back(T3(SetContinuousStates) size_t n = t.len(); auto x = t.in<double>("continuousStates", n); t.z("nContinuousStates", n); CHECK(FMI3SetContinuousStates(s.i, x, n)); END;
    st3.push_back(T3(GetContinuousStateDerivatives) size_t n = t.len(); auto x = t.out<double>("derivatives", n); t.z("nContinuousStates", n); CHECK(FMI3GetContinuousStateDerivatives(s.i, x, n)); END;
    st3.push_back(T3(GetEventIndicators) size_t n = t.len(); auto x = t.out<double>("eventIndicators", n); t.z("nEventIndicators", n); CHECK(FMI3GetEventIndicators(s.i, x, n)); END;
    st3.push_back(T3(GetContinuousStates) size_t n = t.len(); auto x = t.out<double>("continuousStates", n); t.z("nContinuousStates", n); CHECK(FMI3GetContinuousStates(s.i, x, n)); END;
    st3.push_back(T3(GetNominalsOfContinuousStates) size_t n = t.len(); auto x = t.out<double>("nominals", n); t.z("nContinuousStates", n); CHECK(FMI3GetNominalsOfContinuousStates(s.i, x, n)); END;
    st3.push_back(T3(GetNumberOfEventIndicators) auto n = t.out<size_t>("nEventIndicators", 1, Test::PLAIN); CHECK(FMI3GetNumberOfEventIndicators(s.i, n)); END;
    st3.push_back(T3(GetNumberOfContinuousStates) auto n = t.out<size_t>("nContinuousStates", 1, Test::PLAIN); CHECK(FMI3GetNumberOfContinuousStates(s.i, n)); END;
    st3.push_back(T3(GetOutputDerivatives) VRP auto o = t.in<int32_t>("orders", n, Test::ADDR); size_t m = t.len(); auto v = t.out<double>("values", m, Test::ADDR); t.z("nValues", m); CHECK(FMI3GetOutputDerivatives(s.i, vr, n, o, v, m)); END;
    st3.push_back(T3(DoStep) double a = t.d("currentCommunicationPoint"), b = t.d("communicationStepSize"); bool c = t.i<bool>("noSetFMUStatePriorToCurrentPoint"); auto d = t.out<bool>("eventHandlingNeeded", 1, Test::PLAIN);
        auto e = t.out<bool>("terminateSimulation", 1, Test::PLAIN); auto f = t.out<bool>("earlyReturn", 1, Test::PLAIN); auto g = t.out<double>("lastSuccessfulTime", 1, Test::PLAIN); CHECK(FMI3DoStep(s.i, a, b, c, d, e, f, g)); END;
    st3.push_back(T3(ActivateModelPartition) auto c = t.i<uint32_t>("clockReference"); double d = t.d("activationTime"); CHECK(FMI3ActivateModelPartition(s.i, c, d)); END;
}

// ------------------------------------------------------------------ instantiation
static void dummyIu(void *, double, bool, bool, bool, bool, bool *, double *) {}
static void dummyClock(void *) {}
static void dummyLock() {}
static void dummyUnlock() {}

static void argText(Test &t, const std::string &s, const char *n) { t.args.push_back({TEXT, 0, "x", 0, s}); t.name(n); t.text += "\"" + s + "\""; }
static void argPtr(Test &t, const void *p, const char *n) { t.args.push_back({VALUE, (uint64_t)p, nullptr, 0, ""}); t.name(n); t.text += addr(p); }
static void argAny(Test &t, const char *n) { t.args.push_back({ANY, 0, nullptr, 0, ""}); t.name(n); t.text += "\2"; }

// Opens a session; missing: the function that the library lacks.
static bool open(Sess &s, Rng &r, int ver, int type, const std::string &path, Fn missing = NFN, bool nullLog = false, bool failing = false) {
    s.ver = ver;
    s.type = type;
    s.atLeast = FMIOK;
    std::string iname = "instance " + std::to_string(r.below(1000)) + (r.chance(0.1) ? std::string(1500, 'n') : "");
    Buf<char> nb(iname.size() + 1);
    memcpy(nb.p, iname.c_str(), iname.size() + 1);
    int rc;
    if (s.i) {      // once more with the same instance
        iname = s.name;
        nullLog = s.nullLog;
    } else {
        { Imp c("FMICreateInstance"); s.i = FMICreateInstance(nb.p, nullLog ? nullptr : onLog, s.listen ? onCall : nullptr); }
        if (!s.i && failed) { feature("reported FMICreateInstance"); return false; }
        if (!s.i) fail("create", "FMICreateInstance failed");
        memset(nb.p, 'z', iname.size());        // the name must have been copied
        { InCall c("FMILoadPlatformBinary"); rc = FMILoadPlatformBinary(s.i, path.c_str()); }
        if (rc != FMIOK) fail("load", "FMILoadPlatformBinary failed for an existing library");
        s.name = iname;
        s.nullLog = nullLog;
    }
    fill(s.i->libraryHandle);
    Fn fn = ver == 2 ? F2_Instantiate : type == ME ? F3_InstantiateModelExchange : type == CSIM ? F3_InstantiateCoSimulation : F3_InstantiateScheduledExecution;
    Test t(fn, r);
    t.hasInstance = false;
    t.ret = failing ? 0 : (uint64_t)COMPONENT;
    std::string token = "{" + std::to_string(r.u64()) + "}", res = "file:///some where/%20" + t.word(30);
    bool visible = r.chance(0.5), logging = r.chance(0.5), early = r.chance(0.5);
    s.eventMode = r.chance(0.5);
    size_t nreq = r.below(5);
    uint32_t *req = (uint32_t *)t.block(4 * nreq);
    for (size_t k = 0; k < nreq; k++) req[k] = (uint32_t)r.u64();
    auto flag = [&](bool b, const char *n) { t.val(b); t.name(n); t.text += b ? "1" : "0"; };
    argText(t, iname, "instanceName");
    if (ver == 2) {
        t.val((uint64_t)type); t.name("fmuType"); t.text += std::to_string(type);
        argText(t, token, "fmuGUID");
        argText(t, res, "fmuResourceLocation");
        t.args.push_back({ANY, 0, nullptr, 0, ""});
        t.text += ", functions={\2}";
        flag(visible, "visible");
        flag(logging, "loggingOn");
    } else {
        argText(t, token, "instantiationToken");
        argText(t, res, "resourcePath");
        flag(visible, "visible");
        flag(logging, "loggingOn");
        if (type == CSIM) {
            flag(s.eventMode, "eventModeUsed");
            flag(early, "earlyReturnAllowed");
            t.args.push_back({IN, 0, req, nreq * 4, ""});
            t.name("requiredIntermediateVariables");
            t.text += addr(req);
            t.z("nRequiredIntermediateVariables", nreq);
        }
        argPtr(t, s.i, "instanceEnvironment");
        argAny(t, "logMessage");
        if (type == CSIM) argPtr(t, (void *)dummyIu, "intermediateUpdate");
        if (type == SE) { argPtr(t, (void *)dummyClock, "clockUpdate"); argPtr(t, (void *)dummyLock, "lockPreemption"); argPtr(t, (void *)dummyUnlock, "unlockPreemption"); }
    }
    t.text += ")";
    calls.clear();
    logs.clear();
    strayCall.clear();
    cur = &t;
    long before = failed;
    trace("FMI%d instantiation as %s%s%s%s", ver, ifName(type), missing != NFN ? ", missing " : "", missing != NFN ? fnName[missing] : "", nullLog ? ", no log callback" : "");
    {
        Imp c("instantiation");
        if (ver == 2) rc = FMI2Instantiate(s.i, res.c_str(), (fmi2Type)type, token.c_str(), visible, logging);
        else if (type == ME) rc = FMI3InstantiateModelExchange(s.i, token.c_str(), res.c_str(), visible, logging);
        else if (type == CSIM) rc = FMI3InstantiateCoSimulation(s.i, token.c_str(), res.c_str(), visible, logging, s.eventMode, early, req, nreq, dummyIu);
        else rc = FMI3InstantiateScheduledExecution(s.i, token.c_str(), res.c_str(), visible, logging, s.i, nullptr, dummyClock, dummyLock, dummyUnlock);
    }
    cur = nullptr;
    const char *n = fnName[fn];
    count("evaluations");
    if (failed > before && rc >= FMIError && !t.calls && strayCall.empty()) { feature("reported %s", n); return false; }
    if (missing != NFN) {
        if (rc < FMIError) fail("missing function", "instantiation succeeds though %s is missing", fnName[missing]);
        if (t.calls || !strayCall.empty()) fail("missing function", "a function was called though %s is missing", fnName[missing]);
        if (!nullLog) {
            bool named = false;
            for (auto &m : logs) if (m.text.find(fnName[missing]) != std::string::npos && m.status >= FMIError && m.i == s.i) named = true;
            if (!named) fail("missing function", "no message names the missing function %s", fnName[missing]);
        }
        feature("missing %s %d %d", fnName[missing], type, nullLog);
        return false;
    }
    if (!strayCall.empty()) fail("other call", "%s called %s", n, strayCall.c_str());
    if (t.calls != 1) fail("calls", "%s was called %d times", n, t.calls);
    if (!t.wrong.empty()) fail("argument", "%s: %s", n, t.wrong.c_str());
    if (s.listen) {
        if (calls.size() != 1) fail("log count", "%zu messages for one call of %s", calls.size(), n);
        if ((calls[0].status == FMIOK) == failing) fail("log status", "the call of %s is logged with status %d", n, calls[0].status);
        if (P == 29) {
            // the parts around what is not known outside
            std::string g = calls[0].text;
            size_t cut = t.text.find('\2');
            std::string a = t.text.substr(0, cut), b = t.text.substr(cut + 1);
            std::string tag = ver == 2 ? "}" : b.empty() || b == ")" ? ")" : ", ";
            size_t q = g.find(ver == 2 ? "functions={" : "logMessage=");
            if (q == std::string::npos) fail("log text", "%s: \"%.200s\"", n, g.c_str());
            q += 11;
            size_t e = tag == ")" ? g.rfind(tag) : g.find(tag, q);
            if (e == std::string::npos || !same(a, g.substr(0, q)) || !same(b, g.substr(e))) fail("log text", "%s: \"%.400s\" does not match the arguments", n, g.c_str());
        }
    }
    if (failing) {
        if (rc < FMIError) fail("status", "%s returned no instance but %d is reported", n, rc);
        feature("failing %s", n);
        return false;
    }
    if (rc != FMIOK) fail("status", "%s succeeded but %d is reported", n, rc);
    if (s.i->state != FMIInstantiatedState) fail("state", "the mode tracked after instantiation is %#x", (unsigned)s.i->state);
    s.state = s.i->state;
    feature("%s visible %d logging %d", n, visible, logging);
    // what the FMU got to log with
    for (int k = 0; k < 3; k++) {
        std::string text = t.word(60), cat = t.word(10);
        size_t want = r.chance(0.7) ? r.below(300) : 3500 + r.below(1200);
        while (text.size() < want) text += (char)r.irange(33, 126);
        if (r.chance(0.05)) text.clear();
        if (r.chance(0.05)) cat.clear();
        int st = (int)r.below(5);
        logs.clear();
        bool has = true;
        {
            InCall c("log callback");
            if (ver == 2) {
                const fmi2CallbackFunctions *f = (const fmi2CallbackFunctions *)lastArgs[4];
                if (f->componentEnvironment != s.i) fail("environment", "the component environment is not the instance");
                std::string esc;
                for (char ch : text) { if (ch == '%') esc += '%'; esc += ch; }
                if (r.chance(0.3)) f->logger(f->componentEnvironment, "name", (fmi2Status)st, cat.c_str(), "%s", text.c_str());
                else f->logger(f->componentEnvironment, "name", (fmi2Status)st, cat.c_str(), esc.c_str());
                void *q = f->allocateMemory(3, 5);
                if (!q) fail("callback", "allocateMemory failed");
                memset(q, 1, 15);
                f->freeMemory(q);
            } else {
                size_t pos = type == CSIM ? 10 : 6;
                auto f = (fmi3LogMessageCallback)lastArgs[pos];
                has = f != nullptr;
                if (f) f((void *)lastArgs[pos - 1], (fmi3Status)st, cat.c_str(), text.c_str());
            }
        }
        if (nullLog) { if (!logs.empty()) fail("message", "a message arrived without listener"); continue; }
        if (!has) fail("message", "the FMU got no log callback");
        if (logs.size() != 1 || logs[0].i != s.i || logs[0].status != st || logs[0].category != cat) fail("message", "a message of the FMU was not passed on as it is");
        if (ver == 2 && text.size() > 4095) text.resize(4095);
        if (logs[0].text != text && !(ver == 2 && logs[0].text.size() > 4095)) fail("message", "the text of a message of the FMU was changed: %zu instead of %zu characters", logs[0].text.size(), text.size());
        count("messages");
    }
    return true;
}
static void freeIt(Sess &s) {
    Rng r(1);
    Fn fn = s.ver == 2 ? F2_FreeInstance : F3_FreeInstance;
    Test t(fn, r);
    check(s, t, 0, [&] { if (s.ver == 2) FMI2FreeInstance(s.i); else FMI3FreeInstance(s.i); return 0; }, false);
}

static void versions(Sess &s, Rng &r) {
    static const char *answers[] = {"2.0", "3.0", "", "some version"};
    for (Fn fn : s.ver == 2 ? std::vector<Fn>{F2_GetVersion, F2_GetTypesPlatform} : std::vector<Fn>{F3_GetVersion}) {
        Test t(fn, r);
        t.hasInstance = false;
        const char *a = answers[r.below(4)], *g = nullptr;
        calls.clear();
        strayCall.clear();
        t.ret = (uint64_t)a;
        cur = &t;
        { Imp c(fnName[fn]); g = fn == F2_GetVersion ? FMI2GetVersion(s.i) : fn == F2_GetTypesPlatform ? FMI2GetTypesPlatform(s.i) : FMI3GetVersion(s.i); }
        cur = nullptr;
        if (t.calls != 1 || !strayCall.empty()) fail("calls", "%s was called %d times", fnName[fn], t.calls);
        if (!g || strcmp(g, a)) fail("result", "%s does not return what the FMU returned", fnName[fn]);
        if (s.listen && P != 27 && (calls.size() != 1 || calls[0].text != std::string(fnName[fn]) + "()")) fail("log text", "%s is not logged as it was called", fnName[fn]);
        count("evaluations");
        feature("%s log %d", fnName[fn], s.listen);
    }
}

static void use(Sess &s, Rng &r, int ver, int type, long n) {
    if (!open(s, r, ver, type, mockPath, NFN, r.chance(0.3), false)) return;
    auto &v = ver == 3 ? steps3 : type == ME ? steps2me : steps2cs;
    versions(s, r);
    for (long k = 0; k < n; k++) {
        traceClear();
        // messages that end near a power of two
        long target = -1;
        if ((P == 29 || P == 27) && r.chance(0.6)) target = (1L << r.irange(10, 14)) + r.irange(-90, 10);
        v[r.below(v.size())](s, r, target);
    }
    freeIt(s);
}

static void session(Rng &r, int ver, int type, bool listen, long n) {
    {
        Sess s;
        s.listen = listen;
        use(s, r, ver, type, n);
        while (r.chance(0.3)) use(s, r, ver, ver == 2 ? (int)r.below(2) : (int)r.below(3), n);
    }
    void *h = dlopen(mockPath.c_str(), RTLD_NOLOAD | RTLD_LAZY);
    if (h) fail("unload", "the library is still loaded after the instance was freed");
}

// The library with one function renamed.
static std::string without(Fn f) {
    std::string path = opt.scratch + "/without-" + fnName[f] + "-" + std::to_string(getpid()) + ".so";
    std::ifstream in(mockPath, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string b = ss.str(), pat = std::string(1, 0) + fnName[f] + std::string(1, 0);
    size_t n = 0;
    for (size_t p = b.find(pat); p != std::string::npos; p = b.find(pat, p + 1)) { b[p + 1] = 'X'; n++; }
    if (!n) broken("%s not found in the mock", fnName[f]);
    std::ofstream(path, std::ios::binary) << b;
    return path;
}
static const std::set<int> only2me = {F2_EnterEventMode, F2_NewDiscreteStates, F2_EnterContinuousTimeMode, F2_CompletedIntegratorStep, F2_SetTime, F2_SetContinuousStates, F2_GetDerivatives, F2_GetEventIndicators, F2_GetContinuousStates,
                                      F2_GetNominalsOfContinuousStates};
static const std::set<int> only2cs = {F2_SetRealInputDerivatives, F2_GetRealOutputDerivatives, F2_DoStep, F2_CancelStep, F2_GetStatus, F2_GetRealStatus, F2_GetIntegerStatus, F2_GetBooleanStatus, F2_GetStringStatus};

static void caseMissing(Fn f, Rng &r) {
    int ver = f < F3_GetVersion ? 2 : 3;
    std::string path = without(f);
    for (int type = 0; type < (ver == 2 ? 2 : 3); type++)
        for (int nl = 0; nl < 2; nl++) {
            bool needed = ver == 3 || !((type == ME && only2cs.count(f)) || (type == CSIM && only2me.count(f)));
            Sess s;
            s.listen = r.chance(0.5);
            bool ok = open(s, r, ver, type, path, needed ? f : NFN, nl);
            if (ok == needed) fail("missing function", "instantiation as %s %s without %s", ifName(type), ok ? "succeeds" : "fails", fnName[f]);
            if (ok) freeIt(s);
        }
    unlink(path.c_str());
}
static void caseLoad(Rng &r) {
    for (std::string p : {std::string("/nonexistent/lib.so"), std::string(""), opt.scratch, opt.scratch + "/garbage.so"}) {
        if (p == "") continue;
        if (p.find("garbage") != std::string::npos) std::ofstream(p) << "this is not a library " << r.u64();
        Sess s;
        { InCall c("FMICreateInstance"); s.i = FMICreateInstance("name", r.chance(0.5) ? onLog : nullptr, r.chance(0.5) ? onCall : nullptr); }
        InCall c("FMILoadPlatformBinary");
        int rc = FMILoadPlatformBinary(s.i, p.c_str());
        if (rc < FMIError) fail("load", "loading %s reports %d", p.c_str(), rc);
        count("evaluations");
        feature("load %s", p.substr(p.rfind('/') + 1).c_str());
    }
    // the FMU refuses to be instantiated
    for (int ver = 2; ver <= 3; ver++)
        for (int type = 0; type < ver; type++) {
            Sess s;
            s.listen = r.chance(0.5);
            open(s, r, ver, type, mockPath, NFN, false, true);
        }
    { InCall c("FMIFreeInstance"); FMIFreeInstance(nullptr); }
    { InCall c("free"); FMI2FreeInstance(nullptr); if (FMI3FreeInstance(nullptr) < FMIError) fail("free", "freeing NULL reports success"); }
}

#ifdef WITH_LSAN
extern "C" int __lsan_do_recoverable_leak_check(void);
// what dlopen() itself allocates belongs to the C library
extern "C" const char *__lsan_default_suppressions(void) { return "leak:dlopen_doit\n"; }
#endif

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    mockPath = opt.extra;
    make2();
    make3();
    logErrorMessage = onError;
}
// Every request of a session fails in turn, alone or with all later ones.
// The memory functions the library offers to importers: contents survive, blocks are cleared, a refused
// request is an error and leaves the old block.
static void caseMemory(Rng &r) {
    struct Block { void *p = nullptr; std::vector<unsigned char> want; };
    std::vector<Block> b(4);
    requests = failed = 0;
    for (int k = 0; k < 40; k++) {
        Block &x = b[r.below(b.size())];
        size_t n = r.chance(0.15) ? 0 : r.chance(0.5) ? 1 + r.below(40) : 1 + r.below(5000);
        bool fails = false;
        failAt = -1;
#ifdef WITH_OOM
        if (n && r.chance(0.3)) { failAt = requests; andAllLater = false; fails = true; }
#endif
        switch (r.below(3)) {
        case 0: {
            if (x.p) { Imp c("FMIFree"); FMIFree(&x.p); }
            size_t size = n && r.chance(0.5) ? 1 + r.below(9) : 1;
            x.p = (void *)&b;
            FMIStatus s;
            failAt = fails ? requests : -1;
            { Imp c("FMICalloc"); s = FMICalloc(&x.p, n, size); }
            failAt = -1;
            x.want.assign(fails ? 0 : n * size, 0);
            if (s != (fails ? FMIError : FMIOK)) fail("memory", "FMICalloc(%zu, %zu) returned %d", n, size, (int)s);
            if ((x.p != nullptr) != (!fails && n > 0)) fail("memory", "FMICalloc(%zu, %zu) gave %s", n, size, x.p ? "a block" : "no block");
            break;
        }
        case 1: {
            FMIStatus s;
            { Imp c("FMIRealloc"); s = FMIRealloc(&x.p, n); }
            failAt = -1;
            if (s != (fails ? FMIError : FMIOK)) fail("memory", "FMIRealloc(%zu) returned %d", n, (int)s);
            if (fails) break;
            if ((x.p != nullptr) != (n > 0)) fail("memory", "FMIRealloc(%zu) gave %s", n, x.p ? "a block" : "no block");
            size_t old = x.want.size();
            x.want.resize(n);
            for (size_t q = old; q < n; q++) ((unsigned char *)x.p)[q] = x.want[q] = (unsigned char)r.below(256);
            break;
        }
        default: {
            failAt = -1;
            { Imp c("FMIFree"); FMIFree(&x.p); }
            if (x.p) fail("memory", "FMIFree left the pointer");
            x.want.clear();
        }
        }
        count("memory requests");
        for (auto &y : b) {
            if (!y.want.empty() && (!y.p || memcmp(y.p, y.want.data(), y.want.size()))) fail("memory", "a block of %zu bytes lost its contents", y.want.size());
            for (auto &c : y.want) if (r.chance(0.1)) ((unsigned char *)y.p)[&c - y.want.data()] = c = (unsigned char)r.below(256);
        }
    }
    failAt = -1;
    if (FMICalloc(nullptr, 1, 1) != FMIError || FMIRealloc(nullptr, 1) != FMIError) fail("memory", "a missing pointer was accepted");
    for (auto &y : b) { Imp c("FMIFree"); FMIFree(&y.p); }
}
static void caseOom(size_t i, Rng &r) {
    caseMemory(r);
    uint64_t seed = r.u64();
    int ver = 2 + (int)(i % 2), type = (int)(i / 2) % ver;
    failAt = -1;
    requests = failed = 0;
    { Rng q(seed); session(q, ver, type, true, 8); }
    long n = std::min(requests, 60L);
    for (long k = 0; k < n; k++)
        for (int later = 0; later < 2; later++) {
            failAt = k;
            andAllLater = later;
            requests = failed = 0;
            trace("request %ld of the import library fails%s", k, later ? " and all later ones" : "");
            Rng q(seed);
            session(q, ver, type, true, 8);
            count("failed requests", failed);
            failAt = -1;
        }
}
size_t driverCases() { if (P == 27) return opt.scale(200, 3000); return NFN + opt.scale(P == 29 ? 4000 : P == 26 ? 400 : 4000, P == 29 ? 60000 : P == 26 ? 4000 : 60000); }
void driverCase(size_t i, Rng &r) {
    if (P == 27) caseOom(i, r);
    else if (i < NFN) {
        if (P != 29) { caseMissing((Fn)i, r); if (i % 8 == 0) caseLoad(r); }
    } else {
        int ver = 2 + (int)(i % 2), type = (int)(i / 2) % ver;
        session(r, ver, type, P == 29 || r.chance(0.6), P == 29 ? 25 : 40);
    }
#ifdef WITH_LSAN
    if (P == 26 || P == 27) {
        cur = nullptr;
        InCall ic("leak check");
        if (__lsan_do_recoverable_leak_check()) fail("leak", "the import library lost memory (see the worker's log)");
    }
#endif
}

#include "common.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cfloat>

Options opt;

// ------------------------------------------------------------------ misc ---
uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
uint64_t hashStr(const char *s) {
    uint64_t h = 1469598103934665603ull;
    for (; *s; s++) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return h;
}
const char *stName(int s) {
    static const char *n[] = {"OK", "Warning", "Discard", "Error", "Fatal", "Pending"};
    return s >= 0 && s < 6 ? n[s] : "?";
}
const char *ifName(int t) { return t == ME ? "ME" : t == CSIM ? "CS" : "SE"; }
std::string hexd(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
bool near(double a, double b, double rel, double abs_) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    double d = fabs(a - b);
    return d <= abs_ || d <= rel * fmax(fabs(a), fabs(b));
}
const char *tyName[] = {"Float32", "Float64", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Boolean", "String", "Binary", "Clock"};
size_t tySize(Ty t) {
    static const size_t s[] = {4, 8, 1, 1, 2, 2, 4, 4, 8, 8, sizeof(bool), sizeof(char *), sizeof(void *), sizeof(bool)};
    return s[t];
}

// ------------------------------------------------------------- reporting ---
// Shared between the driver and its worker, so that the history survives a crash.
static const size_t TRACE_MAX = 1 << 16;
struct Shared {
    volatile long curCase;
    volatile uint64_t callSeq;
    volatile int inCall;
    char callName[64];
    volatile size_t traceLen;
    char trace[TRACE_MAX];
};
static Shared *sh;
static int outFd = -1;

static void jsonStr(std::string &o, const char *s, size_t n) {
    o += '"';
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        char b[8];
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    o += '"';
}

static void emit(const std::string &line) {
    std::string l = line + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t k = write(outFd, l.data() + off, l.size() - off);
        if (k <= 0) break;
        off += (size_t)k;
    }
}

static std::string traceText() {
    size_t n = sh->traceLen;
    if (n > TRACE_MAX) n = TRACE_MAX;
    return std::string(sh->trace, n);
}

void traceClear() { sh->traceLen = 0; }
void (*traceHook)(const char *line);
void trace(const char *fmt, ...) {
    char b[400];
    va_list a;
    va_start(a, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, a);
    va_end(a);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n] = 0;
    if (traceHook) traceHook(b);
    b[n++] = '\n';
    if (sh->traceLen + (size_t)n > TRACE_MAX) {
        // keep the newest half
        size_t keep = TRACE_MAX / 2;
        size_t len = sh->traceLen;
        memmove(sh->trace, sh->trace + (len - keep), keep);
        sh->traceLen = keep;
    }
    memcpy(sh->trace + sh->traceLen, b, (size_t)n);
    sh->traceLen += (size_t)n;
}

static int failures = 0;
static void record(const char *kind, const char *key, const char *detail) {
    std::string t = traceText();
    if (t.size() > 12000) t = "...\n" + t.substr(t.size() - 12000);
    std::string o = "{\"kind\":\"";
    o += kind;
    o += "\",\"key\":";
    jsonStr(o, key, strlen(key));
    o += ",\"detail\":";
    jsonStr(o, detail, strlen(detail));
    o += ",\"case\":" + std::to_string(sh->curCase) + ",\"trace\":";
    jsonStr(o, t.data(), t.size());
    o += "}";
    emit(o);
    failures++;
}
void fail(const char *key, const char *fmt, ...) {
    char b[2000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    record("violation", key, b);
    throw CaseFail();
}
void note(const char *key, const char *fmt, ...) {
    char b[2000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    record("violation", key, b);
}
void broken(const char *fmt, ...) {
    char b[2000];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    if (outFd >= 0 && sh) record("broken", "harness", b);
    fprintf(stderr, "harness error: %s\n", b);
    _exit(90);
}

static std::map<std::string, uint64_t> counters;
static std::set<uint64_t> features;
static std::vector<std::string> samples;
void count(const char *name, uint64_t n) { counters[name] += n; }
void feature(uint64_t h) { if (features.size() < 2000000) features.insert(h); }
void feature(const char *fmt, ...) {
    char b[512];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    feature(hashStr(b));
}
void sample(const char *fmt, ...) {
    if (samples.size() >= 4) return;
    char b[1500];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    samples.push_back(b);
}

thread_local bool noWatch;
InCall::InCall(const char *what) {
    if (noWatch) return;
    strncpy(sh->callName, what, sizeof sh->callName - 1);
    sh->callSeq = sh->callSeq + 1;
    sh->inCall = sh->inCall + 1;
}
InCall::~InCall() { if (!noWatch) sh->inCall = sh->inCall - 1; }

// CPU-time watchdog: a single call that burns this much CPU time has hung.
static const int HANG_TICKS = 20;
static volatile uint64_t lastSeq;
static volatile int sameTicks;
static void onTick(int) {
    if (sh->inCall > 0 && sh->callSeq == lastSeq) {
        if (++sameTicks >= HANG_TICKS) {
            static const char m[] = "WATCHDOG: call does not return\n";
            ssize_t r = write(2, m, sizeof m - 1);
            (void)r;
            _exit(97);
        }
    } else {
        lastSeq = sh->callSeq;
        sameTicks = 0;
    }
}

static void flushStats() {
    for (auto &c : counters) {
        std::string o = "{\"kind\":\"count\",\"name\":";
        jsonStr(o, c.first.c_str(), c.first.size());
        o += ",\"n\":" + std::to_string(c.second) + "}";
        emit(o);
    }
    std::string o = "{\"kind\":\"features\",\"h\":[";
    size_t k = 0;
    for (uint64_t f : features) {
        if (k++) o += ',';
        o += std::to_string(f >> 11);
        if (k % 5000 == 0) { emit(o + "]}"); o = "{\"kind\":\"features\",\"h\":["; k = 0; }
    }
    emit(o + "]}");
    for (auto &s : samples) {
        std::string q = "{\"kind\":\"sample\",\"text\":";
        jsonStr(q, s.c_str(), s.size());
        emit(q + "}");
    }
}

static void startWatchdog() {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onTick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    struct itimerval it = {{1, 0}, {1, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
}

static void workerRun(size_t from, size_t n, int w, int jobs) {
    startWatchdog();
    for (size_t i = from; i < n; i++) {
        if ((int)(i % (size_t)jobs) != w) continue;
        sh->curCase = (long)i;
        traceClear();
        Rng rng(mix(mix(opt.seed, hashStr(opt.property.c_str())), i));
        try {
            driverCase(i, rng);
        } catch (CaseFail &) {
            if (failures > 12) break;
        }
        counters["cases"]++;
    }
    sh->inCall = 0;
    flushStats();
}

static std::string workerLog(int w, int attempt) {
    return opt.scratch + "/worker-" + std::to_string(w) + "-" + std::to_string(attempt) + ".log";
}

// One supervising process per worker slot; it restarts the worker after a crash.
static int supervise(int w, int jobs, size_t n) {
    size_t from = 0;
    int hangs = 0;
    for (int attempt = 0; attempt < 6; attempt++) {
        std::string log = workerLog(w, attempt);
        pid_t pid = fork();
        if (pid < 0) return 91;
        if (pid == 0) {
            int fd = open(log.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            if (fd >= 0) { dup2(fd, 2); close(fd); }
            workerRun(from, n, w, jobs);
            exit(0);   // runs the leak check where enabled
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 90) return 90;
        // crashed, sanitizer report, or hang
        std::string err;
        FILE *f = fopen(log.c_str(), "r");
        if (f) { char b[6000]; size_t k = fread(b, 1, sizeof b, f); err.assign(b, k); fclose(f); }
        char what[128];
        if (WIFSIGNALED(st)) snprintf(what, sizeof what, "signal %d", WTERMSIG(st));
        else snprintf(what, sizeof what, "exit %d", WEXITSTATUS(st));
        std::string key = WIFEXITED(st) && WEXITSTATUS(st) == 97 ? "hang" : "crash";
        if (err.find("LeakSanitizer") != std::string::npos) key = "leak";
        std::string detail = std::string(what) + " in " + sh->callName + "\n" + err;
        record("crash", key.c_str(), detail.c_str());
        if (sh->curCase < 0 || key == "leak" || (key == "hang" && ++hangs == 2)) return 0;
        from = (size_t)sh->curCase + 1;
        if (from >= n) return 0;
    }
    return 0;
}

int main(int argc, char **argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--property") opt.property = v;
        else if (k == "--tier") opt.tier = v;
        else if (k == "--seed") opt.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--fmus2") opt.fmus2 = v;
        else if (k == "--fmus3") opt.fmus3 = v;
        else if (k == "--extra") opt.extra = v;
        else if (k == "--scratch") opt.scratch = v;
        else if (k == "--out") opt.out = v;
        else if (k == "--case") opt.onlyCase = strtol(v.c_str(), nullptr, 10);
        else if (k == "--jobs") opt.jobs = atoi(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 90; }
    }
    outFd = open(opt.out.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
    if (outFd < 0) { perror("out"); return 90; }
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 90; }
    sh->curCase = -1;
    driverInit();
    size_t n = driverCases();
    if (opt.onlyCase >= 0) {
        sh->curCase = opt.onlyCase;
        startWatchdog();
        Rng rng(mix(mix(opt.seed, hashStr(opt.property.c_str())), (uint64_t)opt.onlyCase));
        try { driverCase((size_t)opt.onlyCase, rng); } catch (CaseFail &) {}
        flushStats();
        fputs(traceText().c_str(), stdout);
        return failures ? 1 : 0;
    }
    int jobs = opt.jobs;
    if ((size_t)jobs > n) jobs = (int)(n ? n : 1);
    std::vector<pid_t> ps;
    for (int w = 0; w < jobs; w++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 91; }
        if (p == 0) {
            Shared *mine = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            if (mine == MAP_FAILED) _exit(90);
            sh = mine;
            sh->curCase = -1;
            _exit(supervise(w, jobs, n));
        }
        ps.push_back(p);
    }
    int rc = 0;
    for (pid_t p : ps) {
        int st = 0;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        int e = WIFEXITED(st) ? WEXITSTATUS(st) : 92;
        if (e > rc) rc = e;
    }
    if (rc == 0) emit("{\"kind\":\"done\"}");
    return rc;
}

// ---------------------------------------------------------------- models ---
static std::vector<ModelInfo> build() {
    std::vector<ModelInfo> r;
    auto T = Var{"time", 0, F64, Independent, false};
    {
        ModelInfo m{"BouncingBall", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF1}", 1e-3, 3, true, true, false, true, 2, 1, {}, {}, true};
        m.vars3 = {T, {"h", 1, F64, StateVar, false}, {"der(h)", 2, F64, DerVar, false}, {"v", 3, F64, StateVar, false}, {"der(v)", 4, F64, DerVar, false},
                   {"g", 5, F64, FixedPar, false}, {"e", 6, F64, TunablePar, false}, {"v_min", 7, F64, Constant, false}};
        m.vars2 = m.vars3;
        r.push_back(m);
    }
    {
        ModelInfo m{"Dahlquist", "{221063D2-EF4A-45FE-B954-B5BFEEA9A59B}", 0.1, 10, true, true, false, false, 1, 0, {}, {}, true};
        m.vars3 = {T, {"x", 1, F64, StateVar, false}, {"der(x)", 2, F64, DerVar, false}, {"k", 3, F64, FixedPar, false}};
        m.vars2 = m.vars3;
        r.push_back(m);
    }
    {
        ModelInfo m{"Feedthrough", "{37B954F1-CC86-4D8F-B97F-C7C36F6670D2}", 0.1, 2, true, true, false, true, 0, 0, {}, {}, true};
        m.vars3 = {T,
            {"Float32_continuous_input", 1, F32, Input, false}, {"Float32_continuous_output", 2, F32, Output, false},
            {"Float32_discrete_input", 3, F32, Input, true}, {"Float32_discrete_output", 4, F32, Output, true},
            {"Float64_fixed_parameter", 5, F64, FixedPar, false}, {"Float64_tunable_parameter", 6, F64, TunablePar, false},
            {"Float64_continuous_input", 7, F64, Input, false}, {"Float64_continuous_output", 8, F64, Output, false},
            {"Float64_discrete_input", 9, F64, Input, true}, {"Float64_discrete_output", 10, F64, Output, true},
            {"Int8_input", 11, I8, Input, true}, {"Int8_output", 12, I8, Output, true},
            {"UInt8_input", 13, U8, Input, true}, {"UInt8_output", 14, U8, Output, true},
            {"Int16_input", 15, I16, Input, true}, {"Int16_output", 16, I16, Output, true},
            {"UInt16_input", 17, U16, Input, true}, {"UInt16_output", 18, U16, Output, true},
            {"Int32_input", 19, I32, Input, true}, {"Int32_output", 20, I32, Output, true},
            {"UInt32_input", 21, U32, Input, true}, {"UInt32_output", 22, U32, Output, true},
            {"Int64_input", 23, I64, Input, true}, {"Int64_output", 24, I64, Output, true},
            {"UInt64_input", 25, U64, Input, true}, {"UInt64_output", 26, U64, Output, true},
            {"Boolean_input", 27, BOOL, Input, true}, {"Boolean_output", 28, BOOL, Output, true},
            {"String_input", 29, STR, Input, true}, {"String_output", 30, STR, Output, true},
            {"Binary_input", 31, BIN, Input, true}, {"Binary_output", 32, BIN, Output, true},
            {"Enumeration_input", 33, I64, Input, true}, {"Enumeration_output", 34, I64, Output, true}};
        m.vars2 = {T, m.vars3[5], m.vars3[6], m.vars3[7], m.vars3[8], m.vars3[9], m.vars3[10], m.vars3[19], m.vars3[20], m.vars3[27], m.vars3[28],
                   m.vars3[29], m.vars3[30], {"Enumeration_input", 33, I32, Input, true}, {"Enumeration_output", 34, I32, Output, true}};
        r.push_back(m);
    }
    {
        ModelInfo m{"Resource", "{7b9c2114-2ce5-4076-a138-2cbc69e069e5}", 1.0, 1, true, true, false, false, 0, 0, {}, {}, true};
        m.vars3 = {T, {"y", 1, I32, Output, true}};
        m.vars2 = m.vars3;
        r.push_back(m);
    }
    {
        ModelInfo m{"Stair", "{BD403596-3166-4232-ABC2-132BDF73E644}", 0.2, 10, true, true, false, true, 0, 0, {}, {}, true};
        m.vars3 = {T, {"counter", 1, I32, Output, true}};
        m.vars2 = m.vars3;
        r.push_back(m);
    }
    {
        ModelInfo m{"VanDerPol", "{BD403596-3166-4232-ABC2-132BDF73E644}", 1e-2, 20, true, true, false, false, 2, 0, {}, {}, true};
        m.vars3 = {T, {"x0", 1, F64, StateVar, false}, {"der(x0)", 2, F64, DerVar, false}, {"x1", 3, F64, StateVar, false},
                   {"der(x1)", 4, F64, DerVar, false}, {"mu", 5, F64, TunablePar, false}};
        m.vars2 = m.vars3;
        r.push_back(m);
    }
    {
        ModelInfo m{"Clocks", "{C5F142BA-B849-42DA-B4A1-4745BFF3BE28}", 1, 3, false, false, true, false, 0, 0, {}, {}, false};
        m.vars3 = {T, {"inClock1", 1001, CLK, ClockVar, true}, {"inClock2", 1002, CLK, ClockVar, true}, {"inClock3", 1003, CLK, ClockVar, true},
                   {"outClock", 1005, CLK, ClockVar, true}, {"inClock1Ticks", 2001, I32, Output, true}, {"inClock2Ticks", 2002, I32, Output, true},
                   {"inClock3Ticks", 2003, I32, Output, true}, {"totalInClockTicks", 2004, I32, Output, true}, {"result2", 2005, I32, Output, true},
                   {"input2", 2006, I32, Input, true}, {"output3", 2007, I32, Output, true}};
        r.push_back(m);
    }
    {
        ModelInfo m{"Roberts", "{1AE5E10D-9521-4DE3-80B9-D0EAAA7D5AF2}", 1e-6, 1, true, true, false, false, 2, 2, {}, {}, false};
        m.vars3 = {T, {"dae", 1, BOOL, FixedPar, false}, {"y1", 2, F64, StateVar, false}, {"der(y1)", 3, F64, DerVar, false},
                   {"y2", 4, F64, StateVar, false}, {"der(y2)", 5, F64, DerVar, false}, {"y3", 6, F64, Local, false},
                   {"y3_nominal", 7, F64, Constant, false}, {"r", 8, F64, Local, false}, {"g1", 9, F64, Local, false}, {"g2", 10, F64, Local, false}};
        r.push_back(m);
    }
    {
        ModelInfo m{"StateSpace", "{D773325B-AB94-4630-BF85-643EB24FCB78}", 1e-3, 10, true, true, false, true, 3, 0, {}, {}, false};
        m.vars3 = {T, {"m", 1, U64, StructPar, false}, {"n", 2, U64, StructPar, false}, {"r", 3, U64, StructPar, false},
                   {"A", 4, F64, TunablePar, false}, {"B", 5, F64, TunablePar, false}, {"C", 6, F64, TunablePar, false}, {"D", 7, F64, TunablePar, false},
                   {"x0", 8, F64, TunablePar, false}, {"u", 9, F64, Input, false}, {"y", 10, F64, Output, false}, {"x", 11, F64, StateVar, false},
                   {"der(x)", 12, F64, DerVar, false}};
        r.push_back(m);
    }
    return r;
}
const std::vector<ModelInfo> &models() { static std::vector<ModelInfo> m = build(); return m; }
const ModelInfo &model(const char *name) {
    for (auto &m : models()) if (!strcmp(m.name, name)) return m;
    broken("no model %s", name);
}
const Var *ModelInfo::var(int ver, uint32_t vr) const {
    for (auto &v : vars(ver)) if (v.vr == vr) return &v;
    return nullptr;
}

static std::map<std::string, Lib *> &libs = *new std::map<std::string, Lib *>;  // never destroyed, for the leak checker
static Lib *load(const char *name, int ver, const std::string &path, const std::string &prefix) {
    Lib *l = new Lib;
    l->m = &model(name);
    l->ver = ver;
    l->path = path;
    l->handle = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!l->handle) broken("dlopen: %s", dlerror());
#define X(n) l->a2.n = (fmi2##n##TYPE *)dlsym(l->handle, (prefix + "fmi2" #n).c_str()); if (ver == 2 && !l->a2.n) { if (prefix.empty()) broken("%s: fmi2" #n " missing", name); else fail("function", "%s%s is missing", prefix.c_str(), "fmi2" #n); }
    if (ver == 2) { FMI2_FUNCS(X) }
#undef X
#define X(n) l->a3.n = (fmi3##n##TYPE *)dlsym(l->handle, (prefix + "fmi3" #n).c_str()); if (ver == 3 && !l->a3.n) { if (prefix.empty()) broken("%s: fmi3" #n " missing", name); else fail("function", "%s%s is missing", prefix.c_str(), "fmi3" #n); }
    if (ver == 3) { FMI3_FUNCS(X) }
#undef X
    return l;
}
Lib *lib(const char *name, int ver) {
    std::string key = std::string(name) + std::to_string(ver);
    auto it = libs.find(key);
    if (it != libs.end()) return it->second;
    std::string path = (ver == 2 ? opt.fmus2 : opt.fmus3) + "/" + name + "/binaries/" + (ver == 2 ? "linux64" : "x86_64-linux") + "/" + name + ".so";
    Lib *l = load(name, ver, path, "");
    libs[key] = l;
    return l;
}
Lib *libFrom(const char *name, int ver, const std::string &path, const std::string &prefix) {
    std::string key = path + "#" + prefix;
    auto it = libs.find(key);
    if (it != libs.end()) return it->second;
    Lib *l = load(name, ver, path, prefix);
    libs[key] = l;
    return l;
}
std::vector<Lib *> allLibs(int ver) {
    std::vector<Lib *> r;
    for (auto &m : models()) {
        if (m.inV2 && ver != 3) r.push_back(lib(m.name, 2));
        if (ver != 2) r.push_back(lib(m.name, 3));
    }
    return r;
}
std::string resourcesOf(const Lib *l) {
    std::string d = (l->ver == 2 ? opt.fmus2 : opt.fmus3) + "/Resource/resources";
    if (l->ver == 2) return "file://" + d;
    return d + "/";
}

// ------------------------------------------------------------- callbacks ---
static void logCb2(fmi2ComponentEnvironment env, fmi2String inst, fmi2Status st, fmi2String cat, fmi2String msg, ...) {
    char b[8192];
    va_list a;
    va_start(a, msg);
    vsnprintf(b, sizeof b, msg ? msg : "(null)", a);
    va_end(a);
    Inst *in = (Inst *)env;
    if (in) in->logs.push_back({env, inst ? inst : "", (int)st, cat ? cat : "", b});
}
static void logCb3(fmi3InstanceEnvironment env, fmi3Status st, fmi3String cat, fmi3String msg) {
    Inst *in = (Inst *)env;
    if (in) in->logs.push_back({env, "", (int)st, cat ? cat : "", msg ? msg : ""});
}
static void iu3(fmi3InstanceEnvironment env, fmi3Float64 t, fmi3Boolean setReq, fmi3Boolean getAllowed, fmi3Boolean fin, fmi3Boolean can, fmi3Boolean *req, fmi3Float64 *time) {
    Inst *in = (Inst *)env;
    if (!in) return;
    IuRec r{t, setReq, getAllowed, fin, can};
    in->ius.push_back(r);
    if (in->onIu) in->onIu(*in, r, req, time);
}
static thread_local Inst *seActive;   // lock callbacks carry no environment
static void clockUpdate3(fmi3InstanceEnvironment env) {
    Inst *in = (Inst *)env;
    if (!in) return;
    in->clockUpdates++;
    if (in->onClockUpdate) in->onClockUpdate(*in);
}
static void lock3(void) {
    if (!seActive) return;
    seActive->locks++;
    if (seActive->onLock) seActive->onLock(*seActive);
    if (++seActive->lockDepth != 1) seActive->lockError = true;
}
static void unlock3(void) {
    if (!seActive) return;
    seActive->unlocks++;
    if (--seActive->lockDepth != 0) seActive->lockError = true;
    if (seActive->onUnlock) seActive->onUnlock(*seActive);
}

// -------------------------------------------------------------- instance ---
#define TR(...) do { if (!quiet) trace(__VA_ARGS__); } while (0)
#define NM label.c_str()

Inst::~Inst() { if (c) free(); }

thread_local const Lib *openingLib;
bool Inst::open(Lib *lb, const InstOpt &op) {
    openingLib = l = lb;
    o = op;
    if (label.empty()) label = o.name;
    std::string tok = o.emptyToken ? "" : o.token.empty() ? l->m->token : o.token;
    std::string res = o.emptyResource ? "" : o.resource.empty() ? resourcesOf(l) : o.resource;
    // private copies that are wiped afterwards: the FMU must not keep them
    Buf<char> n(o.name.size() + 1), t(tok.size() + 1), r(res.size() + 1);
    memcpy(n.p, o.name.c_str(), o.name.size() + 1);
    memcpy(t.p, tok.c_str(), tok.size() + 1);
    memcpy(r.p, res.c_str(), res.size() + 1);
    const char *rp = o.nullResource ? nullptr : r.p;
    const char *np = o.nullName ? nullptr : n.p, *tp = o.nullToken ? nullptr : t.p;
    std::vector<fmi3ValueReference> req;
    if (o.visible) for (auto &v : l->m->vars(l->ver)) req.push_back(v.vr);
    fmi3LogMessageCallback lg = o.nullLogger ? nullptr : logCb3;
    Inputs given;
    given.add(n.p, n.n);
    given.add(t.p, t.n);
    given.add(r.p, r.n);
    given.add(req.data(), req.size() * sizeof req[0]);
    if (l->ver == 2) {
        InCall ic("fmi2Instantiate");
        fmi2CallbackFunctions tmp = {o.nullLogger ? nullptr : logCb2, calloc, ::free, nullptr, this};
        memcpy((void *)&cb2, &tmp, sizeof tmp);
        c = l->a2.Instantiate(np, o.type == ME ? fmi2ModelExchange : fmi2CoSimulation, tp, rp, &cb2, o.visible, o.logging);
    } else if (o.type == ME) {
        InCall ic("fmi3InstantiateModelExchange");
        c = l->a3.InstantiateModelExchange(np, tp, rp, o.visible, o.logging, this, lg);
    } else if (o.type == CSIM) {
        InCall ic("fmi3InstantiateCoSimulation");
        c = l->a3.InstantiateCoSimulation(np, tp, rp, o.visible, o.logging, o.eventMode, o.early, req.data(), req.size(), this, lg, o.useIu ? iu3 : nullptr);
    } else {
        InCall ic("fmi3InstantiateScheduledExecution");
        c = l->a3.InstantiateScheduledExecution(np, tp, rp, o.visible, o.logging, this, lg, clockUpdate3, lock3, unlock3);
    }
    given.check("Instantiate");
    memset(n.p, 'X', n.n - 1);
    memset(t.p, 'X', t.n - 1);
    memset(r.p, 'X', r.n - 1);
    TR("%s = %s FMI%d instantiate %s eventMode=%d early=%d -> %s", NM, l->m->name, l->ver, ifName(o.type), o.eventMode, o.early, c ? "instance" : "NULL");
    return c != nullptr;
}
void Inst::free() {
    if (!c) return;
    TR("%s free", NM);
    InCall ic("FreeInstance");
    if (l->ver == 2) l->a2.FreeInstance(c); else l->a3.FreeInstance(c);
    c = nullptr;
}
size_t Inst::errorLogs() const {
    size_t n = 0;
    for (auto &r : logs) if (r.status == sError || r.status == sFatal) n++;
    return n;
}

bool checkInputs;
void Inputs::check(const char *call) {
    if (held.empty()) return;
    for (auto &h : held) if (memcmp(h.first, h.second.data(), h.second.size())) fail("input", "%s changed one of its constant arguments", call);
    count("arguments watched", held.size());
}
#define RET(name, e2, e3) \
    do { St s_; { InCall ic(name); s_ = (St)(l->ver == 2 ? (int)(e2) : (int)(e3)); } \
         TR("%s %s -> %s", NM, name, stName(s_)); return s_; } while (0)

St Inst::setupExperiment(double start, bool sd, double stop) {
    St s;
    { InCall ic("SetupExperiment"); s = (St)l->a2.SetupExperiment(c, 0, 0, start, sd, stop); }
    TR("%s SetupExperiment(%.17g, %d, %.17g) -> %s", NM, start, sd, stop, stName(s));
    return s;
}
St Inst::enterInit(double start, bool sd, double stop) {
    St s;
    if (l->ver == 2) {
        s = setupExperiment(start, sd, stop);
        if (s != sOK) return s;
        return enterInitOnly();
    }
    { InCall ic("EnterInitializationMode"); s = (St)l->a3.EnterInitializationMode(c, false, 0, start, sd, stop); }
    TR("%s EnterInitializationMode(%.17g, %d, %.17g) -> %s", NM, start, sd, stop, stName(s));
    return s;
}
St Inst::enterInitOnly() {
    RET("EnterInitializationMode", l->a2.EnterInitializationMode(c), l->a3.EnterInitializationMode(c, false, 0, 0, false, 0));
}
St Inst::exitInit() { RET("ExitInitializationMode", l->a2.ExitInitializationMode(c), l->a3.ExitInitializationMode(c)); }
St Inst::terminate() { RET("Terminate", l->a2.Terminate(c), l->a3.Terminate(c)); }
St Inst::reset() { RET("Reset", l->a2.Reset(c), l->a3.Reset(c)); }
St Inst::enterEvent() { RET("EnterEventMode", l->a2.EnterEventMode(c), l->a3.EnterEventMode(c)); }
St Inst::enterCT() { RET("EnterContinuousTimeMode", l->a2.EnterContinuousTimeMode(c), l->a3.EnterContinuousTimeMode(c)); }
St Inst::enterStep() { RET("EnterStepMode", sError, l->a3.EnterStepMode(c)); }
St Inst::enterConfig() { RET("EnterConfigurationMode", sError, l->a3.EnterConfigurationMode(c)); }
St Inst::exitConfig() { RET("ExitConfigurationMode", sError, l->a3.ExitConfigurationMode(c)); }
St Inst::debugLogging(bool on, const std::vector<std::string> &cats, size_t missing) {
    Buf<const char *> p(cats.size());
    for (size_t i = 0; i < cats.size(); i++) p[i] = i == missing ? nullptr : cats[i].c_str();
    Inputs q;
    q.add(p.p, cats.size() * sizeof(char *));
    for (auto &x : cats) q.add(x.c_str(), x.size() + 1);
    St s;
    { InCall ic("SetDebugLogging"); s = (St)(l->ver == 2 ? (int)l->a2.SetDebugLogging(c, on, cats.size(), p.p) : (int)l->a3.SetDebugLogging(c, on, cats.size(), p.p)); }
    TR("%s SetDebugLogging -> %s", NM, stName(s));
    q.check("SetDebugLogging");
    return s;
}

// what output arguments hold before a call, constant within a case
static bool junk() { return sh && (sh->curCase & 1); }
St Inst::get(Ty t, const uint32_t *vr, size_t nvr, void *v, size_t nv, size_t *sizes) {
    St s = sError;
    const fmi3ValueReference *r = (const fmi3ValueReference *)vr;
    char nm[32];
    snprintf(nm, sizeof nm, "Get%s", tyName[t]);
    // the FMU has to write every value itself: half of the cases start from other contents
    size_t fill = !v || !junk() || t == STR || t == BIN ? 0 : (l->ver == 2 || t == CLK ? nvr : nv) * tySize(t);
    if (fill > 4096) fill = 0;
    std::string old((const char *)v, fill);
    Inputs q;
    q.add(vr, nvr * sizeof *vr);
    if (fill) memset(v, t == BOOL || t == CLK ? 1 : 0x5a, fill);
    {
        InCall ic(nm);
        if (l->ver == 2) {
            switch (t) {
            case F64: s = (St)l->a2.GetReal(c, vr, nvr, (double *)v); break;
            case I32: s = (St)l->a2.GetInteger(c, vr, nvr, (int *)v); break;
            case BOOL: {
                if (!v) { s = (St)l->a2.GetBoolean(c, vr, nvr, nullptr); break; }
                Buf<fmi2Boolean> b(nvr);
                for (size_t i = 0; i < nvr; i++) b[i] = ((bool *)v)[i];
                s = (St)l->a2.GetBoolean(c, vr, nvr, b.p);
                for (size_t i = 0; i < nvr; i++) ((bool *)v)[i] = b[i] != 0;
                break;
            }
            case STR: s = (St)l->a2.GetString(c, vr, nvr, (fmi2String *)v); break;
            default: broken("FMI2 has no %s", tyName[t]);
            }
        } else {
            switch (t) {
#define G(E, N, T) case E: s = (St)l->a3.Get##N(c, r, nvr, (T *)v, nv); break;
            G(F32, Float32, float) G(F64, Float64, double) G(I8, Int8, int8_t) G(U8, UInt8, uint8_t) G(I16, Int16, int16_t) G(U16, UInt16, uint16_t)
            G(I32, Int32, int32_t) G(U32, UInt32, uint32_t) G(I64, Int64, int64_t) G(U64, UInt64, uint64_t) G(BOOL, Boolean, bool) G(STR, String, fmi3String)
#undef G
            case BIN: s = (St)l->a3.GetBinary(c, r, nvr, sizes, (fmi3Binary *)v, nv); break;
            case CLK: s = (St)l->a3.GetClock(c, r, nvr, (bool *)v); break;
            default: break;
            }
        }
    }
    if (fill && s != sOK) memcpy(v, old.data(), fill);
    if (!quiet) {
        char b[200]; int k = 0;
        for (size_t i = 0; vr && i < nvr && i < 6; i++) k += snprintf(b + k, sizeof b - (size_t)k, "%u ", vr[i]);
        b[k] = 0;
        std::string vs;
        if (s == sOK && v && nv) {
            if (t == F64) for (size_t i = 0; i < nv && i < 6; i++) vs += hexd(((double *)v)[i]) + " ";
            if (t == I32) for (size_t i = 0; i < nv && i < 6; i++) vs += std::to_string(((int32_t *)v)[i]) + " ";
        }
        trace("%s %s(vr=[%s], n=%zu, nv=%zu) -> %s %s", NM, nm, b, nvr, nv, stName(s), vs.c_str());
    }
    q.check(nm);
    return s;
}
St Inst::set(Ty t, const uint32_t *vr, size_t nvr, const void *v, size_t nv, const size_t *sizes) {
    St s = sError;
    const fmi3ValueReference *r = (const fmi3ValueReference *)vr;
    char nm[32];
    snprintf(nm, sizeof nm, "Set%s", tyName[t]);
    Inputs q;
    if (checkInputs) {
        size_t n = l->ver == 2 || t == CLK ? nvr : nv;
        q.add(vr, nvr * sizeof *vr);
        q.add(v, n * (t == STR || t == BIN ? sizeof(char *) : tySize(t)));
        if (t == BIN) q.add(sizes, n * sizeof *sizes);
        for (size_t i = 0; v && i < n && (t == STR || t == BIN); i++) {
            const char *x = ((const char *const *)v)[i];
            if (x) q.add(x, t == STR ? strlen(x) + 1 : sizes[i]);
        }
    }
    {
        InCall ic(nm);
        if (l->ver == 2) {
            switch (t) {
            case F64: s = (St)l->a2.SetReal(c, vr, nvr, (const double *)v); break;
            case I32: s = (St)l->a2.SetInteger(c, vr, nvr, (const int *)v); break;
            case BOOL: {
                if (!v) { s = (St)l->a2.SetBoolean(c, vr, nvr, nullptr); break; }
                Buf<fmi2Boolean> b(nvr);
                for (size_t i = 0; i < nvr; i++) b[i] = ((const bool *)v)[i];
                s = (St)l->a2.SetBoolean(c, vr, nvr, b.p);
                break;
            }
            case STR: s = (St)l->a2.SetString(c, vr, nvr, (const fmi2String *)v); break;
            default: broken("FMI2 has no %s", tyName[t]);
            }
        } else {
            switch (t) {
#define G(E, N, T) case E: s = (St)l->a3.Set##N(c, r, nvr, (const T *)v, nv); break;
            G(F32, Float32, float) G(F64, Float64, double) G(I8, Int8, int8_t) G(U8, UInt8, uint8_t) G(I16, Int16, int16_t) G(U16, UInt16, uint16_t)
            G(I32, Int32, int32_t) G(U32, UInt32, uint32_t) G(I64, Int64, int64_t) G(U64, UInt64, uint64_t) G(BOOL, Boolean, bool) G(STR, String, fmi3String)
#undef G
            case BIN: s = (St)l->a3.SetBinary(c, r, nvr, sizes, (const fmi3Binary *)v, nv); break;
            case CLK: s = (St)l->a3.SetClock(c, r, nvr, (const bool *)v); break;
            default: break;
            }
        }
    }
    if (!quiet) {
        char b[200]; int k = 0;
        for (size_t i = 0; vr && i < nvr && i < 6; i++) k += snprintf(b + k, sizeof b - (size_t)k, "%u ", vr[i]);
        b[k] = 0;
        std::string vs;
        if (v) {
            if (t == F64) for (size_t i = 0; i < nv && i < 6; i++) vs += hexd(((const double *)v)[i]) + " ";
            if (t == I32) for (size_t i = 0; i < nv && i < 6; i++) vs += std::to_string(((const int32_t *)v)[i]) + " ";
            if (t == U64) for (size_t i = 0; i < nv && i < 6; i++) vs += std::to_string(((const uint64_t *)v)[i]) + " ";
        }
        trace("%s %s(vr=[%s], n=%zu, nv=%zu, [%s]) -> %s", NM, nm, b, nvr, nv, vs.c_str(), stName(s));
    }
    q.check(nm);
    return s;
}
St Inst::getF64(uint32_t vr, double *v) { Buf<double> b(1); b[0] = *v; St s = get(F64, &vr, 1, b.p, 1); *v = b[0]; return s; }
St Inst::setF64(uint32_t vr, double v) { Buf<double> b(1); b[0] = v; return set(F64, &vr, 1, b.p, 1); }
St Inst::getI32(uint32_t vr, int32_t *v) { Buf<int32_t> b(1); b[0] = *v; St s = get(I32, &vr, 1, b.p, 1); *v = b[0]; return s; }
St Inst::setI32(uint32_t vr, int32_t v) { Buf<int32_t> b(1); b[0] = v; return set(I32, &vr, 1, b.p, 1); }
St Inst::getBool(uint32_t vr, bool *v) { Buf<bool> b(1); b[0] = *v; St s = get(BOOL, &vr, 1, b.p, 1); *v = b[0]; return s; }
St Inst::setBool(uint32_t vr, bool v) { Buf<bool> b(1); b[0] = v; return set(BOOL, &vr, 1, b.p, 1); }
St Inst::getF64v(uint32_t vr, std::vector<double> &v) {
    Buf<double> b(v.size());
    St s = get(F64, &vr, 1, b.p, v.size());
    for (size_t i = 0; i < v.size(); i++) v[i] = b[i];
    return s;
}
St Inst::setF64v(uint32_t vr, const std::vector<double> &v) {
    Buf<double> b(v.size());
    for (size_t i = 0; i < v.size(); i++) b[i] = v[i];
    return set(F64, &vr, 1, b.p, v.size());
}
St Inst::setU64(uint32_t vr, uint64_t v) { Buf<uint64_t> b(1); b[0] = v; return set(U64, &vr, 1, b.p, 1); }
St Inst::getU64(uint32_t vr, uint64_t *v) { Buf<uint64_t> b(1); St s = get(U64, &vr, 1, b.p, 1); *v = b[0]; return s; }

St Inst::setTime(double t) {
    St s;
    { InCall ic("SetTime"); s = (St)(l->ver == 2 ? (int)l->a2.SetTime(c, t) : (int)l->a3.SetTime(c, t)); }
    TR("%s SetTime(%.17g) -> %s", NM, t, stName(s));
    return s;
}
St Inst::setStates(const std::vector<double> &x) {
    Buf<double> b(x.size());
    for (size_t i = 0; i < x.size(); i++) b[i] = x[i];
    TR("%s SetContinuousStates [%s %s]", NM, x.size() > 0 ? hexd(x[0]).c_str() : "", x.size() > 1 ? hexd(x[1]).c_str() : "");
    Inputs q;
    q.add(b.p, x.size() * sizeof(double));
    St s;
    { InCall ic("SetContinuousStates"); s = (St)(l->ver == 2 ? (int)l->a2.SetContinuousStates(c, b.p, x.size()) : (int)l->a3.SetContinuousStates(c, b.p, x.size())); }
    TR("%s SetContinuousStates -> %s", NM, stName(s));
    q.check("SetContinuousStates");
    return s;
}
#define GETV(FN, N2, N3) \
St Inst::FN(std::vector<double> &x) { \
    Buf<double> b(x.size()); \
    for (size_t i = 0; i < x.size(); i++) b[i] = junk() ? -7.7e77 : x[i]; \
    St s; { InCall ic(#N3); s = (St)(l->ver == 2 ? (int)l->a2.N2(c, b.p, x.size()) : (int)l->a3.N3(c, b.p, x.size())); } \
    for (size_t i = 0; i < x.size() && s == sOK; i++) x[i] = b[i]; \
    TR("%s " #N3 " n=%zu -> %s [%s %s]", NM, x.size(), stName(s), x.size() > 0 ? hexd(x[0]).c_str() : "", x.size() > 1 ? hexd(x[1]).c_str() : ""); \
    return s; }
GETV(getStates, GetContinuousStates, GetContinuousStates)
GETV(getDer, GetDerivatives, GetContinuousStateDerivatives)
GETV(getInd, GetEventIndicators, GetEventIndicators)
GETV(getNominals, GetNominalsOfContinuousStates, GetNominalsOfContinuousStates)
size_t Inst::nx() {
    if (l->ver == 2) return (size_t)l->m->nx;
    size_t n = 999;
    InCall ic("GetNumberOfContinuousStates");
    if (l->a3.GetNumberOfContinuousStates(c, &n) != fmi3OK) return 999;
    return n;
}
size_t Inst::nz() {
    if (l->ver == 2) return (size_t)l->m->nz;
    size_t n = 999;
    InCall ic("GetNumberOfEventIndicators");
    if (l->a3.GetNumberOfEventIndicators(c, &n) != fmi3OK) return 999;
    return n;
}
St Inst::completed(bool *ee, bool *te) {
    St s;
    InCall ic("CompletedIntegratorStep");
    if (l->ver == 2) {
        fmi2Boolean a = 1, b = 1;
        s = (St)l->a2.CompletedIntegratorStep(c, 1, &a, &b);
        *ee = a; *te = b;
    } else {
        *ee = *te = true;
        s = (St)l->a3.CompletedIntegratorStep(c, true, ee, te);
    }
    TR("%s CompletedIntegratorStep -> %s", NM, stName(s));
    return s;
}
St Inst::update(EventInfo *e) {
    St s;
    EventInfo n;
    n.needUpdate = n.terminate = n.nominals = n.values = n.nextDefined = junk();
    n.next = junk() ? -7.7e77 : 0;
    {
        InCall ic("UpdateDiscreteStates");
        if (l->ver == 2) {
            Buf<fmi2EventInfo> ei(1);
            ei[0].newDiscreteStatesNeeded = ei[0].terminateSimulation = ei[0].nominalsOfContinuousStatesChanged = ei[0].valuesOfContinuousStatesChanged = ei[0].nextEventTimeDefined = junk();
            ei[0].nextEventTime = n.next;
            s = (St)l->a2.NewDiscreteStates(c, ei.p);
            n.needUpdate = ei[0].newDiscreteStatesNeeded; n.terminate = ei[0].terminateSimulation; n.nominals = ei[0].nominalsOfContinuousStatesChanged;
            n.values = ei[0].valuesOfContinuousStatesChanged; n.nextDefined = ei[0].nextEventTimeDefined; n.next = ei[0].nextEventTime;
        } else {
            s = (St)l->a3.UpdateDiscreteStates(c, &n.needUpdate, &n.terminate, &n.nominals, &n.values, &n.nextDefined, &n.next);
        }
    }
    if (s == sOK || s == sWarning) *e = n;
    TR("%s UpdateDiscreteStates -> %s need=%d term=%d nom=%d val=%d next=%d %.17g", NM, stName(s), e->needUpdate, e->terminate, e->nominals, e->values, e->nextDefined, e->next);
    return s;
}
St Inst::doStep(double cur, double h, StepResult *r) {
    St s;
    {
        InCall ic("DoStep");
        if (l->ver == 2) {
            s = (St)l->a2.DoStep(c, cur, h, 1);
            r->terminate = s == sDiscard;
        } else {
            StepResult n;
            n.eventNeeded = n.terminate = n.early = junk();
            n.last = junk() ? -7.7e77 : 0;
            s = (St)l->a3.DoStep(c, cur, h, true, &n.eventNeeded, &n.terminate, &n.early, &n.last);
            if (s == sOK || s == sWarning || s == sDiscard) *r = n;
        }
    }
    if (l->ver == 2 && (s == sOK || s == sDiscard)) {
        double t = junk() ? -7.7e77 : 0;
        InCall ic("GetRealStatus");
        if (l->a2.GetRealStatus(c, fmi2LastSuccessfulTime, &t) == fmi2OK) r->last = t;
    }
    TR("%s DoStep(%.17g, %.17g) -> %s event=%d term=%d early=%d last=%.17g", NM, cur, h, stName(s), r->eventNeeded, r->terminate, r->early, r->last);
    return s;
}
double spentInPartition3;
bool tiredOfPartition3() { return spentInPartition3 > 10; }
St Inst::activate(uint32_t clock, double t) {
    seActive = this;
    St s;
    clock_t t0 = ::clock();
    { InCall ic("ActivateModelPartition"); s = (St)l->a3.ActivateModelPartition(c, clock, t); }
    if (clock == 1003) spentInPartition3 += (double)(::clock() - t0) / CLOCKS_PER_SEC;
    TR("%s ActivateModelPartition(%u, %.17g) -> %s", NM, clock, t, stName(s));
    return s;
}
St Inst::getState(void **s) { RET("GetFMUState", l->a2.GetFMUstate(c, s), l->a3.GetFMUState(c, s)); }
St Inst::setState(void *s) { RET("SetFMUState", l->a2.SetFMUstate(c, s), l->a3.SetFMUState(c, s)); }
St Inst::freeState(void **s) { RET("FreeFMUState", l->a2.FreeFMUstate(c, s), l->a3.FreeFMUState(c, s)); }
St Inst::stateSize(void *s, size_t *n) { RET("SerializedFMUStateSize", l->a2.SerializedFMUstateSize(c, s, n), l->a3.SerializedFMUStateSize(c, s, n)); }
St Inst::serialize(void *s, unsigned char *b, size_t n) { RET("SerializeFMUState", l->a2.SerializeFMUstate(c, s, (fmi2Byte *)b, n), l->a3.SerializeFMUState(c, s, (fmi3Byte *)b, n)); }
St Inst::deserialize(const unsigned char *b, size_t n, void **s) {
    Inputs q;
    q.add(b, n);
    St st;
    { InCall ic("DeserializeFMUState"); st = (St)(l->ver == 2 ? (int)l->a2.DeSerializeFMUstate(c, (const fmi2Byte *)b, n, s) : (int)l->a3.DeserializeFMUState(c, (const fmi3Byte *)b, n, s)); }
    TR("%s DeserializeFMUState -> %s", NM, stName(st));
    q.check("DeserializeFMUState");
    return st;
}
St Inst::dirDer(const std::vector<uint32_t> &u, const std::vector<uint32_t> &k, const std::vector<double> &seed, std::vector<double> &out) {
    Buf<double> sd(seed.size()), so(u.size());
    for (size_t i = 0; i < u.size(); i++) so[i] = junk() ? -7.7e77 : 0;
    Buf<uint32_t> ub(u.size()), kb(k.size());
    for (size_t i = 0; i < seed.size(); i++) sd[i] = seed[i];
    for (size_t i = 0; i < u.size(); i++) ub[i] = u[i];
    for (size_t i = 0; i < k.size(); i++) kb[i] = k[i];
    Inputs q;
    q.add(ub.p, u.size() * sizeof(uint32_t));
    q.add(kb.p, k.size() * sizeof(uint32_t));
    q.add(sd.p, seed.size() * sizeof(double));
    St s;
    {
        InCall ic("GetDirectionalDerivative");
        s = (St)(l->ver == 2 ? (int)l->a2.GetDirectionalDerivative(c, ub.p, u.size(), kb.p, k.size(), sd.p, so.p)
                             : (int)l->a3.GetDirectionalDerivative(c, ub.p, u.size(), kb.p, k.size(), sd.p, seed.size(), so.p, u.size()));
    }
    out.assign(so.p, so.p + u.size());
    TR("%s GetDirectionalDerivative nu=%zu nk=%zu -> %s", NM, u.size(), k.size(), stName(s));
    q.check("GetDirectionalDerivative");
    return s;
}
St Inst::adjDer(const std::vector<uint32_t> &u, const std::vector<uint32_t> &k, const std::vector<double> &seed, std::vector<double> &out) {
    Buf<double> sd(seed.size()), so(k.size());
    for (size_t i = 0; i < k.size(); i++) so[i] = junk() ? -7.7e77 : 0;
    Buf<uint32_t> ub(u.size()), kb(k.size());
    for (size_t i = 0; i < seed.size(); i++) sd[i] = seed[i];
    for (size_t i = 0; i < u.size(); i++) ub[i] = u[i];
    for (size_t i = 0; i < k.size(); i++) kb[i] = k[i];
    Inputs q;
    q.add(ub.p, u.size() * sizeof(uint32_t));
    q.add(kb.p, k.size() * sizeof(uint32_t));
    q.add(sd.p, seed.size() * sizeof(double));
    St s;
    { InCall ic("GetAdjointDerivative"); s = (St)l->a3.GetAdjointDerivative(c, ub.p, u.size(), kb.p, k.size(), sd.p, seed.size(), so.p, k.size()); }
    out.assign(so.p, so.p + k.size());
    TR("%s GetAdjointDerivative nu=%zu nk=%zu -> %s", NM, u.size(), k.size(), stName(s));
    q.check("GetAdjointDerivative");
    return s;
}

void expect(St got, St want, const char *key, const char *what) {
    if (got != want) fail(key, "%s returned %s instead of %s", what, stName(got), stName(want));
}

// Shared parts of all workload drivers: random numbers, violation reporting,
// worker processes, and a uniform view of FMI 2 and FMI 3 instances.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>

extern "C" {
#include "fmi2FunctionTypes.h"
#include "fmi3FunctionTypes.h"
}

// ---------------------------------------------------------------- random ---
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    size_t below(size_t n) { return n ? (size_t)(u64() % n) : 0; }
    bool chance(double p) { return unit() < p; }
    double unit() { return (double)(u64() >> 11) / 9007199254740992.0; }
    double range(double a, double b) { return a + (b - a) * unit(); }
    int64_t irange(int64_t a, int64_t b) { return a + (int64_t)(u64() % (uint64_t)(b - a + 1)); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hashStr(const char *s);

// ------------------------------------------------------------- reporting ---
struct CaseFail {};

struct Options {
    std::string property, tier = "quick", fmus2, fmus3, extra, scratch, out;
    uint64_t seed = 1;
    long onlyCase = -1;
    int jobs = 8;
    bool thorough() const { return tier == "thorough"; }
    size_t scale(size_t quick, size_t thorough_) const { return thorough() ? thorough_ : quick; }
};
extern Options opt;

// One line of the call history of the current case (kept for the witness).
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void traceClear();
extern void (*traceHook)(const char *line);    // sees every line
// Records a violation and abandons the current case.
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Records a violation but goes on with the current case.
void note(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Harness trouble, not a verdict about the code.
[[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

void count(const char *name, uint64_t n = 1);      // measured counters
void feature(uint64_t h);                          // distinct non-trivial observations
void feature(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// Marks that code under test is running (for the CPU-time watchdog).
extern thread_local bool noWatch;   // set in additional threads
struct InCall { InCall(const char *what); ~InCall(); };

// Every driver provides these.
void driverInit();
size_t driverCases();
void driverCase(size_t i, Rng &rng);

// ------------------------------------------------------------ FMU access ---
enum Ver { V2 = 2, V3 = 3 };
enum IfType { ME = 0, CSIM = 1, SE = 2 };
enum St { sOK = 0, sWarning, sDiscard, sError, sFatal, sPending };

#define FMI2_FUNCS(X) \
 X(GetTypesPlatform) X(GetVersion) X(SetDebugLogging) X(Instantiate) X(FreeInstance) X(SetupExperiment) \
 X(EnterInitializationMode) X(ExitInitializationMode) X(Terminate) X(Reset) X(GetReal) X(GetInteger) X(GetBoolean) X(GetString) \
 X(SetReal) X(SetInteger) X(SetBoolean) X(SetString) X(GetFMUstate) X(SetFMUstate) X(FreeFMUstate) X(SerializedFMUstateSize) \
 X(SerializeFMUstate) X(DeSerializeFMUstate) X(GetDirectionalDerivative) X(EnterEventMode) X(NewDiscreteStates) \
 X(EnterContinuousTimeMode) X(CompletedIntegratorStep) X(SetTime) X(SetContinuousStates) X(GetDerivatives) X(GetEventIndicators) \
 X(GetContinuousStates) X(GetNominalsOfContinuousStates) X(SetRealInputDerivatives) X(GetRealOutputDerivatives) X(DoStep) X(CancelStep) \
 X(GetStatus) X(GetRealStatus) X(GetIntegerStatus) X(GetBooleanStatus) X(GetStringStatus)

#define FMI3_FUNCS(X) \
 X(GetVersion) X(SetDebugLogging) X(InstantiateModelExchange) X(InstantiateCoSimulation) X(InstantiateScheduledExecution) X(FreeInstance) \
 X(EnterInitializationMode) X(ExitInitializationMode) X(EnterEventMode) X(Terminate) X(Reset) \
 X(GetFloat32) X(GetFloat64) X(GetInt8) X(GetUInt8) X(GetInt16) X(GetUInt16) X(GetInt32) X(GetUInt32) X(GetInt64) X(GetUInt64) X(GetBoolean) \
 X(GetString) X(GetBinary) X(GetClock) X(SetFloat32) X(SetFloat64) X(SetInt8) X(SetUInt8) X(SetInt16) X(SetUInt16) X(SetInt32) X(SetUInt32) \
 X(SetInt64) X(SetUInt64) X(SetBoolean) X(SetString) X(SetBinary) X(SetClock) X(GetNumberOfVariableDependencies) X(GetVariableDependencies) \
 X(GetFMUState) X(SetFMUState) X(FreeFMUState) X(SerializedFMUStateSize) X(SerializeFMUState) X(DeserializeFMUState) \
 X(GetDirectionalDerivative) X(GetAdjointDerivative) X(EnterConfigurationMode) X(ExitConfigurationMode) X(GetIntervalDecimal) \
 X(GetIntervalFraction) X(GetShiftDecimal) X(GetShiftFraction) X(SetIntervalDecimal) X(SetIntervalFraction) X(SetShiftDecimal) X(SetShiftFraction) \
 X(EvaluateDiscreteStates) X(UpdateDiscreteStates) X(EnterContinuousTimeMode) X(CompletedIntegratorStep) X(SetTime) X(SetContinuousStates) \
 X(GetContinuousStateDerivatives) X(GetEventIndicators) X(GetContinuousStates) X(GetNominalsOfContinuousStates) \
 X(GetNumberOfEventIndicators) X(GetNumberOfContinuousStates) X(EnterStepMode) X(GetOutputDerivatives) X(DoStep) X(ActivateModelPartition)

struct Api2 {
#define X(n) fmi2##n##TYPE *n = nullptr;
    FMI2_FUNCS(X)
#undef X
};
struct Api3 {
#define X(n) fmi3##n##TYPE *n = nullptr;
    FMI3_FUNCS(X)
#undef X
};

enum Ty { F32, F64, I8, U8, I16, U16, I32, U32, I64, U64, BOOL, STR, BIN, CLK, NTY };
extern const char *tyName[];
size_t tySize(Ty t);

// What the specification says about a variable.
enum Kind { Independent, Constant, FixedPar, TunablePar, StructPar, Input, Output, Local, StateVar, DerVar, ClockVar };
struct Var {
    const char *name;
    uint32_t vr;
    Ty ty;
    Kind kind;
    bool discrete;
};

struct ModelInfo {
    const char *name;
    const char *token;
    double step;      // fixed internal step
    double stop;      // default stop time
    bool me, cs, se;
    bool eventMode;   // Event Mode in co-simulation available
    int nx, nz;
    std::vector<Var> vars3, vars2;
    const std::vector<Var> &vars(int ver) const { return ver == 2 ? vars2 : vars3; }
    const Var *var(int ver, uint32_t vr) const;
    bool inV2;
};
const std::vector<ModelInfo> &models();
const ModelInfo &model(const char *name);

struct Lib {
    const ModelInfo *m = nullptr;
    int ver = 0;
    void *handle = nullptr;
    std::string path;
    Api2 a2;
    Api3 a3;
};
Lib *lib(const char *model, int ver);           // loaded on demand
Lib *libFrom(const char *model, int ver, const std::string &path, const std::string &prefix);  // from another binary
std::vector<Lib *> allLibs(int ver = 0);        // every model, in one version or in both
std::string resourcesOf(const Lib *l);          // directory with the resources

struct LogRec { void *env; std::string inst; int status; std::string category, message; };
struct IuRec { double t; bool setReq, getAllowed, finished, canEarly; };
struct StepResult { bool eventNeeded = false, terminate = false, early = false; double last = 0; };
struct EventInfo { bool needUpdate = false, terminate = false, nominals = false, values = false, nextDefined = false; double next = 0; };

struct InstOpt {
    IfType type = CSIM;
    bool eventMode = false, early = false, logging = false;
    bool useIu = false;
    std::string name = "inst";
    std::string token;       // empty: correct one
    std::string resource;    // empty: correct one
    bool nullResource = false, emptyResource = false;
    bool nullName = false, nullToken = false, emptyToken = false, nullLogger = false, visible = false;
};

extern thread_local const Lib *openingLib;   // of the instantiation in progress

// One FMU instance together with everything its callbacks delivered.
struct Inst {
    Lib *l = nullptr;
    void *c = nullptr;
    InstOpt o;
    std::vector<LogRec> logs;
    std::vector<IuRec> ius;
    std::function<void(Inst &, const IuRec &, bool *, double *)> onIu;
    uint64_t wrongEnv = 0;
    int lockDepth = 0; uint64_t locks = 0, unlocks = 0, clockUpdates = 0; bool lockError = false;
    std::function<void(Inst &)> onClockUpdate, onLock, onUnlock;
    fmi2CallbackFunctions cb2;
    std::string label;
    bool quiet = false;      // do not write the trace

    Inst() {}
    ~Inst();
    Inst(const Inst &) = delete;
    Inst &operator=(const Inst &) = delete;

    bool open(Lib *lib, const InstOpt &opt);    // false if instantiation returned NULL
    void free();
    int ver() const { return l->ver; }
    size_t errorLogs() const;

    // common functions
    St enterInit(double start, bool stopDefined, double stop);   // FMI 2: both calls
    St setupExperiment(double start, bool stopDefined, double stop);
    St enterInitOnly();
    St exitInit();
    St terminate();
    St reset();
    St enterEvent();
    St enterCT();
    St enterStep();
    St enterConfig();
    St exitConfig();
    St debugLogging(bool on, const std::vector<std::string> &cats, size_t missing = (size_t)-1);   // missing: index of an entry without a name
    // typed access with explicit counts; buffers must be exactly nv long
    St get(Ty t, const uint32_t *vr, size_t nvr, void *values, size_t nv, size_t *sizes = nullptr);
    St set(Ty t, const uint32_t *vr, size_t nvr, const void *values, size_t nv, const size_t *sizes = nullptr);
    // scalars
    St getF64(uint32_t vr, double *v);
    St setF64(uint32_t vr, double v);
    St getI32(uint32_t vr, int32_t *v);
    St setI32(uint32_t vr, int32_t v);
    St getBool(uint32_t vr, bool *v);
    St setBool(uint32_t vr, bool v);
    St getF64v(uint32_t vr, std::vector<double> &v);    // v.size() elements
    St setF64v(uint32_t vr, const std::vector<double> &v);
    St setU64(uint32_t vr, uint64_t v);
    St getU64(uint32_t vr, uint64_t *v);
    // model exchange
    St setTime(double t);
    St setStates(const std::vector<double> &x);
    St getStates(std::vector<double> &x);
    St getDer(std::vector<double> &dx);
    St getInd(std::vector<double> &z);
    St getNominals(std::vector<double> &n);
    size_t nx(); size_t nz();
    St completed(bool *enterEvent, bool *terminate);
    St update(EventInfo *e);
    // co-simulation
    St doStep(double cur, double h, StepResult *r);
    St activate(uint32_t clock, double t);
    // states
    St getState(void **s);
    St setState(void *s);
    St freeState(void **s);
    St stateSize(void *s, size_t *n);
    St serialize(void *s, unsigned char *b, size_t n);
    St deserialize(const unsigned char *b, size_t n, void **s);
    // derivatives
    St dirDer(const std::vector<uint32_t> &u, const std::vector<uint32_t> &k, const std::vector<double> &seed, std::vector<double> &out);
    St adjDer(const std::vector<uint32_t> &u, const std::vector<uint32_t> &k, const std::vector<double> &seed, std::vector<double> &out);
};

const char *stName(int s);
const char *ifName(int t);
std::string hexd(double d);
bool sameBits(double a, double b);
bool near(double a, double b, double rel = 1e-9, double abs_ = 1e-12);

// Heap block of exactly n elements, so that AddressSanitizer guards both ends.
template <class T> struct Buf {
    T *p; size_t n;
    explicit Buf(size_t n_) : p((T *)malloc(n_ * sizeof(T) + (n_ ? 0 : 1))), n(n_) { if (n) memset((void *)p, 0, n * sizeof(T)); }
    ~Buf() { ::free(p); }
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    T &operator[](size_t i) { return p[i]; }
    operator T *() { return p; }
};

// Partition 3 of Clocks consumes time on purpose, how much depends on the compiler. Beyond this it is left out.
extern double spentInPartition3;
bool tiredOfPartition3();
// When set, every call is checked to leave its constant arguments as they were.
extern bool checkInputs;
struct Inputs {
    std::vector<std::pair<const char *, std::string>> held;
    void add(const void *p, size_t n) { if (checkInputs && p && n) held.emplace_back((const char *)p, std::string((const char *)p, n)); }
    void check(const char *call);
};

// Compact helper: fail unless status is as expected.
void expect(St got, St want, const char *key, const char *what);

// Random but reproducible importers: knows which calls are legal in which mode,
// makes them with valid arguments, and writes down everything the FMU answered.
#pragma once
#include "common.hpp"

enum Mode { mInst = 1, mInit = 2, mConfig = 4, mReconf = 8, mEvent = 16, mCT = 32, mStep = 64, mClock = 128, mTerm = 256 };
const char *modeName(int m);

enum Tri { NO, YES, DONTCARE };
// May this variable be set in this mode (as far as the properties say)?
Tri settable(int ver, IfType type, Mode mode, const ModelInfo &m, const Var &v);
// Number of elements; dims = {m, n, r} of StateSpace.
size_t elements(const ModelInfo &m, const Var &v, const uint64_t dims[3]);

// All readable variables, as raw bytes. Requires a mode in which reading is legal.
typedef std::map<uint32_t, std::string> Snap;
St readVar(Inst &in, const Var &v, size_t n, std::string *out);
bool snapshot(Inst &in, Snap &s);               // false if a read failed
std::string snapDiff(const ModelInfo &m, int ver, const Snap &a, const Snap &b);
std::string bytesText(Ty t, const std::string &b);

struct Walker {
    Lib *l = nullptr;
    IfType type = CSIM;
    bool eventMode = false, early = false;
    Mode mode = mInst;
    double time = 0;         // last time known to the importer
    double cp = 0;           // next communication point
    double start = 0;
    bool eventPending = false;
    bool ended = false;      // the FMU asked for termination
    EventInfo ei;
    uint64_t dims[3] = {3, 3, 3};
    bool dae = false;
    bool setup = false;
    bool bare = false;       // FMI 2: leave out SetupExperiment
    int stairMax = 6;        // largest start value of Stair's counter
    int p3left = 2;          // activations of the slow partition still allowed
    bool allowTerminate = true, allowReset = true, allowDebug = false, allowP3 = false;
    bool records = true;     // keep the transcript
    std::string log;         // transcript
    const char *lastOp = "";

    void init(Lib *lib, const InstOpt &o) { l = lib; type = o.type; eventMode = o.eventMode; early = o.early; }
    bool readable() const { return l->ver == 3 || mode != mInst; }
    // one legal call (or small group of calls); returns its status
    St step(Inst &in, Rng &r);
    void run(Inst &in, Rng &r, size_t n) { for (size_t i = 0; i < n; i++) step(in, r); }
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    St opSnapshot(Inst &in);
    St opSet(Inst &in, Rng &r);
    St opStep(Inst &in, Rng &r);
    St bring(Inst &in, Mode target, Rng &r);     // straight way to a mode from mInst
private:
    St done(const char *op, St s);
};

// Every interface type and flag combination of a library that is supported.
std::vector<InstOpt> supported(Lib *l);
double niceValue(Rng &r);

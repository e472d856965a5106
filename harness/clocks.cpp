// C20 scheduled execution of the Clocks FMU, with and without preemption.
#include "common.hpp"
#include <csignal>
#include <ctime>
#include <ucontext.h>

static Lib *L;
static long clock_() { return (long)clock(); }
static bool slow;      // built without optimization: partition 3 takes seconds

static const uint32_t CLK1 = 1001, CLK2 = 1002, CLK3 = 1003, OUT = 1005;
static const uint32_t TICKS1 = 2001, TOTAL = 2004, RESULT2 = 2005, INPUT2 = 2006, OUTPUT3 = 2007;

void driverInit() {
    slow = opt.extra == "slow";
    L = lib("Clocks", 3);
}

// ------------------------------------------------------------------ raw instance with callbacks that are safe everywhere
struct Raw {
    void *c = nullptr;
    uint64_t errors = 0, wrongEnv = 0;
};
static volatile int depth;
static volatile unsigned long locks, unlocks, updates;
static volatile bool badLock;
static Raw *theRaw;
static std::function<void()> inUpdate;
extern "C" {
static void cbLock(void) { if (depth != 0) badLock = true; depth = depth + 1; locks = locks + 1; }
static void cbUnlock(void) { if (depth != 1) badLock = true; unlocks = unlocks + 1; depth = depth - 1; }
static void cbUpdate(fmi3InstanceEnvironment e) { if (e != theRaw) theRaw->wrongEnv++; updates = updates + 1; if (inUpdate) inUpdate(); }
static void cbLog(fmi3InstanceEnvironment e, fmi3Status s, fmi3String, fmi3String m) { if (e != theRaw) theRaw->wrongEnv++; if (s >= fmi3Error) { theRaw->errors++; trace("log: %s", m); } }
}
static void openRaw(Raw &r, bool callbacks) {
    theRaw = &r;
    depth = 0; locks = unlocks = updates = 0; badLock = false;
    inUpdate = nullptr;
    r.c = L->a3.InstantiateScheduledExecution("clocks", model("Clocks").token, nullptr, false, false, &r, cbLog, cbUpdate, callbacks ? cbLock : nullptr, callbacks ? cbUnlock : nullptr);
    if (!r.c) fail("instantiate", "instantiation failed");
    trace("instantiated %s lock callbacks", callbacks ? "with" : "without");
    if (L->a3.EnterInitializationMode(r.c, false, 0, 0, false, 0) != fmi3OK || L->a3.ExitInitializationMode(r.c) != fmi3OK) fail("init", "initialization failed");
}
static int32_t geti(Raw &r, uint32_t vr) {
    int32_t v = -12345;
    fmi3ValueReference q = vr;
    if (L->a3.GetInt32(r.c, &q, 1, &v, 1) != fmi3OK) fail("get", "reading variable %u failed", vr);
    return v;
}
static void seti(Raw &r, int32_t v) {
    fmi3ValueReference q = INPUT2;
    trace("input2 = %d", v);
    if (L->a3.SetInt32(r.c, &q, 1, &v, 1) != fmi3OK) fail("set", "setting input2 failed");
}

// ------------------------------------------------------------------ reference model
struct Ref {
    int32_t t1 = 0, t2 = 0, t3 = 0, total = 0, result2 = 0, input2 = 0, output3 = 0;
    bool out = false;
    int qualifier = 0;
    void tick() { total++; out = total % 5 == 0; }
    // returns the number of clock updates expected, or -1 if either is fine
    int activate(uint32_t c, double t) {
        bool fresh = false, pending = qualifier == 2;
        if (c == CLK1) { t1++; if ((int)t == 4) { qualifier = 2; fresh = true; } }
        else if (c == CLK2) { t2++; result2 = (int32_t)((uint32_t)result2 + (uint32_t)input2); input2 = 0; }
        else { t3++; output3 = 1000; }
        tick();
        if (out || fresh) return 1;
        return pending && c == CLK1 ? -1 : 0;
    }
};
static void compare(Raw &r, const Ref &f, const char *when) {
    const int32_t want[] = {f.t1, f.t2, f.t3, f.total, f.result2, f.input2, f.output3};
    static const char *names[] = {"inClock1Ticks", "inClock2Ticks", "inClock3Ticks", "totalInClockTicks", "result2", "input2", "output3"};
    for (int i = 0; i < 7; i++) {
        int32_t v = geti(r, TICKS1 + (uint32_t)i);
        if (v != want[i]) fail("value", "%s: %s is %d instead of %d", when, names[i], v, want[i]);
    }
}
static void locksFine(const char *when) {
    if (badLock) fail("nesting", "%s: lock and unlock callbacks are nested or not paired", when);
    if (depth != 0 || locks != unlocks) fail("pairing", "%s: %lu locks and %lu unlocks", when, (unsigned long)locks, (unsigned long)unlocks);
}

static void caseSequence(size_t i, Rng &r) {
    Raw q;
    bool cb = i % 4 != 0;
    openRaw(q, cb);
    Ref f;
    int p3 = i % 5 == 0 ? 2 : 0;
    bool readInUpdate = r.chance(0.3);
    double t = 0;
    size_t n = r.chance(0.01) ? 2000 + r.below(2000) : 5 + r.below(40), acts = 0;
    int outSeen = -1, qualSeen = -1;
    double intervalSeen = -1;
    if (readInUpdate) inUpdate = [&] {
        fmi3ValueReference o = OUT, c = CLK3;
        bool b = false;
        int qq = -1;
        if (L->a3.GetClock(q.c, &o, 1, &b) == fmi3OK) outSeen = b;
        fmi3IntervalQualifier fq = (fmi3IntervalQualifier)-1;
        if (L->a3.GetIntervalDecimal(q.c, &c, 1, &intervalSeen, &fq) == fmi3OK) qq = (int)fq;
        qualSeen = qq;
    };
    for (size_t k = 0; k < n; k++) {
        switch (r.below(8)) {
        case 0: { int32_t v = r.chance(0.1) ? (int32_t)r.u64() : (int32_t)r.irange(-1000, 1000); seti(q, v); f.input2 = v; break; }
        case 1: {
            if (readInUpdate) break;
            // reading the clock also clears it, within one request too
            size_t c = r.below(4);
            Buf<uint32_t> o(c);
            Buf<bool> b(c);
            for (size_t j = 0; j < c; j++) { o[j] = OUT; b[j] = !(j ? false : f.out); }
            if (L->a3.GetClock(q.c, o.p, c, b.p) != fmi3OK) fail("getclock", "reading outClock failed");
            trace("outClock %zu times -> %d", c, c ? b[0] : -1);
            for (size_t j = 0; j < c; j++) if (b[j] != (j ? false : f.out)) fail("outclock", "reading %zu of outClock is %d with %d ticks", j, b[j], f.total);
            if (c) f.out = false;
            break;
        }
        case 2: {
            if (readInUpdate) break;
            fmi3ValueReference o = CLK3;
            double iv = -7;
            fmi3IntervalQualifier fq = (fmi3IntervalQualifier)-1;
            if (L->a3.GetIntervalDecimal(q.c, &o, 1, &iv, &fq) != fmi3OK) fail("getinterval", "reading the interval of inClock3 failed");
            trace("interval -> %d %g", (int)fq, iv);
            if ((int)fq != f.qualifier) fail("qualifier", "the interval qualifier of inClock3 is %d instead of %d", (int)fq, f.qualifier);
            if (f.qualifier == 2) { if (iv != 0) fail("interval", "the interval of inClock3 is %g", iv); f.qualifier = 1; }
            break;
        }
        case 3: compare(q, f, "between activations"); break;
        default: {
            uint32_t c = r.chance(0.6) ? CLK1 : CLK2;
            if (p3 && r.chance(0.2) && !tiredOfPartition3()) { c = CLK3; p3--; }
            if (r.chance(0.7)) t += 1; else t = r.range(0, 9.99);
            if (t > 9.99) t = 0;
            unsigned long u0 = updates, l0 = locks;
            outSeen = qualSeen = -1;
            bool hadOut;
            int q0 = f.qualifier;
            int want = f.activate(c, t);
            hadOut = f.out;
            fmi3Status s;
            double c0 = (double)clock_() / 1e6;
            { InCall ic("ActivateModelPartition"); s = L->a3.ActivateModelPartition(q.c, c, t); }
            if (c == CLK3) spentInPartition3 += (double)clock_() / 1e6 - c0;
            trace("activate %u at %g -> %s, %lu updates", c, t, stName(s), updates - u0);
            if (s != fmi3OK) fail("activate", "activating clock %u returns %s", c, stName(s));
            if (want >= 0 && updates - u0 != (unsigned long)want) fail("update", "%lu clock updates instead of %d (clock %u at %g, %d ticks)", updates - u0, want, c, t, f.total);
            locksFine("after an activation");
            if (!cb && locks != l0) fail("lock", "lock callback called though none was given");
            if (readInUpdate && updates != u0) {
                if (outSeen != (int)hadOut) fail("outclock", "outClock read in the clock update is %d instead of %d", outSeen, hadOut);
                int wantQ = f.qualifier;
                if (qualSeen != wantQ) fail("qualifier", "qualifier read in the clock update is %d instead of %d", qualSeen, wantQ);
                if (wantQ == 2 && intervalSeen != 0) fail("interval", "interval %g", intervalSeen);
                if (f.qualifier == 2) f.qualifier = 1;
                f.out = false;
            }
            (void)q0;
            acts++;
            feature("%u %d %d %d", c, (int)t, f.total % 5, f.qualifier);
            count("evaluations");
        }
        }
    }
    compare(q, f, "at the end");
    if (q.wrongEnv) fail("environment", "a callback was given a foreign environment");
    if (q.errors) fail("errors", "%lu error messages", (unsigned long)q.errors);
    if (i % 3 == 2 && !readInUpdate) {
        // what has happened can still be read after the end
        if (L->a3.Terminate(q.c) != fmi3OK) fail("terminate", "terminate failed");
        for (int j = 0; j < 2; j++) {
            fmi3ValueReference o = OUT;
            bool b = !f.out;
            if (L->a3.GetClock(q.c, &o, 1, &b) != fmi3OK) fail("getclock", "reading outClock after the end failed");
            if (b != f.out) fail("outclock", "outClock is %d after the end with %d ticks, reading %d", b, f.total, j);
            f.out = false;
        }
        compare(q, f, "after the end");
    }
    if (i % 3 == 1) {
        // requests with a reference that has no such value
        bool iv = r.chance(0.5);
        size_t c = 1 + r.below(3), at = r.below(c);
        Buf<uint32_t> o(c);
        Buf<bool> b(c);
        Buf<double> d(c);
        Buf<fmi3IntervalQualifier> fq(c);
        for (size_t j = 0; j < c; j++) o[j] = iv ? CLK3 : OUT;
        o[at] = iv ? (const uint32_t[]){CLK1, CLK2, OUT, 0, 2001, 1004, 4000000000u}[r.below(7)] : (const uint32_t[]){CLK1, CLK2, CLK3, 0, 2001, 1004, 4000000000u}[r.below(7)];
        fmi3Status s = iv ? L->a3.GetIntervalDecimal(q.c, o.p, c, d.p, fq.p) : L->a3.GetClock(q.c, o.p, c, b.p);
        if (s != fmi3Error) fail("unknown", "reading the %s of %u returns %s", iv ? "interval" : "clock", o[at], stName(s));
        if (!q.errors) fail("unknown log", "reading the %s of %u logs nothing", iv ? "interval" : "clock", o[at]);
        feature("bad %d %zu %zu %u", iv, c, at, o[at]);
        count("evaluations");
        compare(q, f, "after a failed request");
    }
    if (i % 3 == 0) {
        // activation of something that is no model partition
        uint32_t bad = (const uint32_t[]){OUT, 0, 2001, 1004, 4000000000u}[r.below(5)];
        fmi3Status s;
        { InCall ic("ActivateModelPartition"); s = L->a3.ActivateModelPartition(q.c, bad, t); }
        if (s != fmi3Error) fail("unknown", "activating %u returns %s", bad, stName(s));
        if (!q.errors) fail("unknown log", "activating %u logs nothing", bad);
        locksFine("after a failed activation");
        compare(q, f, "after a failed activation");
        if (L->a3.Reset(q.c) != fmi3OK) fail("reset", "reset failed");
        compare(q, Ref(), "after reset");
    }
    sample("case %zu: %zu activations, %d ticks, %lu locks", i, acts, f.total, (unsigned long)locks);
    L->a3.FreeInstance(q.c);
    count("activations in sequence", acts);
}

// ------------------------------------------------------------------ preemption by single-stepping
struct Level {
    long step = 0;          // instructions executed in the running activation
    long at = -1;           // instruction before which it is preempted
    uint32_t by = 0;        // partition that preempts
    long nextAt = -1;       // where the preempting partition is itself preempted
    bool done = false;
    double chance = 0;      // or preempt at random by partition 1
};
static Level lev[3];
static volatile int cur = -1;
static volatile int preempted[4];
static volatile long stepsSeen, lockedSeen;
static volatile bool stepError;
static volatile uint64_t rs;
static const long CAP = 60000;

static inline void tfOn() { asm volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }
static inline void tfOff() { asm volatile("pushfq\n\tandq $~0x100,(%%rsp)\n\tpopfq" ::: "memory", "cc"); }

__attribute__((noinline)) static void stepped(uint32_t clock, double t) {
    tfOn();
    fmi3Status s = L->a3.ActivateModelPartition(theRaw->c, clock, t);
    tfOff();
    if (s != fmi3OK) stepError = true;
}
static void onTrap(int, siginfo_t *, void *uc) {
    ucontext_t *u = (ucontext_t *)uc;
    int me = cur;
    if (me < 0) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    Level &v = lev[me];
    v.step++;
    stepsSeen = stepsSeen + 1;
    if (v.step > CAP) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    bool now = v.step >= v.at && v.at >= 0 && !v.done;
    if (v.chance > 0) {
        rs = rs * 6364136223846793005ull + 1442695040888963407ull;
        now = (double)(rs >> 40) / 16777216.0 < v.chance;
    }
    if (!now) return;
    if (depth) { lockedSeen = lockedSeen + 1; return; }      // preempted as soon as it is unlocked
    v.done = true;
    preempted[v.by == CLK1 ? 1 : 2] = preempted[v.by == CLK1 ? 1 : 2] + 1;
    if (v.nextAt >= 0 && me + 1 < 3) {
        lev[me + 1] = Level();
        lev[me + 1].at = v.nextAt;
        lev[me + 1].by = CLK1;
        cur = me + 1;
        stepped(v.by, 1);
        cur = me;
    } else if (L->a3.ActivateModelPartition(theRaw->c, v.by, 1) != fmi3OK) stepError = true;
}
static void trapOn() {
    static bool done;
    if (done) return;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onTrap;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, nullptr);
    done = true;
}
// Runs one activation with preemption; returns the number of instructions.
static long runPreempted(Raw &q, Ref &f, uint32_t clock, const Level &plan, const char *what) {
    trapOn();
    lev[0] = plan;
    for (auto &p : preempted) p = 0;
    stepError = false;
    {
        InCall ic("ActivateModelPartition (single-stepped)");
        cur = 0;
        stepped(clock, 1);
        cur = -1;
    }
    long n = lev[0].step;
    f.activate(clock, 1);
    for (int k = 0; k < preempted[1]; k++) f.activate(CLK1, 1);
    for (int k = 0; k < preempted[2]; k++) f.activate(CLK2, 1);
    trace("%s: partition %u, %ld instructions, preempted %d times by 1 and %d times by 2", what, clock - 1000, n, preempted[1], preempted[2]);
    if (stepError) fail("activate", "an activation failed under preemption");
    locksFine("after a preempted activation");
    return n;
}
static void comparePreempted(Raw &q, Ref &f, const char *what) {
    // the input is consumed by whichever activation of partition 2 comes first, so result2 and input2 are as without preemption
    compare(q, f, what);
}
static void prelude(Raw &q, Ref &f, Rng &r) {
    size_t n = r.below(7);
    for (size_t k = 0; k < n; k++) {
        uint32_t c = r.chance(0.5) ? CLK1 : CLK2;
        if (L->a3.ActivateModelPartition(q.c, c, 1) != fmi3OK) fail("activate", "activation failed");
        f.activate(c, 1);
    }
    int32_t v = (int32_t)r.irange(1, 1000);
    seti(q, v);
    f.input2 = v;
}
// every preemption point: clock preempted by `by`
static void caseSweep(Rng &r, uint32_t clock, uint32_t by, bool nested) {
    long total = 1, points = 0, stride = 1;
    for (long at = 0; at <= total; at += stride) {
        traceClear();
        Raw q;
        openRaw(q, true);
        Ref f;
        prelude(q, f, r);
        Level p;
        p.at = at;
        p.by = by;
        if (nested) p.nextAt = (long)r.below(250);
        double c0 = (double)clock_() / 1e6;
        long n = runPreempted(q, f, clock, p, "sweep");
        double spent = (double)clock_() / 1e6 - c0;
        bool takesLong = spent > 0.3;      // the loop of partition 3 was not optimized away
        if (clock == CLK3 && takesLong) spentInPartition3 += spent;
        if (at == 0) total = n;
        if (total > 20000) stride = 1 + total / 2000;
        // what follows still works
        Level none;
        runPreempted(q, f, CLK2, none, "after");
        comparePreempted(q, f, "after preemption");
        L->a3.FreeInstance(q.c);
        count("evaluations");
        feature("%u by %u nested %d at %ld", clock, by, nested, at);
        points++;
        if (takesLong && (points > 15 || tiredOfPartition3())) break;
        if (takesLong) stride = 1 + (long)r.below(100);
    }
    sample("partition %u preempted by %u%s at each of %ld instructions (%ld per activation)", clock - 1000, by - 1000, nested ? " (itself preempted)" : "", points, total);
    count("preemption points", (uint64_t)points);
}
static void caseRandom(size_t i, Rng &r) {
    Raw q;
    openRaw(q, true);
    Ref f;
    prelude(q, f, r);
    rs = r.u64();
    size_t n = 1 + r.below(6), three = 0;
    for (size_t k = 0; k < n; k++) {
        Level p;
        p.by = CLK1;
        p.chance = r.chance(0.5) ? 0.02 : 0.2;
        uint32_t c = !slow && three < 1 && r.chance(0.3) && !tiredOfPartition3() ? CLK3 : CLK2;
        if (c == CLK3) { three++; if (r.chance(0.5)) { p.by = CLK2; p.nextAt = (long)r.below(200); } }
        double c0 = (double)clock_() / 1e6;
        runPreempted(q, f, c, p, "random");
        double spent = (double)clock_() / 1e6 - c0;
        if (c == CLK3 && spent > 0.1) spentInPartition3 += spent;
        comparePreempted(q, f, "after random preemption");
        count("evaluations");
        count("preemptions", (uint64_t)(preempted[1] + preempted[2]));
    }
    feature("random %zu", i);
    L->a3.FreeInstance(q.c);
}

size_t driverCases() { return 5 + opt.scale(600, 8000) + (slow ? 0 : opt.scale(3000, 60000)); }
void driverCase(size_t i, Rng &r) {
    switch (i) {
    case 0: caseSweep(r, CLK2, CLK1, false); return;
    case 1: if (!slow) caseSweep(r, CLK3, CLK1, false); return;
    case 2: if (!slow) caseSweep(r, CLK3, CLK2, false); return;
    case 3: if (!slow) caseSweep(r, CLK3, CLK2, true); return;
    case 4: if (!slow) for (int k = 0; k < 3; k++) caseSweep(r, CLK3, CLK2, true); return;
    }
    i -= 5;
    if (i < opt.scale(600, 8000)) caseRandom(i, r);
    else caseSequence(i, r);
}

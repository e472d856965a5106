// C11 step contract, C12 trajectories, C14 agreement of the forms, C15 bounces,
// C16 stair, C17 early return and Event Mode, C24 intermediate updates.
#include "walker.hpp"
#include "ref.hpp"

static int P;
struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;      // co-simulation only
static bool is(const ModelInfo &m, const char *n) { return !strcmp(m.name, n); }

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    for (auto &m : models()) {
        if (!m.cs) continue;
        if (P == 15 && !is(m, "BouncingBall")) continue;
        if (P == 16 && !is(m, "Stair")) continue;
        for (int ver : {2, 3}) {
            if (ver == 2 && (!m.inV2 || P == 17 || P == 24)) continue;
            Lib *l = lib(m.name, ver);
            for (auto &o : supported(l)) if (o.type == CSIM) kinds.push_back({l, o});
        }
    }
}

// compares every variable with the reference
static void compare(Inst &in, const Ref &ref, const char *key, const char *when) {
    const ModelInfo &m = *in.l->m;
    bool q = in.quiet;
    in.quiet = true;
    for (auto &v : m.vars(in.l->ver)) {
        if (v.ty == F64 && !is(m, "Feedthrough")) {
            std::vector<double> w, g;
            if (!ref.value(v.vr, &w)) continue;
            g.assign(w.size(), NAN);
            St s = in.getF64v(v.vr, g);
            if (s != sOK) { in.quiet = q; fail("read", "%s cannot be read %s: %s", v.name, when, stName(s)); }
            for (size_t i = 0; i < w.size(); i++)
                if (!near(g[i], w[i], 1e-7, 1e-9)) {
                    in.quiet = q;
                    fail(key, "%s FMI%d %s: %s[%zu] is %.17g instead of %.17g at time %.17g (internal step %ld)", m.name, in.l->ver, when, v.name, i, g[i], w[i], ref.time(), ref.n);
                }
            count("values compared", w.size());
        } else if (is(m, "Stair") && v.vr == 1) {
            int32_t c = -1;
            St s = in.getI32(1, &c);
            if (s != sOK || c != ref.counter) { in.quiet = q; fail(key, "Stair FMI%d %s: counter is %d instead of %d at time %.17g (%s)", in.l->ver, when, c, ref.counter, ref.time(), stName(s)); }
            count("values compared");
        } else if (is(m, "Resource") && v.vr == 1) {
            int32_t c = -1;
            St s = in.getI32(1, &c);
            if (s != sOK || c != 'a') { in.quiet = q; fail(key, "Resource %s: y is %d (%s)", when, c, stName(s)); }
        } else if (is(m, "Feedthrough")) {
            if (v.vr == 0) {
                double t = NAN;
                if (in.getF64(0, &t) != sOK || !near(t, ref.time(), 1e-9, 1e-9)) { in.quiet = q; fail(key, "time is %.17g instead of %.17g", t, ref.time()); }
                continue;
            }
            // an output has the value of the input before it
            uint32_t src = v.kind == Output ? v.vr - 1 : v.vr;
            auto it = ref.raw.find(src);
            if (it == ref.raw.end()) continue;
            std::string b;
            St s = readVar(in, v, 1, &b);
            if (s != sOK || b != it->second) { in.quiet = q; fail(key, "Feedthrough %s: %s is %s instead of %s", when, v.name, bytesText(v.ty, b).c_str(), bytesText(v.ty, it->second).c_str()); }
            count("values compared");
        }
    }
    in.quiet = q;
}

struct Sim {
    Kind_ k;
    Inst in;
    Ref ref;
    double cp = 0;
    double lastT = 0;
    bool done = false;       // asked for termination
    double stop = 0;
    bool stopDef = false;
};

// one random setting of a parameter, start value or input that is legal now
static void setSomething(Sim &s, Rng &r, bool beforeStart) {
    Inst &in = s.in;
    const ModelInfo &m = *in.l->m;
    Ref &f = s.ref;
    auto ok = [&](St st, const char *what) { expect(st, sOK, "set", what); };
    if (is(m, "BouncingBall") && beforeStart && P == 15 && r.chance(0.1)) {
        // without gravity and with a velocity that moves the ball by a power of two, it meets the floor exactly
        int e = (int)r.irange(7, 11);
        f.g = 0; f.v = -1000 * ldexp(1, -e); f.h = (double)r.irange(1, 120) * ldexp(1, -e); f.exact = true;
        ok(in.setF64(5, f.g), "setting g"); ok(in.setF64(3, f.v), "setting v"); ok(in.setF64(1, f.h), "setting h");
        count("exact impacts prepared");
    } else if (is(m, "BouncingBall")) {
        if (beforeStart) f.exact = false;
        switch (beforeStart ? r.below(4) : 3) {
        case 0: f.h = r.chance(0.5) ? r.range(0.01, 2) : r.range(0.001, 0.1); ok(in.setF64(1, f.h), "setting h"); break;
        case 1: f.v = P == 15 && r.chance(0.1) ? r.range(-3000, -500) : r.range(-6, 6); ok(in.setF64(3, f.v), "setting v"); break;
        case 2: f.g = r.chance(0.3) ? r.range(-60, -20) : r.range(-20, -0.5); ok(in.setF64(5, f.g), "setting g"); break;
        default: f.e = r.chance(0.2) ? 1.0 : r.chance(0.2) ? 0.25 * (double)r.below(4) : r.range(0.05, 0.99); ok(in.setF64(6, f.e), "setting e"); break;
        }
    } else if (is(m, "Dahlquist")) {
        if (!beforeStart) return;
        if (r.chance(0.5)) { f.x = niceValue(r); ok(in.setF64(1, f.x), "setting x"); }
        else { f.k = r.range(-3, 5); ok(in.setF64(3, f.k), "setting k"); }
    } else if (is(m, "VanDerPol")) {
        switch (beforeStart ? r.below(3) : 2) {
        case 0: f.x0 = r.range(-2.5, 2.5); ok(in.setF64(1, f.x0), "setting x0"); break;
        case 1: f.x1 = r.range(-2.5, 2.5); ok(in.setF64(3, f.x1), "setting x1"); break;
        default: f.mu = r.range(-0.5, 3); ok(in.setF64(5, f.mu), "setting mu"); break;
        }
    } else if (is(m, "Stair")) {
        if (!beforeStart) return;
        f.counter = (int)r.irange(-3, 9);
        ok(in.setI32(1, f.counter), "setting counter");
    } else if (is(m, "Roberts")) {
        if (!beforeStart) return;
        if (r.chance(0.5)) { f.y1 = r.range(0.5, 1); ok(in.setF64(2, f.y1), "setting y1"); }
        else { f.y2 = r.range(0, 1e-4); ok(in.setF64(4, f.y2), "setting y2"); }
    } else if (is(m, "StateSpace")) {
        uint32_t vr = (uint32_t)r.irange(4, 9);
        if (vr == 8 && !beforeStart) vr = 9;
        double *dst = vr == 4 ? f.A : vr == 5 ? f.B : vr == 6 ? f.C : vr == 7 ? f.D : vr == 8 ? f.X0 : f.U;
        std::vector<double> w;
        f.value(vr, &w);
        for (size_t i = 0; i < w.size(); i++) { w[i] = r.range(-2, 2); dst[i] = w[i]; }
        if (vr == 8) for (size_t i = 0; i < w.size(); i++) f.X[i] = w[i];
        ok(in.setF64v(vr, w), "setting an array");
    } else if (is(m, "Feedthrough")) {
        std::vector<const Var *> c;
        for (auto &v : m.vars(in.l->ver))
            if (v.kind == Input || v.kind == TunablePar || (v.kind == FixedPar && beforeStart)) c.push_back(&v);
        const Var &v = *c[r.below(c.size())];
        uint32_t vr = v.vr;
        if (v.ty == F64) { double d = niceValue(r); f.raw[vr] = std::string((char *)&d, 8); ok(in.setF64(vr, d), "setting an input"); }
        else if (v.ty == F32) { Buf<float> b(1); b[0] = (float)niceValue(r); f.raw[vr] = std::string((char *)b.p, 4); ok(in.set(F32, &vr, 1, b.p, 1), "setting an input"); }
        else if (v.ty == BOOL) { bool b = r.chance(0.5); f.raw[vr] = std::string(1, (char)b); ok(in.setBool(vr, b), "setting an input"); }
        else if (v.ty == STR) { std::string t = "s" + std::to_string(r.below(100000)); f.raw[vr] = t; Buf<const char *> b(1); b[0] = t.c_str(); ok(in.set(STR, &vr, 1, b.p, 1), "setting an input"); }
        else if (v.ty == BIN) { return; }
        else {
            uint64_t u = r.u64();
            if (vr == 33) u = 1 + r.below(2);
            Buf<char> b(tySize(v.ty));
            memcpy(b.p, &u, b.n);
            f.raw[vr] = std::string(b.p, b.n);
            ok(in.set(v.ty, &vr, 1, b.p, 1), "setting an input");
        }
    }
    count("settings");
}

static void handleEvent(Sim &s, Rng &r, bool initial) {
    if (!initial) expect(s.in.enterEvent(), sOK, "eventmode", "EnterEventMode");
    for (size_t rep = 1 + (r.chance(0.3) ? r.below(3) : 0); rep; rep--) {
        EventInfo e;
        bool wasPending = s.ref.pending;
        expect(s.in.update(&e), sOK, "eventmode", "UpdateDiscreteStates");
        s.ref.changed = false;
        s.ref.handle();
        if (e.values != s.ref.changed) fail("announce", "%s: event update at %.17g %s changed states (event pending: %d)", s.in.l->m->name, s.ref.time(), e.values ? "announced" : "did not announce", wasPending);
        if (e.terminate != s.ref.terminate) fail("terminate", "event update at %.17g says terminate=%d", s.ref.time(), e.terminate);
        if (is(*s.in.l->m, "Stair") && (!e.nextDefined || !near(e.next, s.ref.next, 1e-9, 1e-9)))
            fail("nextevent", "next event time is %d %.17g instead of %.17g", e.nextDefined, e.next, s.ref.next);
        if (!is(*s.in.l->m, "Stair") && e.nextDefined) fail("nextevent", "%s announces a time event", s.in.l->m->name);
        if (e.needUpdate) fail("announce", "a further event iteration is requested");
        if (e.nominals) fail("announce", "changed nominal values are announced");
        if (e.terminate) s.done = true;
        count("event updates");
    }
    if (s.done) return;
    expect(s.in.enterStep(), sOK, "eventmode", "EnterStepMode");
}

static void open(Sim &s, const Kind_ &k, Rng &r, bool iu = false) {
    s.k = k;
    InstOpt o = k.o;
    o.useIu = iu;
    s.in.label = "a";
    if (!s.in.open(k.l, o)) fail("instantiate", "instantiation failed");
    const ModelInfo &m = *k.l->m;
    s.ref.init(m, k.l->ver);
    for (auto &v : m.vars(k.l->ver))
        if (is(m, "Feedthrough") && (v.kind == Input || v.kind == FixedPar || v.kind == TunablePar) && v.vr != 31) s.ref.raw[v.vr] = "";
    double start = r.chance(0.6) ? 0.0 : r.chance(0.5) ? 0.25 : r.chance(0.5) ? r.range(-2, 3) : (double)r.irange(-2, 5);
    if (is(m, "Stair")) start = r.chance(0.8) ? 0.0 : 0.2 * (double)r.irange(0, 2);
    size_t n1 = r.below(4), n2 = r.below(4);
    for (size_t i = 0; i < n1; i++) setSomething(s, r, true);
    s.stopDef = r.chance(0.5);
    s.stop = start + (r.chance(0.5) ? m.stop * 2 : r.range(1, m.stop * 2));
    if (is(m, "Roberts")) s.stop = start + r.range(0.01, 0.05);
    expect(s.in.enterInit(start, s.stopDef, s.stop), sOK, "init", "EnterInitializationMode");
    for (size_t i = 0; i < n2; i++) setSomething(s, r, true);
    expect(s.in.exitInit(), sOK, "init", "ExitInitializationMode");
    s.ref.begin(start);
    s.cp = start;
    s.lastT = start;
    // values that were never set keep their start values
    for (auto it = s.ref.raw.begin(); it != s.ref.raw.end();) { if (it->second.empty()) it = s.ref.raw.erase(it); else ++it; }
    if (k.o.eventMode) handleEvent(s, r, true);
    if (!s.done) compare(s.in, s.ref, "start", "after initialization");
}

static double tolN(const Ref &f, double t) { return 1e-5 * fmax(1, fabs(t)) / f.m->step * 1.01 + 1e-6; }

// chooses a step size; clear: the number of internal steps it takes is not a matter of rounding
static double chooseStep(Sim &s, Rng &r, bool clear) {
    const ModelInfo &m = *s.in.l->m;
    double H = m.step;
    double maxSteps = is(m, "BouncingBall") ? 400 : is(m, "StateSpace") ? 60 : is(m, "Roberts") ? 300 : is(m, "VanDerPol") ? 60 : is(m, "Stair") ? 18 : 12;
    for (int tries = 0; tries < 50; tries++) {
        double h;
        switch (r.below(6)) {
        case 0: h = H; break;
        case 1: h = H * (double)r.irange(1, (int64_t)maxSteps); break;
        case 2: h = H * r.range(0.06, 1); break;
        case 3: h = H * r.range(0.1, maxSteps); break;
        case 4: h = (s.ref.time() + H * (double)r.irange(1, 20)) - s.cp; break;     // back to the grid
        default: h = H * r.range(0.1, 4); break;
        }
        if (is(m, "Roberts")) h = r.range(2e-5, 3e-4);
        if (P == 12 && is(m, "BouncingBall") && !s.stopDef && s.cp < 1 && r.chance(0.004)) h = H * (double)r.irange(30000, 80000);   // tens of thousands of internal steps
        if (!(h > 0)) continue;
        if (s.stopDef && s.cp + h > s.stop) {
            h = s.stop - s.cp;
            if (!(h > H * 0.06)) return -1;
        }
        double f = (s.cp + h - s.ref.start) / H, fr = f - floor(f), t = tolN(s.ref, s.cp + h);
        bool grid = fr < 1e-7 * fmax(1, fabs(f)) || fr > 1 - 1e-7 * fmax(1, fabs(f));
        if (clear && !grid && fr > 1 - 2 * t - 0.01) continue;
        return h;
    }
    return -1;
}

// Makes one step and judges it; the reference follows the reported time.
static void step(Sim &s, Rng &r, double h) {
    Ref &f = s.ref;
    const ModelInfo &m = *s.in.l->m;
    double H = m.step;
    double next = s.cp + h, target = (next - f.start) / H, tol = tolN(f, next);
    size_t logs = s.in.errorLogs();
    // what happens on the way, if the step is made completely
    StepResult q;
    q.eventNeeded = q.early = true;
    q.last = NAN;
    St st = s.in.doStep(s.cp, h, &q);
    count("steps");
    if (s.k.l->ver == 2) q.eventNeeded = q.early = false;
    if (st != sOK && !(s.k.l->ver == 2 && st == sDiscard))
        fail("rejected", "a valid step from %.17g by %.17g returned %s %s", s.cp, h, stName(st), s.in.logs.empty() ? "" : s.in.logs.back().message.c_str());
    if (s.in.errorLogs() != logs) fail("errorlog", "a successful step reported an error: %s", s.in.logs.back().message.c_str());
    double fn = (q.last - f.start) / H;
    long n = lround(fn);
    if (!(fabs(fn - (double)n) < 1e-6 * fmax(1, fabs(fn)))) fail("grid", "reported time %.17g is not on the internal grid (start %.17g, step %g)", q.last, f.start, H);
    if (n < f.n) fail("backwards", "time went back from %.17g to %.17g", f.time(), q.last);
    if ((double)n > target + tol && n > f.n) fail("overshoot", "step to %.17g ended at %.17g", next, q.last);
    // follow
    long firstEvent = -1, termAt = -1;
    bool lastIsEvent = false;
    bool em = s.k.o.eventMode, early = s.k.o.early;
    long from = f.n;
    while (f.n < n) {
        if (f.pending) f.handle();
        if (f.terminate && termAt < 0) termAt = f.n;
        f.step();
        if (f.pending && firstEvent < 0) firstEvent = f.n;
        lastIsEvent = f.pending;
        if (f.pending && !em) { f.handle(); if (f.terminate && termAt < 0) termAt = f.n; }
        if (f.ambiguous || !f.finite()) return;
    }
    if (from == f.n) lastIsEvent = false;
    bool complete = (double)n > target - 1 - 1e-6;
    // early return and termination
    if (!early && q.early) fail("early", "early return was flagged without permission");
    if (!q.early && !q.terminate && !complete) fail("short", "step to %.17g ended at %.17g without early return (next internal step would have fitted)", next, q.last);
    if (early) {
        if (firstEvent >= 0 && firstEvent < n && !q.terminate) fail("missed", "an event at internal step %ld (time %.17g) did not end the step, which went on to %.17g", firstEvent, f.start + (double)firstEvent * H, q.last);
        if (firstEvent == n && !q.early && fabs(target - (double)n) > tol + 1e-3) fail("missed", "an event at %.17g ended the step to %.17g but no early return was flagged", q.last, next);
        if (q.early && firstEvent < 0 && termAt < 0) fail("early", "early return at %.17g without an event", q.last);
    }
    if (em) {
        if (q.eventNeeded != lastIsEvent) fail("flag", "event flag is %d at %.17g, but an event %s", q.eventNeeded, q.last, lastIsEvent ? "was met in the last internal step" : "was not met");
    } else if (q.eventNeeded) fail("flag", "event flag was raised without Event Mode");
    if (q.terminate) {
        if (!f.terminate) fail("terminate", "termination was requested at %.17g (counter %d)", q.last, f.counter);
        if (termAt >= 0 && n > termAt + (em ? 1 : 0)) fail("terminate", "termination was due at %.17g but the step ended at %.17g", f.start + (double)termAt * H, q.last);
        s.done = true;
    } else if (f.terminate) fail("terminate", "termination was due at internal step %ld but was not requested at %.17g", termAt, q.last);
    if (s.k.l->ver == 2) {
        fmi2Boolean b = -1;
        InCall ic("GetBooleanStatus");
        if (!s.done && (s.in.l->a2.GetBooleanStatus(s.in.c, fmi2Terminated, &b) != fmi2OK || (b != 0) != q.terminate)) fail("terminate", "fmi2Terminated is %d", b);
    }
    compare(s.in, f, "trajectory", "after a step");
    s.cp = (q.early || q.terminate) ? q.last : next;
    s.lastT = q.last;
    count("evaluations");
    count("internal steps", (uint64_t)(n - from));
    count("events", firstEvent >= 0);
    feature("%s%d em%d er%d n%ld frac%d ev%d early%d flag%d term%d reb%ld", m.name, s.k.l->ver, em, early, n - from > 12 ? 12 + (n - from) / 40 : n - from, (int)((target - floor(target)) * 8), firstEvent >= 0 ? (int)(firstEvent == n) + 1 : 0,
            q.early, q.eventNeeded, q.terminate, f.bounces > 9 ? 9 : f.bounces);
    if (q.eventNeeded) handleEvent(s, r, false);
    else if (em && !s.done && r.chance(0.05)) handleEvent(s, r, false);    // an uncalled-for event update changes nothing
    if (q.eventNeeded || r.chance(0.1)) if (!s.done) compare(s.in, f, "trajectory", "after event handling");
}

static void rejected(Sim &s, double cur, double h, const char *what) {
    Snap a, b;
    if (!snapshot(s.in, a)) fail("read", "variables cannot be read");
    size_t lg = s.in.errorLogs();
    StepResult q;
    St st = s.in.doStep(cur, h, &q);
    count("evaluations");
    count("refused steps");
    if (st != sError) fail("accepted", "a step %s (from %.17g by %.17g, expected start %.17g, stop %.17g) returned %s", what, cur, h, s.cp, s.stopDef ? s.stop : INFINITY, stName(st));
    if (s.in.errorLogs() == lg) fail("nolog", "a refused step (%s) was not reported", what);
    if (!snapshot(s.in, b)) fail("read", "variables cannot be read after a refused step");
    if (a != b) fail("effect", "a refused step (%s) changed %s", what, snapDiff(*s.in.l->m, s.in.l->ver, a, b).c_str());
    feature("%s%d refused %s", s.in.l->m->name, s.in.l->ver, what);
}

static void caseSteps(const Kind_ &k, Rng &r) {
    Sim s;
    open(s, k, r);
    size_t n = 3 + r.below(P == 15 ? 60 : 25);
    double last = 0;
    if (P == 11 && !k.o.early && !s.stopDef && !is(*k.l->m, "Roberts") && r.chance(0.02)) {
        // a long simulation: more internal steps than 16 bits can count
        double H = k.l->m->step;
        for (size_t i = 0; i < 8 && !s.done && !s.ref.ambiguous && s.ref.finite(); i++) step(s, r, H * (i < 4 ? (double)r.irange(17000, 20000) : (double)r.irange(1, 3)));
        sample("%s FMI%d eventMode=%d: %ld internal steps to %.6g", k.l->m->name, k.l->ver, k.o.eventMode, s.ref.n, s.lastT);
        count("long simulations");
        return;
    }
    // a start within the tolerance moves the following communication points
    double drift = P == 11 && !s.stopDef && r.chance(0.15) ? (r.chance(0.5) ? 4e-6 : -4e-6) : 0;
    for (size_t i = 0; i < n && !s.done && !s.ref.ambiguous && s.ref.finite(); i++) {
        if (P != 11 && r.chance(0.3)) setSomething(s, r, false);
        double h = chooseStep(s, r, P == 17);
        if (h < 0) break;
        // the next step may start at a value that differs by rounding
        double keep = s.cp;
        if (r.chance(0.2)) s.cp = nextafter(s.cp, r.chance(0.5) ? -1e9 : 1e9);
        if (drift != 0) { s.cp = keep + drift * fmax(1, fabs(keep)); count("shifted starts"); }
        if (!(s.cp + h > keep)) s.cp = keep;
        step(s, r, h);
        last = h;
        if (P == 17 && s.k.o.early && !s.done && !s.ref.ambiguous && s.ref.finite() && r.chance(0.5) && fabs(keep + h - s.cp) > 1e-3 * fmax(1, fabs(s.cp))) {
            // after an early return the step must be continued from where it ended
            void *st = nullptr;
            expect(s.in.getState(&st), sOK, "state", "GetFMUState");
            if (!s.stopDef || keep + 2 * h < s.stop) rejected(s, keep + h, h, "from the point that was not reached");
            expect(s.in.setState(st), sOK, "state", "SetFMUState");
            expect(s.in.freeState(&st), sOK, "state", "FreeFMUState");
        }
    }
    sample("%s FMI%d eventMode=%d early=%d: %zu steps to %.6g, %ld internal steps, %ld events, last step %.6g", k.l->m->name, k.l->ver, k.o.eventMode, k.o.early, n, s.lastT, s.ref.n, s.ref.events, last);
    if (P == 11 && !s.done && !s.ref.ambiguous && s.ref.finite()) {
        double H = k.l->m->step, eps = 5e-5 * fmax(1, fabs(s.cp));
        double h = fmax(H, 2e-4) * (double)r.irange(1, 5);
        if (s.stopDef && s.cp + h > s.stop - 1e-4) h = (s.stop - s.cp) / 2;
        bool room = h > 2 * eps;
        switch (r.below(8)) {
        case 0: if (room) rejected(s, s.cp + eps * r.range(1, 20), h - eps > 0 ? h / 2 : h, "ahead of the communication point"); break;
        case 1: if (room) rejected(s, s.cp - eps * r.range(1, 20), h, "behind the communication point"); break;
        case 2: rejected(s, s.cp, 0.0, "of size zero"); break;
        case 3: rejected(s, s.cp, -H * r.range(0.1, 5), "of negative size"); break;
        case 4: if (s.stopDef) rejected(s, s.cp, s.stop - s.cp + 5e-5 * fmax(1, fabs(s.stop)) + r.range(0, 1), "past the stop time"); break;
        case 5: rejected(s, s.cp, r.chance(0.5) ? NAN : INFINITY, "of a size that is no number"); break;
        case 6: rejected(s, s.cp + (r.chance(0.5) ? 1 : -1) * r.range(0.5, 3), H, "from far away"); break;
        default: if (s.lastT < s.cp - 1e-3 * fmax(1, fabs(s.cp))) rejected(s, s.lastT, H, "from the internal time"); else rejected(s, NAN, H, "from no number"); break;
        }
    }
}

// ------------------------------------------------------------------- C24 ---
static void caseIu(const Kind_ &k, Rng &r) {
    Sim s;
    long calls = 0;
    bool err = false;
    char msg[400] = "";
    uint64_t mode = r.below(3);
    bool active = false;
    double lastT = -INFINITY;
    Ref shadow;
    s.in.onIu = [&](Inst &in, const IuRec &u, bool *req, double *when) {
        calls++;
        if (err) return;
        auto bad = [&](const char *f, double a, double b) { err = true; snprintf(msg, sizeof msg, f, a, b); };
        if (&in != &s.in) bad("environment is wrong", 0, 0);
        if (!active) { bad("callback outside of a step", 0, 0); return; }
        if (shadow.pending) shadow.handle();
        shadow.step();
        if (!near(u.t, shadow.time(), 1e-9, 1e-9)) bad("update time %.17g instead of %.17g", u.t, shadow.time());
        if (!(u.t > lastT)) bad("update times do not increase: %.17g after %.17g", u.t, lastT);
        lastT = u.t;
        if (u.setReq || !u.getAllowed || !u.finished || u.canEarly) bad("capability flags are wrong: set requested/allowed %g, finished/early %g", u.setReq * 10 + u.getAllowed, u.finished * 10 + u.canEarly);
        if (mode && !shadow.ambiguous && shadow.finite()) {
            // read inside of the callback
            bool q = in.quiet;
            in.quiet = true;
            for (auto &v : in.l->m->vars(3)) {
                std::vector<double> w;
                if (v.ty != F64 || is(*in.l->m, "Feedthrough") || !shadow.value(v.vr, &w)) continue;
                std::vector<double> g(w.size(), NAN);
                if (in.getF64v(v.vr, g) != sOK) { bad("reading failed at %g", u.t, 0); break; }
                for (size_t i = 0; i < w.size(); i++)
                    if (!near(g[i], w[i], 1e-7, 1e-9)) { err = true; snprintf(msg, sizeof msg, "%s[%zu] is %.17g instead of %.17g inside the callback at %.17g", v.name, i, g[i], w[i], u.t); }
            }
            if (is(*in.l->m, "Stair")) {
                int32_t c = -1;
                if (in.getI32(1, &c) != sOK || c != shadow.counter) bad("counter is %g instead of %g inside the callback", c, shadow.counter);
            }
            in.quiet = q;
        }
        if (mode == 2) { *req = true; *when = u.t; }
        if (shadow.pending && !s.k.o.eventMode) shadow.handle();
        count("updates");
    };
    open(s, k, r, true);
    if (calls) fail("callback", "intermediate update during initialization");
    size_t n = 2 + r.below(12);
    for (size_t i = 0; i < n && !s.done && !s.ref.ambiguous && s.ref.finite(); i++) {
        if (r.chance(0.3)) setSomething(s, r, false);
        double h = chooseStep(s, r, false);
        if (h < 0) break;
        shadow = s.ref;
        calls = 0;
        long before = s.ref.n;
        active = true;
        // step() moves the reference and handles events afterwards
        try {
            step(s, r, h);
        } catch (CaseFail &) {
            if (err) note("update", "%s", msg);
            throw;
        }
        active = false;
        if (s.ref.ambiguous || !s.ref.finite()) return;
        if (err) fail("update", "%s", msg);
        if (calls != s.ref.n - before) fail("count", "%ld intermediate updates in %ld internal steps", calls, s.ref.n - before);
    }
}

// ------------------------------------------------------------------- C14 ---
// a Model Exchange instance integrated by the importer
struct MeSim {
    Inst in;
    double t = 0, start = 0;
    long n = 0;
    std::vector<double> x, dx, z, pz;
    EventInfo ei;
    bool done = false;
    long events = 0;
    bool ambiguous = false;
    void begin() {
        size_t nx = (size_t)in.nx(), nz = (size_t)in.nz();
        x.resize(nx); dx.resize(nx); z.resize(nz); pz.resize(nz);
        updates();
        if (done) return;
        expect(in.enterCT(), sOK, "me", "EnterContinuousTimeMode");
        expect(in.getInd(pz), sOK, "me", "GetEventIndicators");
    }
    void updates() {
        int k = 0;
        do {
            expect(in.update(&ei), sOK, "me", "UpdateDiscreteStates");
            if (ei.nominals) fail("me", "changed nominal values are announced");
            if (++k > 20) fail("me", "event iteration does not end");
        } while (ei.needUpdate && !ei.terminate);
        if (ei.terminate) done = true;
    }
    void step() {
        double H = in.l->m->step;
        expect(in.getStates(x), sOK, "me", "GetContinuousStates");
        expect(in.getDer(dx), sOK, "me", "GetDerivatives");
        n++;
        t = start + (double)n * H;
        expect(in.setTime(t), sOK, "me", "SetTime");
        for (size_t i = 0; i < x.size(); i++) x[i] += H * dx[i];
        expect(in.setStates(x), sOK, "me", "SetContinuousStates");
        bool a = false, b = false;
        expect(in.completed(&a, &b), sOK, "me", "CompletedIntegratorStep");
        if (b) done = true;
        expect(in.getInd(z), sOK, "me", "GetEventIndicators");
        bool ev = a;
        if (is(*in.l->m, "BouncingBall") && fabs(z[0]) < 1e-9 && !(dx[0] == 0 && dx[1] == 0)) ambiguous = true;
        for (size_t i = 0; i < z.size(); i++) if ((pz[i] <= 0) != (z[i] <= 0)) ev = true;
        if (ei.nextDefined && t >= ei.next - 1e-9) ev = true;
        pz = z;
        if (ev) {
            events++;
            expect(in.enterEvent(), sOK, "me", "EnterEventMode");
            updates();
            if (done) return;
            expect(in.enterCT(), sOK, "me", "EnterContinuousTimeMode");
            expect(in.getInd(pz), sOK, "me", "GetEventIndicators");
        }
    }
};

static void caseAgree(const ModelInfo &m, Rng &r) {
    std::vector<std::unique_ptr<Sim>> cs;
    std::vector<std::unique_ptr<MeSim>> me;
    double start = r.chance(0.7) ? 0.0 : r.range(-1, 2);
    if (is(m, "Stair")) {
        // the events must lie on the grid of the fixed steps
        start = r.chance(0.5) ? 0.0 : 0.2 * (double)r.irange(-5, 4);
        for (int e = 1; e <= 10; e++) if (start + floor((e - start) / 0.2 + 0.5) * 0.2 < e) start = 0;
    }
    std::vector<int> vers = {3};
    if (m.inV2) vers.push_back(2);
    Rng setupSeed(r.u64());
    size_t nset = r.below(6);
    for (int v : vers) {
        Lib *l = lib(m.name, v);
        cs.emplace_back(new Sim);
        cs.back()->k = {l, InstOpt()};
        me.emplace_back(new MeSim);
    }
    auto setup = [&](Inst &in, Lib *l, IfType type, const char *label) {
        InstOpt o;
        o.type = type;
        in.label = label;
        if (!in.open(l, o)) fail("instantiate", "instantiation failed");
    };
    for (size_t i = 0; i < vers.size(); i++) {
        Lib *l = lib(m.name, vers[i]);
        setup(cs[i]->in, l, CSIM, vers[i] == 3 ? "cs3" : "cs2");
        setup(me[i]->in, l, ME, vers[i] == 3 ? "me3" : "me2");
        for (int half = 0; half < 2; half++) {
            Inst &in = half ? me[i]->in : cs[i]->in;
            // the same settings for every form (only variables that all forms have)
            Sim tmp;
            tmp.k = cs[i]->k;
            tmp.ref.init(m, 2);
            Rng q = setupSeed;
            expect(in.enterInit(start, false, 0), sOK, "init", "EnterInitializationMode");
            for (size_t a = 0; a < nset; a++) {
                std::vector<const Var *> c;
                for (auto &v : m.vars(m.inV2 ? 2 : 3))
                    if (settable(m.inV2 ? 2 : 3, ME, mInit, m, v) == YES && m.var(3, v.vr)->ty == v.ty) c.push_back(&v);
                if (c.empty()) break;
                const Var &v = *c[q.below(c.size())];
                uint64_t dims[3] = {3, 3, 3};
                if (v.ty == F64) {
                    std::vector<double> w(elements(m, v, dims));
                    for (auto &d : w) d = q.range(-2, 2);
                    if (is(m, "BouncingBall")) {
                        if (v.vr == 1) w[0] = q.range(0.05, 2);
                        if (v.vr == 5) w[0] = q.range(-20, -1);
                        if (v.vr == 6) w[0] = q.range(0.1, 0.95);
                    }
                    if (is(m, "Roberts")) w[0] = v.vr == 2 ? q.range(0.5, 1) : q.range(0, 1e-4);
                    expect(in.setF64v(v.vr, w), sOK, "set", "setting a variable");
                } else if (v.ty == I32) {
                    int32_t x = (int32_t)q.irange(1, is(m, "Stair") ? 9 : 2);
                    expect(in.setI32(v.vr, x), sOK, "set", "setting a variable");
                } else if (v.ty == BOOL) {
                    expect(in.setBool(v.vr, q.chance(0.5)), sOK, "set", "setting a variable");
                }
            }
            tmp.in.c = nullptr;
            expect(in.exitInit(), sOK, "init", "ExitInitializationMode");
        }
        cs[i]->cp = start;
        me[i]->start = me[i]->t = start;
        me[i]->begin();
    }
    auto compare = [&] {
        // all variables of all forms
        auto get = [&](Inst &in, const Var &v, std::vector<double> &o) {
            bool q = in.quiet;
            in.quiet = true;
            uint64_t dims[3] = {3, 3, 3};
            o.assign(elements(m, v, dims), NAN);
            St st = sOK;
            if (v.ty == F64) st = in.getF64v(v.vr, o);
            else if (v.ty == I32) { int32_t x = 0; st = in.getI32(v.vr, &x); o[0] = x; }
            else if (v.ty == BOOL) { bool b = false; st = in.getBool(v.vr, &b); o[0] = b; }
            else o[0] = 0;
            in.quiet = q;
            if (st != sOK) fail("read", "%s cannot be read", v.name);
        };
        for (auto &v : m.vars(m.inV2 ? 2 : 3)) {
            std::vector<double> a, b;
            if (m.var(3, v.vr)->ty != v.ty) continue;
            get(cs[0]->in, v, a);
            for (size_t j = 0; j < 2 * vers.size(); j++) {
                Inst &in = j < vers.size() ? cs[j]->in : me[j - vers.size()]->in;
                get(in, v, b);
                for (size_t e = 0; e < a.size(); e++)
                    if (!(fabs(a[e]) > 1e12) && !near(a[e], b[e], 1e-7, 1e-9))
                        fail("agree", "%s[%zu] is %.17g in cs3 but %.17g in %s at %.17g", v.name, e, a[e], b[e], in.label.c_str(), cs[0]->lastT);
                count("values compared");
            }
        }
    };
    for (auto &q : cs) q->lastT = start;
    compare();
    size_t n = is(m, "BouncingBall") ? 500 + r.below(2500) : is(m, "Stair") ? 60 : 20 + r.below(200);
    size_t every = r.chance(0.5) ? 1 + r.below(7) : 1 + r.below(50);
    if (is(m, "Roberts")) every = 20 + r.below(50);
    long done = 0;
    bool csEnded = false;
    for (size_t i = 0; i < n && !csEnded; i += every) {
        // inputs change at communication points
        if (r.chance(0.2) && (is(m, "StateSpace") || is(m, "Feedthrough"))) {
            std::vector<double> u(3);
            for (auto &d : u) d = r.range(-2, 2);
            if (is(m, "Feedthrough")) u.resize(1);
            for (size_t a = 0; a < vers.size(); a++) {
                expect(cs[a]->in.setF64v(is(m, "Feedthrough") ? 7 : 9, u), sOK, "set", "setting an input");
                expect(me[a]->in.setF64v(is(m, "Feedthrough") ? 7 : 9, u), sOK, "set", "setting an input");
            }
        }
        double next = start + (double)(i + every) * m.step;
        long reached = -1;
        for (size_t a = 0; a < vers.size(); a++) {
            StepResult q;
            double h = next - cs[a]->cp;
            St st = cs[a]->in.doStep(cs[a]->cp, h, &q);
            if (st != sOK && !(vers[a] == 2 && st == sDiscard)) fail("step", "DoStep returned %s", stName(st));
            cs[a]->cp = next;
            long k = lround((q.last - start) / m.step);
            if (reached >= 0 && k != reached) fail("agree", "FMI 3 reached %.17g and FMI 2 %.17g", start + (double)reached * m.step, q.last);
            reached = k;
            if (q.terminate) csEnded = true;
            if (a && q.terminate != csEnded) fail("agree", "only one version asks for termination at %.17g", q.last);
            cs[a]->lastT = q.last;
            cs[a]->done = q.terminate;
        }
        if (vers.size() == 2 && cs[0]->done != cs[1]->done) fail("agree", "FMI 3 and FMI 2 disagree about termination at %.17g: %d %d", cs[0]->lastT, cs[0]->done, cs[1]->done);
        for (size_t a = 0; a < vers.size(); a++)
            while (me[a]->n < reached && !me[a]->done) me[a]->step();
        for (size_t a = 0; a < vers.size(); a++) {
            if (me[a]->ambiguous) return;
            if (me[a]->done != csEnded) fail("agree", "Model Exchange FMI%d %s at %.17g, co-simulation %s at %.17g", vers[a], me[a]->done ? "ended" : "goes on", me[a]->t, csEnded ? "ended" : "goes on", cs[a]->lastT);
            if (me[a]->n != reached) fail("agree", "Model Exchange FMI%d ended at %.17g, co-simulation at %.17g", vers[a], me[a]->t, cs[a]->lastT);
        }
        compare();
        done = reached;
        count("evaluations");
        feature("%s %zu events %ld %ld", m.name, every, me[0]->events, done / 20);
    }
    sample("%s: %zu forms agree over %ld internal steps compared every %zu, %ld events, %s", m.name, 2 * vers.size(), done, every, me[0]->events, csEnded ? "terminated" : "not terminated");
}

// -------------------------------------------------- C15, C16: importer side
static void caseMeEvents(Lib *l, Rng &r) {
    const ModelInfo &m = *l->m;
    InstOpt o;
    o.type = ME;
    Inst in;
    in.label = "me";
    if (!in.open(l, o)) fail("instantiate", "instantiation failed");
    Ref f;
    f.init(m, l->ver);
    bool ball = is(m, "BouncingBall");
    // the stop time bounds the simulation, not the announced events
    bool stopDef = r.chance(0.4);
    double stop = ball ? 1e6 : r.chance(0.5) ? (double)r.irange(1, 10) : r.range(0.2, 12);
    expect(in.enterInit(0, stopDef, stop), sOK, "init", "EnterInitializationMode");
    if (ball) {
        f.h = r.chance(0.15) ? -r.range(0.001, 1) : r.chance(0.1) ? 0.0 : r.chance(0.1) ? -ldexp(1, -(int)r.below(60)) : r.range(0.01, 2);
        f.v = r.range(-5, 5);
        f.g = r.chance(0.15) ? -r.range(20, 1000) : r.range(-20, -0.5);
        f.e = r.chance(0.2) ? 1.0 : r.chance(0.2) ? 0.25 * (double)r.below(4) : r.range(0.05, 0.99);
        if (r.chance(0.15)) { f.h = r.chance(0.5) ? 0.0 : -ldexp(1, -(int)r.below(60)); f.v = (r.chance(0.8) ? -1 : 1) * ldexp(1, -(int)r.irange(4, 60)); }     // slow at the floor
        expect(in.setF64(1, f.h), sOK, "set", "h"); expect(in.setF64(3, f.v), sOK, "set", "v");
        expect(in.setF64(5, f.g), sOK, "set", "g"); expect(in.setF64(6, f.e), sOK, "set", "e");
    } else if (r.chance(0.7)) {
        f.counter = (int)r.irange(-2, 9);
        expect(in.setI32(1, f.counter), sOK, "set", "counter");
    }
    expect(in.exitInit(), sOK, "init", "ExitInitializationMode");
    double t = 0;
    auto updates = [&](size_t reps) {
        for (size_t i = 0; i < reps; i++) {
            EventInfo e;
            expect(in.update(&e), sOK, "update", "UpdateDiscreteStates");
            f.changed = false;
            if (ball) { if (f.h == 0 && f.v < 0) count("impacts at exactly 0"); f.handle(); }
            else {
                if (fabs(t - f.next) < 5e-6) { f.counter++; f.next += 1; }
                if (f.counter >= 10) f.terminate = true;
            }
            if (f.ambiguous) return;
            if (e.values != f.changed) fail("announce", "event update %s changed states at h=%.17g v=%.17g", e.values ? "announced" : "did not announce", f.h, f.v);
            if (e.terminate != f.terminate) fail("terminate", "event update at %.17g: terminate=%d, counter is %d", t, e.terminate, f.counter);
            if (ball && e.nextDefined) fail("nextevent", "the ball announces a time event");
            if (!ball && (!e.nextDefined || !near(e.next, f.next, 1e-12, 1e-12))) fail("nextevent", "next event is %d %.17g instead of %.17g", e.nextDefined, e.next, f.next);
            if (e.needUpdate) fail("announce", "a further event iteration is requested");
            if (e.nominals) fail("announce", "changed nominal values are announced");
            count("event updates");
            count("evaluations");
            feature("ME %s%d rep%zu ch%d bounces%ld counter%d rest%d", m.name, l->ver, i, f.changed, f.bounces > 20 ? 20 : f.bounces, f.counter, f.rest);
            if (ball) {
                double h = 0, v = 0, g = 0;
                expect(in.getF64(1, &h), sOK, "read", "h"); expect(in.getF64(3, &v), sOK, "read", "v"); expect(in.getF64(5, &g), sOK, "read", "g");
                if (!near(h, f.h) || !near(v, f.v) || !near(g, f.g)) fail("bounce", "after event handling h=%.17g v=%.17g g=%.17g instead of %.17g %.17g %.17g", h, v, g, f.h, f.v, f.g);
                if (f.bounces && f.changed && !(h > 0)) fail("floor", "after event handling the ball is at %.17g", h);
            } else {
                int32_t c = 0;
                expect(in.getI32(1, &c), sOK, "read", "counter");
                if (c != f.counter) fail("counter", "counter is %d instead of %d at %.17g", c, f.counter, t);
            }
        }
    };
    updates(1 + r.below(3));
    size_t n = 20 + r.below(80);
    for (size_t i = 0; i < n && !f.terminate && !f.ambiguous; i++) {
        expect(in.enterCT(), sOK, "me", "EnterContinuousTimeMode");
        bool enter = false;
        if (ball) {
            // the importer may use any step size
            double dt = r.chance(0.7) ? r.range(0.0005, 0.01) : r.range(0.01, 0.2);
            size_t k = 1 + r.below(30);
            for (size_t j = 0; j < k && !enter; j++) {
                std::vector<double> x(2), dx(2), z(1);
                expect(in.getStates(x), sOK, "me", "GetContinuousStates");
                if (!near(x[0], f.h) || !near(x[1], f.v)) fail("bounce", "states are %.17g %.17g instead of %.17g %.17g", x[0], x[1], f.h, f.v);
                expect(in.getDer(dx), sOK, "me", "GetDerivatives");
                t += dt;
                expect(in.setTime(t), sOK, "me", "SetTime");
                f.h = x[0] + dt * dx[0];
                f.v = x[1] + dt * dx[1];
                // an importer that searches for the impact ends next to the floor or exactly on it
                if (f.h < 0 && r.chance(0.5)) f.h = r.chance(0.5) ? 0 : r.chance(0.5) ? -ldexp(1, -(int)r.irange(10, 60)) : -2.2250738585072014e-308;
                expect(in.setStates({f.h, f.v}), sOK, "me", "SetContinuousStates");
                expect(in.getInd(z), sOK, "me", "GetEventIndicators");
                if ((f.h > 0) != (z[0] > 0)) fail("indicator", "event indicator is %.17g at h=%.17g", z[0], f.h);
                if (f.h <= 0) enter = true;
                count("internal steps");
            }
        } else {
            double target = r.chance(0.5) ? f.next : t + (f.next - t) * r.range(0.05, 0.95);
            if (target != f.next && f.next - target < 1e-3) target = f.next;
            if (stopDef && target > stop) break;
            if (target > t) t = target;
            // an importer that adds up its steps meets the event time up to rounding, one that searches for it up to its tolerance
            if (target == f.next && r.chance(0.5)) {
                double d = r.chance(0.7) ? (double)r.irange(-8, 8) * 2.220446049250313e-16 * f.next : r.range(-1e-6, 1e-6);
                t = f.next + d;
                if (d < 0) count("event times met from below");
            }
            expect(in.setTime(t), sOK, "me", "SetTime");
        }
        expect(in.enterEvent(), sOK, "me", "EnterEventMode");
        updates(1 + (r.chance(0.4) ? r.below(3) : 0));
    }
    sample("%s FMI%d Model Exchange: %ld bounces, counter %d, ended at %.6g", m.name, l->ver, f.bounces, f.counter, t);
}

// -------------------------------------------------------------------- main
static std::vector<const ModelInfo *> agreeModels;
size_t driverCases() {
    if (P == 14) {
        for (auto &m : models()) if (m.me && m.cs) agreeModels.push_back(&m);
        return agreeModels.size() * opt.scale(70, 1200);
    }
    size_t per = P == 11 ? 500 : P == 12 ? 350 : P == 15 ? 900 : P == 16 ? 900 : P == 17 ? 700 : 300;
    return kinds.size() * opt.scale(per, per * 15);
}
void driverCase(size_t i, Rng &rng) {
    if (P == 14) { caseAgree(*agreeModels[i % agreeModels.size()], rng); return; }
    const Kind_ &k = kinds[i % kinds.size()];
    if (P == 24) { caseIu(k, rng); return; }
    if ((P == 15 || P == 16) && rng.chance(0.4)) { caseMeEvents(lib(k.l->m->name, rng.chance(0.5) ? 2 : 3), rng); return; }
    caseSteps(k, rng);
}

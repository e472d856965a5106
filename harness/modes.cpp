// C01 / C02: which calls are accepted in which mode.
// Exhaustive over (instance kind, mode, call, next call), plus random walks
// that mix legal and illegal calls.
#include "walker.hpp"

static int V;                       // FMI version under test
struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;

struct Op {
    const char *name;
    // masks of modes in which the call must be accepted / must be rejected
    std::function<void(const Kind_ &, int &acc, int &rej)> when;
    std::function<St(Inst &, Walker &, Rng &)> call;
    bool changesNothing = false;    // a query
};
static std::vector<Op> ops;
static const int ALL = mInst | mInit | mConfig | mReconf | mEvent | mCT | mStep | mClock | mTerm;

static bool is(const Kind_ &k, const char *n) { return !strcmp(k.l->m->name, n); }
static bool structural(const Kind_ &k) { return k.l->ver == 3 && (is(k, "StateSpace") || is(k, "Roberts")); }

// modes that this kind of instance can be brought into
static std::vector<Mode> reachable(const Kind_ &k) {
    std::vector<Mode> r = {mInst, mInit};
    if (structural(k)) { r.push_back(mConfig); r.push_back(mReconf); }
    if (k.o.type == ME) { r.push_back(mEvent); r.push_back(mCT); }
    if (k.o.type == CSIM) { if (k.o.eventMode) r.push_back(mEvent); r.push_back(mStep); }
    if (k.o.type == SE) r.push_back(mClock);
    r.push_back(mTerm);
    return r;
}

static void simple(const char *name, int acc, int rej, std::function<St(Inst &, Walker &, Rng &)> f, bool query = false) {
    ops.push_back({name, [acc, rej](const Kind_ &, int &a, int &r) { a = acc; r = rej; }, f, query});
}
// Model Exchange: acc / rej as given; on other instances: rejOther
static void forME(const char *name, int acc, int rej, int rejOther, std::function<St(Inst &, Walker &, Rng &)> f, bool query = false) {
    ops.push_back({name, [acc, rej, rejOther](const Kind_ &k, int &a, int &r) {
        if (k.o.type == ME) { a = acc; r = rej; } else { a = 0; r = rejOther; } }, f, query});
}

static const Var *pickSettable(Walker &w, Rng &r, Ty t, bool anyNonFloat) {
    std::vector<const Var *> c;
    for (auto &v : w.l->m->vars(w.l->ver)) {
        bool isF = v.ty == F64 || v.ty == F32;
        if (anyNonFloat ? isF : v.ty != t) continue;
        if (v.kind == Input) c.push_back(&v);
    }
    return c.empty() ? nullptr : c[r.below(c.size())];
}

static size_t stateCount(Inst &in, Walker &w) {
    if (in.l->ver == 3 && !strcmp(in.l->m->name, "StateSpace")) return w.dims[1];
    return (size_t)in.l->m->nx;
}

static void buildOps() {
    simple("EnterInitializationMode", mInst, ALL & ~mInst, [](Inst &in, Walker &w, Rng &) {
        // FMI 2: the experiment is set up before initialization
        St s = V == 2 && w.mode != mInst ? in.enterInitOnly() : in.enterInit(0, false, 0);
        if (s == sOK) { w.mode = mInit; w.time = w.cp = 0; }
        return s; });
    simple("ExitInitializationMode", mInit, ALL & ~mInit, [](Inst &in, Walker &w, Rng &) {
        St s = in.exitInit();
        if (s == sOK) w.mode = w.type == ME ? mEvent : w.type == SE ? mClock : w.eventMode ? mEvent : mStep;
        return s; });
    ops.push_back({"EnterEventMode", [](const Kind_ &k, int &a, int &r) {
        a = r = 0;
        if (k.o.type == ME) { a = mCT; r = ALL & ~mCT; if (V == 2) r &= ~mEvent; }
        else if (k.o.type == CSIM && V == 3) { if (k.o.eventMode) a = mStep; r = ALL & ~mStep; }
        else r = ALL; },
        [](Inst &in, Walker &w, Rng &) { St s = in.enterEvent(); if (s == sOK) w.mode = mEvent; return s; }});
    forME("EnterContinuousTimeMode", mEvent, ALL & ~mEvent, V == 3 ? ALL & ~mEvent : ALL,
        [](Inst &in, Walker &w, Rng &) { St s = in.enterCT(); if (s == sOK) w.mode = mCT; return s; });
    simple("Terminate", mCT | mStep | mEvent | mClock, mInst | mInit | mConfig | mTerm,
        [](Inst &in, Walker &w, Rng &) { St s = in.terminate(); if (s == sOK) w.mode = mTerm; return s; });
    simple("Reset", ALL, 0, [](Inst &in, Walker &w, Rng &) {
        St s = in.reset();
        if (s == sOK) { w.mode = mInst; w.dims[0] = w.dims[1] = w.dims[2] = 3; w.dae = false; w.eventPending = w.ended = false; w.time = 0; }
        return s; });
    // the state of the instance can be saved and restored in every mode
    simple("Get+SetFMUState", ALL, 0, [](Inst &in, Walker &, Rng &) {
        void *p = nullptr;
        St s = in.getState(&p);
        if (s == sOK) s = in.setState(p);
        size_t n = 0;
        if (s == sOK) s = in.stateSize(p, &n);
        if (s == sOK) {
            Buf<unsigned char> b(n);
            s = in.serialize(p, b.p, n);
            void *q = nullptr;
            if (s == sOK) s = in.deserialize(b.p, n, &q);
            if (q) { St t = in.freeState(&q); if (s == sOK) s = t; }
        }
        if (p) { St t = in.freeState(&p); if (s == sOK) s = t; }
        return s; }, true);
    simple("SetDebugLogging", ALL, 0, [](Inst &in, Walker &, Rng &r) { return in.debugLogging(r.chance(0.5), {"logEvents"}); }, true);
    // reading one variable
    simple("Get", V == 3 ? ALL : ALL & ~mInst, V == 3 ? 0 : mInst, [](Inst &in, Walker &w, Rng &r) {
        auto &vs = w.l->m->vars(V);
        const Var *v;
        do v = &vs[r.below(vs.size())]; while (v->kind == ClockVar);
        std::string b;
        return readVar(in, *v, elements(*w.l->m, *v, w.dims), &b); }, true);
    // setting a variable that is settable (mode level only; limits are C06's)
    ops.push_back({"Set", [](const Kind_ &k, int &a, int &r) {
        a = r = 0;
        for (Mode m : reachable(k))
            for (auto &v : k.l->m->vars(V))
                if (settable(V, k.o.type, m, *k.l->m, v) == YES) a |= m; },
        [](Inst &in, Walker &w, Rng &r) { return w.opSet(in, r); }});
    // inputs that are not floating point cannot be set in Continuous-Time Mode
    ops.push_back({"Set discrete input", [](const Kind_ &k, int &a, int &r) {
        a = r = 0;
        for (auto &v : k.l->m->vars(V))
            if (v.kind == Input && v.ty != F64 && v.ty != F32) { r = mCT; if (V == 2) r |= mTerm; } },
        [](Inst &in, Walker &w, Rng &r) {
            const Var *v = pickSettable(w, r, BOOL, true);
            uint32_t vr = v->vr;
            if (v->ty == STR) { Buf<const char *> b(1); b[0] = "x"; return in.set(STR, &vr, 1, b.p, 1); }
            if (v->ty == BIN) { Buf<const unsigned char *> b(1); Buf<size_t> z(1); b[0] = (const unsigned char *)"y"; z[0] = 1; return in.set(BIN, &vr, 1, b.p, 1, z.p); }
            Buf<char> b(tySize(v->ty));
            b[0] = 1;
            return in.set(v->ty, &vr, 1, b.p, 1); }});
    if (V == 2)
        ops.push_back({"Set real input", [](const Kind_ &k, int &a, int &r) {
            a = r = 0;
            for (auto &v : k.l->m->vars(V)) if (v.kind == Input && v.ty == F64) r = mTerm; },
            [](Inst &in, Walker &w, Rng &r) { const Var *v = pickSettable(w, r, F64, false); return in.setF64(v->vr, 2.5); }});
    // Model Exchange
    forME("SetTime", V == 2 ? mEvent | mCT : mCT, ALL & ~(mEvent | mCT), V == 2 ? ALL : ALL & ~mEvent,
        [](Inst &in, Walker &w, Rng &r) { double t = w.time + (r.chance(0.15) ? r.range(0.5, 2) : 0.05 * (double)r.irange(0, 2)); St s = in.setTime(t); if (s == sOK) w.time = t; return s; });
    forME("SetContinuousStates", mCT, ALL & ~mCT, ALL, [](Inst &in, Walker &w, Rng &r) {
        std::vector<double> x(stateCount(in, w));
        for (auto &d : x) d = niceValue(r);
        return in.setStates(x); });
    forME("CompletedIntegratorStep", mCT, ALL & ~mCT, ALL, [](Inst &in, Walker &, Rng &) { bool a, b; return in.completed(&a, &b); }, true);
    const int evalAcc = mInit | mEvent | mCT | mTerm, evalRej = mInst | mConfig | mReconf, evalOther = mInst | mConfig | mReconf | mStep | mClock;
    forME("GetContinuousStates", evalAcc, evalRej, evalOther, [](Inst &in, Walker &w, Rng &) { std::vector<double> x(stateCount(in, w)); return in.getStates(x); }, true);
    forME("GetEventIndicators", evalAcc, evalRej, evalOther, [](Inst &in, Walker &, Rng &) { std::vector<double> x((size_t)in.l->m->nz); return in.getInd(x); }, true);
    forME("GetDerivatives", V == 2 ? evalAcc & ~mInit : evalAcc, evalRej, evalOther, [](Inst &in, Walker &w, Rng &) { std::vector<double> x(stateCount(in, w)); return in.getDer(x); }, true);
    forME("GetNominals", V == 2 ? evalAcc & ~mInit : evalAcc, V == 2 ? 0 : evalRej, V == 2 ? evalOther & ~mInst : evalOther,
        [](Inst &in, Walker &w, Rng &) { std::vector<double> x(stateCount(in, w)); return in.getNominals(x); }, true);
    // directional derivatives
    ops.push_back({"GetDirectionalDerivative", [](const Kind_ &k, int &a, int &r) {
        a = r = 0;
        if (is(k, "VanDerPol")) { a = mInit | mEvent | mCT | mStep | mTerm; r = mInst | mConfig | mReconf; } },
        [](Inst &in, Walker &, Rng &) { std::vector<double> out; return in.dirDer({4}, {1}, {1.0}, out); }, true});
    if (V == 3)
        ops.push_back({"GetAdjointDerivative", [](const Kind_ &k, int &a, int &r) {
            a = r = 0;
            if (is(k, "VanDerPol")) { a = mInit | mEvent | mCT | mStep | mTerm; r = mInst | mConfig | mReconf; } },
            [](Inst &in, Walker &, Rng &) { std::vector<double> out; return in.adjDer({4}, {1}, {1.0}, out); }, true});
    ops.push_back({"GetOutputDerivatives", [](const Kind_ &k, int &a, int &r) {
        a = r = 0;
        if (is(k, "BouncingBall") && k.o.type == CSIM) { a = mStep | mTerm; r = mInst | mInit | mEvent; } },
        [](Inst &in, Walker &, Rng &) {
            Buf<uint32_t> vr(1); Buf<int32_t> ord(1); Buf<double> out(1);
            vr[0] = 1; ord[0] = 1;
            InCall ic("GetOutputDerivatives");
            St s = (St)(V == 2 ? (int)in.l->a2.GetRealOutputDerivatives(in.c, vr.p, 1, ord.p, out.p) : (int)in.l->a3.GetOutputDerivatives(in.c, vr.p, 1, ord.p, out.p, 1));
            trace("%s GetOutputDerivatives -> %s", in.label.c_str(), stName(s));
            return s; }, true});
    ops.push_back({"DoStep", [](const Kind_ &k, int &a, int &r) {
        a = k.o.type == CSIM ? mStep : 0;
        r = ALL & ~a; },
        [](Inst &in, Walker &w, Rng &r) {
            if (w.mode == mStep && w.type == CSIM) return w.opStep(in, r);
            StepResult q;
            return in.doStep(w.cp, in.l->m->step, &q); }});
    if (V == 2) {
        forME("NewDiscreteStates", mEvent, ALL & ~mEvent, ALL, [](Inst &in, Walker &w, Rng &) { EventInfo e; St s = in.update(&e); if (s == sOK && e.terminate) w.ended = true; return s; });
        simple("SetupExperiment", mInst, ALL & ~mInst, [](Inst &in, Walker &, Rng &) { return in.setupExperiment(0, false, 0); });
        simple("CancelStep", 0, ALL, [](Inst &in, Walker &, Rng &) {
            InCall ic("CancelStep");
            St s = (St)in.l->a2.CancelStep(in.c);
            trace("%s CancelStep -> %s", in.label.c_str(), stName(s));
            return s; });
        ops.push_back({"GetRealStatus", [](const Kind_ &k, int &a, int &r) { a = r = 0; if (k.o.type == CSIM) { a = mStep; r = mInst | mInit; } },
            [](Inst &in, Walker &, Rng &) {
                double d;
                InCall ic("GetRealStatus");
                St s = (St)in.l->a2.GetRealStatus(in.c, fmi2LastSuccessfulTime, &d);
                trace("%s GetRealStatus(LastSuccessfulTime) -> %s", in.label.c_str(), stName(s));
                return s; }, true});
        ops.push_back({"GetBooleanStatus", [](const Kind_ &k, int &a, int &r) { a = r = 0; if (k.o.type == CSIM) { a = mStep; r = mInst | mInit; } },
            [](Inst &in, Walker &, Rng &) {
                fmi2Boolean d;
                InCall ic("GetBooleanStatus");
                St s = (St)in.l->a2.GetBooleanStatus(in.c, fmi2Terminated, &d);
                trace("%s GetBooleanStatus(Terminated) -> %s", in.label.c_str(), stName(s));
                return s; }, true});
    } else {
        simple("UpdateDiscreteStates", mEvent, 0, [](Inst &in, Walker &w, Rng &) {
            EventInfo e;
            St s = in.update(&e);
            w.eventPending = false;
            if (s == sOK && e.terminate) w.ended = true;
            return s; });
        ops.push_back({"EnterStepMode", [](const Kind_ &k, int &a, int &r) {
            a = k.o.type == CSIM && k.o.eventMode ? mEvent : 0;
            r = ALL & ~(mEvent | mInit); },
            [](Inst &in, Walker &w, Rng &) { St s = in.enterStep(); if (s == sOK) w.mode = mStep; return s; }});
        ops.push_back({"EnterConfigurationMode", [](const Kind_ &k, int &a, int &r) {
            a = mInst | (k.o.type == ME ? mEvent : k.o.type == SE ? mClock : mStep);
            r = mInit | mCT | mConfig | mReconf | mTerm; },
            [](Inst &in, Walker &w, Rng &) { St s = in.enterConfig(); if (s == sOK) w.mode = w.mode == mInst ? mConfig : mReconf; return s; }});
        simple("ExitConfigurationMode", mConfig | mReconf, ALL & ~(mConfig | mReconf), [](Inst &in, Walker &w, Rng &) {
            St s = in.exitConfig();
            if (s == sOK) w.mode = w.mode == mConfig ? mInst : w.type == ME ? mEvent : w.type == SE ? mClock : mStep;
            return s; });
        simple("GetNumberOfContinuousStates", mInst | mInit | mEvent | mCT, 0, [](Inst &in, Walker &, Rng &) { return in.nx() == 999 ? sError : sOK; }, true);
        ops.push_back({"ActivateModelPartition", [](const Kind_ &k, int &a, int &r) {
            a = k.o.type == SE ? mClock : 0;
            r = ALL & ~a; },
            [](Inst &in, Walker &w, Rng &r) { return in.activate(r.chance(0.5) ? 1001 : 1002, w.time); }});
    }
}

void driverInit() {
    V = opt.property == "C02" ? 2 : 3;
    for (Lib *l : allLibs(V))
        for (auto &o : supported(l)) kinds.push_back({l, o});
    buildOps();
}

// An expected outcome was checked; illegal calls must be refused without any effect.
static void doOp(const Kind_ &k, Inst &in, Walker &w, const Op &op, bool legal, Rng &r) {
    (void)k;
    Mode before = w.mode;
    Snap a, b;
    bool canRead = w.readable();
    if (!legal || op.changesNothing)
        if (canRead && !snapshot(in, a)) fail("read", "variables cannot be read in %s", modeName(before));
    size_t logs = in.errorLogs();
    St s = op.call(in, w, r);
    count("evaluations");
    if (legal) {
        if (s != sOK && !(V == 2 && s == sDiscard && w.ended))
            fail("rejected", "%s is permitted in %s but returned %s%s%s", op.name, modeName(before), stName(s),
                 in.logs.empty() ? "" : ", log: ", in.logs.empty() ? "" : in.logs.back().message.c_str());
        if (op.changesNothing && canRead) {
            if (!snapshot(in, b)) fail("read", "variables cannot be read after %s in %s", op.name, modeName(before));
            if (a != b) fail("changed", "%s in %s changed %s", op.name, modeName(before), snapDiff(*in.l->m, V, a, b).c_str());
        }
        count("accepted");
        return;
    }
    w.mode = mTerm;
    count("refused");
    if (s != sError) fail("accepted", "%s is forbidden in %s but returned %s", op.name, modeName(before), stName(s));
    if (in.errorLogs() == logs) fail("nolog", "%s was refused in %s without a message", op.name, modeName(before));
    if (!snapshot(in, b)) fail("read", "variables cannot be read after %s was refused in %s", op.name, modeName(before));
    if (canRead && a != b) fail("effect", "%s was refused in %s but changed %s", op.name, modeName(before), snapDiff(*in.l->m, V, a, b).c_str());
}

static int verdict(const Kind_ &k, const Op &op, Mode m) {
    int a, r;
    op.when(k, a, r);
    return (a & m) ? 1 : (r & m) ? 0 : -1;
}

static void begin(const Kind_ &k, Inst &in, Walker &w) {
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    w.init(k.l, k.o);
    w.records = false;
    w.stairMax = 2;
}

// everything reachable by: straight way to a mode, one call, one more call
static void pairs(const Kind_ &k, Rng &r) {
    for (Mode m : reachable(k)) {
        for (auto &o1 : ops) {
            int v1 = verdict(k, o1, m);
            if (v1 < 0) continue;
            for (size_t j = 0; j < ops.size(); j++) {
                traceClear();
                Inst in;
                in.label = "a";
                Walker w;
                begin(k, in, w);
                St s = w.bring(in, m, r);
                if (s != sOK) fail("rejected", "cannot reach %s: %s", modeName(m), stName(s));
                doOp(k, in, w, o1, v1, r);
                int v2 = verdict(k, ops[j], w.mode);
                if (v2 < 0) continue;
                Mode m2 = w.mode;
                doOp(k, in, w, ops[j], v2, r);
                feature("%s%d %d%d%d %d %s %d %s", k.l->m->name, V, k.o.type, k.o.eventMode, k.o.early, m, o1.name, m2, ops[j].name);
                // works again after a reset
                if (!v2 || j % 4 == 0) {
                    St q = in.reset();
                    expect(q, sOK, "reset", "Reset");
                    w.mode = mInst;
                    w.dims[0] = w.dims[1] = w.dims[2] = 3;
                    w.cp = w.time = 0;
                    q = w.bring(in, j % 3 == 0 ? mTerm : mInit, r);
                    if (q != sOK) fail("afterReset", "after %s, %s and a reset the instance does not work: %s", o1.name, ops[j].name, stName(q));
                }
            }
        }
    }
}

static void walk(const Kind_ &k, Rng &r) {
    Inst in;
    in.label = "a";
    Walker w;
    begin(k, in, w);
    size_t n = 30 + r.below(50);
    std::string path;
    int clock3 = 0;
    (void)clock3;
    for (size_t i = 0; i < n; i++) {
        if (w.ended || w.time > 6) {
            expect(in.reset(), sOK, "reset", "Reset");
            w.mode = mInst; w.ended = w.eventPending = false; w.time = w.cp = 0; w.dims[0] = w.dims[1] = w.dims[2] = 3;
        }
        bool wantIllegal = r.chance(w.mode == mTerm ? 0.3 : 0.08);
        const Op *op = nullptr;
        for (int tries = 0; tries < 200 && !op; tries++) {
            const Op &c = ops[r.below(ops.size())];
            if (verdict(k, c, w.mode) != (wantIllegal ? 0 : 1)) continue;
            if (!strcmp(c.name, "Reset") && w.mode != mTerm && !r.chance(0.15)) continue;
            if (!strcmp(c.name, "Terminate") && !wantIllegal && !r.chance(0.15)) continue;
            op = &c;
        }
        if (!op) continue;
        Mode before = w.mode;
        doOp(k, in, w, *op, !wantIllegal, r);
        path += op->name[0];
        feature("%s%d %d %d %s %d %s", k.l->m->name, V, k.o.type, before, op->name, wantIllegal, path.size() > 3 ? path.substr(path.size() - 3).c_str() : "");
    }
    sample("walk on %s FMI%d %s eventMode=%d: %zu calls %s, final mode %s", k.l->m->name, V, ifName(k.o.type), k.o.eventMode, n, path.c_str(), modeName(w.mode));
}

// The step in which Stair ends the simulation is discarded, which leaves the instance usable for questions and Terminate.
static void discarded(const Kind_ &k, Rng &r) {
    Inst in;
    in.label = "a";
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    Walker w;
    w.init(k.l, k.o);
    w.records = false;
    int from = (int)r.irange(5, 9);
    expect(in.setI32(1, from), sOK, "set", "counter");
    expect(in.enterInit(0, false, 0), sOK, "rejected", "EnterInitializationMode");
    expect(in.exitInit(), sOK, "rejected", "ExitInitializationMode");
    St s = sOK;
    double t = 0, h = r.chance(0.5) ? 0.2 * (double)r.irange(1, 8) : 20;
    for (int i = 0; i < 100 && s == sOK; i++) { StepResult q; s = in.doStep(t, h, &q); t += h; }
    if (s != sDiscard) fail("discard", "the step that ends the simulation returned %s", stName(s));
    for (size_t n = r.below(6); n; n--) {
        double d = 0;
        fmi2Boolean b = 0;
        int c = 0;
        switch (r.below(4)) {
        case 0: { InCall ic("GetRealStatus"); s = (St)in.l->a2.GetRealStatus(in.c, fmi2LastSuccessfulTime, &d); } break;
        case 1: { InCall ic("GetBooleanStatus"); s = (St)in.l->a2.GetBooleanStatus(in.c, fmi2Terminated, &b); } if (!b) fail("discard", "fmi2Terminated is false after the discarded step"); break;
        case 2: s = in.getI32(1, &c); break;
        default: { void *p = nullptr; s = in.getState(&p); if (p) in.freeState(&p); }
        }
        if (s != sOK) fail("rejected", "a question after the discarded step returned %s", stName(s));
        count("evaluations");
    }
    s = r.chance(0.7) ? in.terminate() : sOK;
    if (s != sOK) fail("rejected", "Terminate after the discarded step returned %s", stName(s));
    expect(in.reset(), sOK, "reset", "Reset");
    s = w.bring(in, mTerm, r);
    if (s != sOK) fail("afterReset", "after the discarded step and a reset the instance does not work: %s", stName(s));
    count("discarded steps");
}

static const size_t WALKS = 150;
size_t driverCases() { return kinds.size() * (1 + opt.scale(WALKS, WALKS * 20)); }
void driverCase(size_t i, Rng &rng) {
    const Kind_ &k = kinds[i % kinds.size()];
    if (i < kinds.size()) pairs(k, rng);
    else if (V == 2 && k.o.type == CSIM && is(k, "Stair") && rng.chance(0.3)) discarded(k, rng);
    else walk(k, rng);
}

#include "walker.hpp"

const char *modeName(int m) {
    switch (m) {
    case mInst: return "Instantiated";
    case mInit: return "InitializationMode";
    case mConfig: return "ConfigurationMode";
    case mReconf: return "ReconfigurationMode";
    case mEvent: return "EventMode";
    case mCT: return "ContinuousTimeMode";
    case mStep: return "StepMode";
    case mClock: return "ClockActivationMode";
    case mTerm: return "Terminated";
    }
    return "?";
}

static bool is(const ModelInfo &m, const char *n) { return !strcmp(m.name, n); }

Tri settable(int ver, IfType type, Mode mode, const ModelInfo &m, const Var &v) {
    if (v.kind == ClockVar) return DONTCARE;
    if (mode == mTerm) return ver == 2 ? NO : DONTCARE;
    bool early = mode == mInst || mode == mInit;
    if (is(m, "Stair") && v.vr == 1) return early ? YES : (mode == mConfig || mode == mReconf) ? DONTCARE : NO;
    if (is(m, "Roberts") && v.vr == 1) return (mode == mConfig || mode == mReconf) ? YES : DONTCARE;
    if (is(m, "Roberts") && v.vr == 6) return DONTCARE;
    switch (v.kind) {
    case Independent: case Constant: case DerVar: case Output: case Local: return NO;
    case StructPar: return (mode == mConfig || mode == mReconf) ? YES : NO;
    default: break;
    }
    if (mode == mConfig || mode == mReconf) return DONTCARE;
    switch (v.kind) {
    case FixedPar: return early ? YES : type == ME ? NO : DONTCARE;
    case TunablePar:
        if (mode == mCT) return is(m, "StateSpace") ? DONTCARE : NO;
        if (mode == mEvent && type != ME) return DONTCARE;
        return YES;
    case Input:
        if (mode == mCT && v.discrete) return NO;
        return YES;
    case StateVar:
        if (is(m, "StateSpace")) return mode == mCT || mode == mEvent ? YES : NO;
        if (mode == mEvent && type != ME) return DONTCARE;
        if (mode == mStep) return is(m, "BouncingBall") ? NO : DONTCARE;
        return YES;
    default: return DONTCARE;
    }
}

size_t elements(const ModelInfo &m, const Var &v, const uint64_t d[3]) {
    if (!is(m, "StateSpace")) return 1;
    switch (v.vr) {
    case 4: return d[1] * d[1];
    case 5: return d[1] * d[0];
    case 6: return d[2] * d[1];
    case 7: return d[2] * d[0];
    case 8: case 11: case 12: return d[1];
    case 9: return d[0];
    case 10: return d[2];
    }
    return 1;
}

St readVar(Inst &in, const Var &v, size_t n, std::string *out) {
    uint32_t vr = v.vr;
    St s;
    if (v.ty == STR) {
        Buf<const char *> b(n);
        s = in.get(STR, &vr, 1, b.p, n);
        if (s == sOK && n) *out = b[0] ? std::string(b[0]) : std::string("(null)");
    } else if (v.ty == BIN) {
        Buf<const unsigned char *> b(n);
        Buf<size_t> sz(n);
        s = in.get(BIN, &vr, 1, b.p, n, sz.p);
        if (s == sOK && n) *out = std::string((const char *)b[0], sz[0]);
    } else {
        Buf<char> b(n * tySize(v.ty));
        s = in.get(v.ty, &vr, 1, b.p, n);
        if (s == sOK) *out = std::string(b.p, n * tySize(v.ty));
    }
    return s;
}

bool snapshot(Inst &in, Snap &sn) {
    const ModelInfo &m = *in.l->m;
    uint64_t d[3] = {3, 3, 3};
    bool q = in.quiet;
    in.quiet = true;
    bool ok = true;
    if (is(m, "StateSpace"))
        for (int i = 0; i < 3; i++)
            if (in.getU64((uint32_t)i + 1, &d[i]) != sOK || d[i] > 5) ok = false;
    for (auto &v : m.vars(in.l->ver)) {
        if (!ok) break;
        if (v.kind == ClockVar) continue;      // reading a clock has side effects
        std::string b;
        St s = readVar(in, v, elements(m, v, d), &b);
        if (s != sOK) { in.quiet = q; trace("reading %s in snapshot -> %s", v.name, stName(s)); ok = false; break; }
        sn[v.vr] = b;
    }
    in.quiet = q;
    return ok;
}

std::string bytesText(Ty t, const std::string &b) {
    std::string o;
    char c[64];
    size_t k = tySize(t);
    if (t == STR || t == BIN) {
        for (unsigned char x : b) {
            if (x >= 32 && x < 127) o += (char)x;
            else { snprintf(c, sizeof c, "\\x%02x", x); o += c; }
        }
        return "\"" + o + "\"";
    }
    for (size_t i = 0; i + k <= b.size(); i += k) {
        if (i) o += ' ';
        const char *p = b.data() + i;
        switch (t) {
        case F32: { float f; memcpy(&f, p, 4); snprintf(c, sizeof c, "%.9g", f); if (f != f) { uint32_t u; memcpy(&u, p, 4); snprintf(c, sizeof c, "nan:%08x", u); } break; }
        case F64: { double f; memcpy(&f, p, 8); snprintf(c, sizeof c, "%.17g", f); if (f != f) { uint64_t u; memcpy(&u, p, 8); snprintf(c, sizeof c, "nan:%016llx", (unsigned long long)u); } break; }
        case I8: snprintf(c, sizeof c, "%d", (int)*(const int8_t *)p); break;
        case U8: case BOOL: case CLK: snprintf(c, sizeof c, "%d", (int)*(const uint8_t *)p); break;
        case I16: { int16_t x; memcpy(&x, p, 2); snprintf(c, sizeof c, "%d", x); break; }
        case U16: { uint16_t x; memcpy(&x, p, 2); snprintf(c, sizeof c, "%u", x); break; }
        case I32: { int32_t x; memcpy(&x, p, 4); snprintf(c, sizeof c, "%d", x); break; }
        case U32: { uint32_t x; memcpy(&x, p, 4); snprintf(c, sizeof c, "%u", x); break; }
        case I64: { int64_t x; memcpy(&x, p, 8); snprintf(c, sizeof c, "%lld", (long long)x); break; }
        default: { uint64_t x; memcpy(&x, p, 8); snprintf(c, sizeof c, "%llu", (unsigned long long)x); break; }
        }
        o += c;
    }
    return o;
}

std::string snapDiff(const ModelInfo &m, int ver, const Snap &a, const Snap &b) {
    std::string o;
    for (auto &v : m.vars(ver)) {
        auto x = a.find(v.vr), y = b.find(v.vr);
        if (x == a.end() && y == b.end()) continue;
        if (x == a.end() || y == b.end()) { o += std::string(v.name) + " only in one; "; continue; }
        if (x->second != y->second) o += std::string(v.name) + ": " + bytesText(v.ty, x->second) + " became " + bytesText(v.ty, y->second) + "; ";
    }
    return o;
}

std::vector<InstOpt> supported(Lib *l) {
    std::vector<InstOpt> r;
    InstOpt o;
    const ModelInfo &m = *l->m;
    if (m.me) { o.type = ME; r.push_back(o); }
    if (m.cs) {
        o.type = CSIM;
        r.push_back(o);
        if (l->ver == 3) {
            o.early = true;
            r.push_back(o);
            if (m.eventMode) {
                o.eventMode = true;
                r.push_back(o);
                o.early = false;
                r.push_back(o);
            }
        }
    }
    if (m.se && l->ver == 3) { InstOpt s; s.type = SE; r.push_back(s); }
    return r;
}

double niceValue(Rng &r) {
    switch (r.below(4)) {
    case 0: return (double)r.irange(-3, 3);
    case 1: return r.range(-2, 2);
    case 2: return r.range(0.1, 3);
    default: return (double)r.irange(-1000, 1000) / 64;
    }
}

void Walker::note(const char *fmt, ...) {
    if (!records) return;
    char b[2048];
    va_list a;
    va_start(a, fmt);
    vsnprintf(b, sizeof b, fmt, a);
    va_end(a);
    log += b;
    log += '\n';
}

St Walker::done(const char *op, St s) {
    lastOp = op;
    note("%s -> %s", op, stName(s));
    if (s == sError) mode = mTerm;
    return s;
}

St Walker::opSnapshot(Inst &in) {
    Snap s;
    bool ok = snapshot(in, s);
    for (auto &v : l->m->vars(l->ver)) {
        auto it = s.find(v.vr);
        if (it != s.end()) note("  %s = %s", v.name, bytesText(v.ty, it->second).c_str());
    }
    return done("read all", ok ? sOK : sError);
}

St Walker::opSet(Inst &in, Rng &r) {
    const ModelInfo &m = *l->m;
    std::vector<const Var *> c;
    for (auto &v : m.vars(l->ver))
        if (settable(l->ver, type, mode, m, v) == YES) c.push_back(&v);
    if (c.empty()) return sOK;
    const Var &v = *c[r.below(c.size())];
    size_t n = elements(m, v, dims);
    uint32_t vr = v.vr;
    St s = sOK;
    switch (v.ty) {
    case F64: {
        Buf<double> b(n);
        for (size_t i = 0; i < n; i++) b[i] = niceValue(r);
        if (is(m, "BouncingBall") && v.vr == 6) b[0] = r.range(0.2, 0.95);
        if (is(m, "BouncingBall") && v.vr == 5) b[0] = r.range(-20, -1);
        if (is(m, "BouncingBall") && v.vr == 1) b[0] = r.range(0.01, 3);
        s = in.set(F64, &vr, 1, b.p, n);
        break;
    }
    case F32: { Buf<float> b(n); for (size_t i = 0; i < n; i++) b[i] = (float)niceValue(r); s = in.set(F32, &vr, 1, b.p, n); break; }
    case STR: {
        std::string t;
        for (size_t k = r.below(40); k; k--) t += (char)r.irange(33, 126);
        Buf<char> c1(t.size() + 1);
        memcpy(c1.p, t.c_str(), t.size() + 1);
        Buf<const char *> b(1);
        b[0] = c1.p;
        s = in.set(STR, &vr, 1, b.p, 1);
        break;
    }
    case BIN: {
        Buf<unsigned char> c1(r.below(60));
        for (size_t k = 0; k < c1.n; k++) c1[k] = (unsigned char)r.u64();
        Buf<const unsigned char *> b(1);
        Buf<size_t> sz(1);
        b[0] = c1.p;
        sz[0] = c1.n;
        s = in.set(BIN, &vr, 1, b.p, 1, sz.p);
        break;
    }
    case BOOL: {
        Buf<bool> b(1);
        b[0] = r.chance(0.5);
        s = in.set(BOOL, &vr, 1, b.p, 1);
        if (is(m, "Roberts") && s == sOK) dae = b[0];
        break;
    }
    case U64: {
        Buf<uint64_t> b(1);
        b[0] = v.kind == StructPar ? r.below(6) : r.u64();
        s = in.set(U64, &vr, 1, b.p, 1);
        if (v.kind == StructPar && s == sOK) dims[v.vr - 1] = b[0];
        break;
    }
    case I32: {
        Buf<int32_t> b(1);
        b[0] = (int32_t)r.u64();
        if (is(m, "Stair")) b[0] = (int32_t)r.irange(0, stairMax);
        if (is(m, "Clocks")) b[0] = (int32_t)r.irange(-1000, 1000);
        if (is(m, "Feedthrough") && v.vr == 33) b[0] = (int32_t)r.irange(1, 2);
        s = in.set(I32, &vr, 1, b.p, 1);
        break;
    }
    case I64: {
        Buf<int64_t> b(1);
        b[0] = (int64_t)r.u64();
        if (is(m, "Feedthrough") && v.vr == 33) b[0] = r.irange(1, 2);
        s = in.set(I64, &vr, 1, b.p, 1);
        break;
    }
    default: {
        Buf<char> b(n * tySize(v.ty));
        for (size_t i = 0; i < b.n; i++) b[i] = (char)r.u64();
        s = in.set(v.ty, &vr, 1, b.p, n);
    }
    }
    note("set %s", v.name);
    return done("set", s);
}

St Walker::opStep(Inst &in, Rng &r) {
    const ModelInfo &m = *l->m;
    double h = m.step * (double)r.irange(1, is(m, "BouncingBall") ? 300 : is(m, "StateSpace") ? 30 : 8);
    if (r.chance(0.25)) h += m.step * r.unit();
    if (is(m, "Roberts")) h = 1e-5 * (double)r.irange(3, 20);
    StepResult q;
    St s = in.doStep(cp, h, &q);
    note("step %.17g + %.17g event=%d term=%d early=%d last=%.17g", cp, h, q.eventNeeded, q.terminate, q.early, q.last);
    if (s == sOK || s == sDiscard) {
        time = q.last;
        if (l->ver == 3) cp = (q.early || q.terminate) ? q.last : cp + h;
        else if (s == sOK) cp = cp + h;
        if (q.terminate) ended = true;
        eventPending = q.eventNeeded;
    }
    return done("DoStep", s);
}

St Walker::step(Inst &in, Rng &r) {
    const ModelInfo &m = *l->m;
    const bool v3 = l->ver == 3;
    const bool structural = v3 && (is(m, "StateSpace") || is(m, "Roberts"));
    size_t k = r.below(100);
    St s;
    if (allowDebug && r.chance(0.03)) {
        return done("SetDebugLogging", in.debugLogging(r.chance(0.5), {"logEvents"}));
    }
    if (readable() && k < 15) return opSnapshot(in);
    switch (mode) {
    case mInst:
        if (k < 45) return opSet(in, r);
        if (structural && k < 60) { s = in.enterConfig(); if (s == sOK) mode = mConfig; return done("EnterConfigurationMode", s); }
        start = r.chance(0.7) ? 0.0 : r.chance(0.5) ? 0.25 : -0.5;
        if (is(m, "Stair")) start = 0;
        if (bare) {
            start = 0;
            s = in.enterInitOnly();
        } else {
            bool sd = r.chance(0.5);
            s = in.enterInit(start, sd, start + 1000);
        }
        if (s == sOK) { mode = mInit; time = cp = start; ended = false; eventPending = false; ei = EventInfo(); }
        return done("EnterInitializationMode", s);
    case mConfig: case mReconf:
        if (k < 70) return opSet(in, r);
        s = in.exitConfig();
        if (s == sOK) mode = mode == mConfig ? mInst : type == ME ? mEvent : type == CSIM ? mStep : mClock;
        return done("ExitConfigurationMode", s);
    case mInit:
        if (k < 50) return opSet(in, r);
        s = in.exitInit();
        if (s == sOK) mode = type == ME ? mEvent : type == SE ? mClock : eventMode ? mEvent : mStep;
        return done("ExitInitializationMode", s);
    case mEvent:
        if (ended && k < 60 && allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
        if (type == ME) {
            if (k < 40) {
                s = in.update(&ei);
                note("event info need=%d term=%d nom=%d val=%d next=%d %.17g", ei.needUpdate, ei.terminate, ei.nominals, ei.values, ei.nextDefined, ei.next);
                if (s == sOK && ei.terminate) ended = true;
                return done("UpdateDiscreteStates", s);
            }
            if (k < 55) return opSet(in, r);
            if (k < 60) {
                std::vector<double> x((size_t)in.nx());
                s = in.getStates(x);
                for (double d : x) note("  %.17g", d);
                return done("GetContinuousStates", s);
            }
            if (structural && k < 66) { s = in.enterConfig(); if (s == sOK) mode = mReconf; return done("EnterConfigurationMode", s); }
            if (k < 68 && allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
            s = in.enterCT();
            if (s == sOK) mode = mCT;
            return done("EnterContinuousTimeMode", s);
        }
        if (k < 60) {
            s = in.update(&ei);
            note("event info need=%d term=%d nom=%d val=%d next=%d %.17g", ei.needUpdate, ei.terminate, ei.nominals, ei.values, ei.nextDefined, ei.next);
            if (s == sOK && ei.terminate) ended = true;
            eventPending = false;
            return done("UpdateDiscreteStates", s);
        }
        if (k < 65 && allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
        if (k < 75) return opSet(in, r);
        s = in.enterStep();
        if (s == sOK) mode = mStep;
        return done("EnterStepMode", s);
    case mCT: {
        size_t nx = v3 ? in.nx() : (size_t)m.nx, nz = v3 ? in.nz() : (size_t)m.nz;
        if (nx > 5 || nz > 5) { note("impossible counts %zu %zu", nx, nz); return done("counts", sError); }
        if (k < 30) {
            // one integration step of the importer
            std::vector<double> x(nx), dx(nx), z(nz);
            s = in.getStates(x);
            if (s == sOK) s = in.getDer(dx);
            for (double d : dx) note("  dx %.17g", d);
            double h = m.step;
            if (s == sOK) s = in.setTime(time + h);
            if (s == sOK) { time += h; for (size_t i = 0; i < nx; i++) x[i] += h * dx[i]; s = in.setStates(x); }
            if (s == sOK) s = in.getInd(z);
            for (double d : z) note("  z %.17g", d);
            bool ee = true, te = true;
            if (s == sOK) { s = in.completed(&ee, &te); note("completed %d %d", ee, te); }
            return done("integrate", s);
        }
        if (k < 40) {
            std::vector<double> x(nx);
            for (auto &d : x) d = niceValue(r);
            return done("SetContinuousStates", in.setStates(x));
        }
        if (k < 50) {
            std::vector<double> a(nx), b(nx), c(nx), z(nz);
            s = in.getDer(a);
            if (s == sOK) s = in.getStates(b);
            if (s == sOK) s = in.getNominals(c);
            if (s == sOK) s = in.getInd(z);
            for (size_t i = 0; i < nx; i++) note("  %.17g %.17g %.17g", a[i], b[i], c[i]);
            for (double d : z) note("  z %.17g", d);
            return done("evaluate", s);
        }
        if (k < 60) return opSet(in, r);
        if (k < 63 && allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
        if (k < 80) {
            if (ei.nextDefined && ei.next > time && r.chance(0.7)) time = ei.next; else time += m.step * (double)r.irange(0, 3);
            return done("SetTime", in.setTime(time));
        }
        s = in.enterEvent();
        if (s == sOK) mode = mEvent;
        return done("EnterEventMode", s);
    }
    case mStep:
        if (ended) {
            if (allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
            return opSnapshot(in);
        }
        if (eventMode && eventPending && k < 90) {
            s = in.enterEvent();
            if (s == sOK) mode = mEvent;
            return done("EnterEventMode", s);
        }
        if (k < 60) return opStep(in, r);
        if (k < 75) return opSet(in, r);
        if (k < 79 && eventMode) { s = in.enterEvent(); if (s == sOK) mode = mEvent; return done("EnterEventMode", s); }
        if (k < 84 && structural) { s = in.enterConfig(); if (s == sOK) mode = mReconf; return done("EnterConfigurationMode", s); }
        if (k < 86 && allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
        return opStep(in, r);
    case mClock:
        if (k < 40) { time += (double)r.irange(0, 1); return done("activate 1", in.activate(1001, time)); }
        if (k < 60) return done("activate 2", in.activate(1002, time));
        if (k < 64 && allowP3 && p3left > 0) { p3left--; return done("activate 3", in.activate(1003, time)); }
        if (k < 74) return opSet(in, r);
        if (k < 86) {
            Buf<bool> b(1);
            uint32_t vr = 1005;
            s = in.get(CLK, &vr, 1, b.p, 1);
            note("outClock %d", b[0]);
            return done("GetClock", s);
        }
        if (k < 97) {
            fmi3ValueReference vr = 1003;
            double iv = -1;
            fmi3IntervalQualifier q = fmi3IntervalNotYetKnown;
            s = (St)in.l->a3.GetIntervalDecimal(in.c, &vr, 1, &iv, &q);
            note("interval %.17g %d", iv, (int)q);
            return done("GetIntervalDecimal", s);
        }
        if (allowTerminate) { s = in.terminate(); if (s == sOK) mode = mTerm; return done("Terminate", s); }
        return opSnapshot(in);
    case mTerm:
        if (!allowReset) return opSnapshot(in);
        s = in.reset();
        if (s == sOK) { mode = mInst; dims[0] = dims[1] = dims[2] = 3; dae = false; ended = eventPending = false; ei = EventInfo(); }
        return done("Reset", s);
    }
    return sOK;
}

St Walker::bring(Inst &in, Mode target, Rng &r) {
    (void)r;
    St s = sOK;
    if (target == mInst) return s;
    if (target == mConfig) { s = in.enterConfig(); mode = s == sOK ? mConfig : mTerm; return s; }
    s = in.enterInit(0, false, 0);
    if (s != sOK) return s;
    time = cp = start = 0;
    mode = mInit;
    if (target == mInit) return s;
    s = in.exitInit();
    if (s != sOK) return s;
    mode = type == ME ? mEvent : type == SE ? mClock : eventMode ? mEvent : mStep;
    if (target == mode) return s;
    if (target == mTerm) { s = in.terminate(); if (s == sOK) mode = mTerm; return s; }
    if (target == mReconf) {
        if (type == CSIM && mode == mEvent) { s = in.enterStep(); if (s != sOK) return s; }
        s = in.enterConfig();
        if (s == sOK) mode = mReconf;
        return s;
    }
    if (target == mCT && type == ME) { s = in.enterCT(); if (s == sOK) mode = mCT; return s; }
    if (target == mStep && type == CSIM) { s = in.enterStep(); if (s == sOK) mode = mStep; return s; }
    return sError;
}

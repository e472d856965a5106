// C13 Model Exchange evaluations, C18 derivatives, C19 StateSpace.
#include "walker.hpp"
#include "ref.hpp"

static int P;
struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;
static bool is(const ModelInfo &m, const char *n) { return !strcmp(m.name, n); }

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    if (P == 19) {
        for (auto &o : supported(lib("StateSpace", 3))) if (!o.early) kinds.push_back({lib("StateSpace", 3), o});
        return;
    }
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) {
            if (o.type == SE || o.early) continue;
            if (P == 13 && o.type != ME) continue;
            kinds.push_back({l, o});
        }
}

static bool setRef(Ref &f, uint32_t vr, const std::vector<double> &w, Mode mode) {
    const ModelInfo &m = *f.m;
    double *p = nullptr;
    if (is(m, "BouncingBall")) p = vr == 1 ? &f.h : vr == 3 ? &f.v : vr == 5 ? &f.g : vr == 6 ? &f.e : nullptr;
    if (is(m, "Dahlquist")) p = vr == 1 ? &f.x : vr == 3 ? &f.k : nullptr;
    if (is(m, "VanDerPol")) p = vr == 1 ? &f.x0 : vr == 3 ? &f.x1 : vr == 5 ? &f.mu : nullptr;
    if (is(m, "Roberts")) p = vr == 2 ? &f.y1 : vr == 4 ? &f.y2 : vr == 6 ? &f.y3 : nullptr;
    if (is(m, "StateSpace")) {
        double *q[] = {nullptr, nullptr, nullptr, nullptr, f.A, f.B, f.C, f.D, f.X0, f.U, nullptr, f.X};
        p = vr < 12 ? q[vr] : nullptr;
        if (p && vr == 8 && (mode == mInst || mode == mInit)) for (size_t i = 0; i < w.size(); i++) f.X[i] = w[i];
    }
    if (!p) return false;
    for (size_t i = 0; i < w.size(); i++) p[i] = w[i];
    return true;
}

// magnitude of the terms in the equations, for rounding errors
static double scaleOf(const Ref &f) {
    const ModelInfo &m = *f.m;
    if (is(m, "VanDerPol")) return 1 + fabs(f.mu) * (1 + f.x0 * f.x0) * fabs(f.x1) + fabs(f.x0);
    if (is(m, "Roberts")) { double z = f.dae ? f.y3 : 1 - f.y1 - f.y2; return 1 + fabs(f.y1) + fabs(f.y2) + fabs(z) + 1e4 * fabs(f.y2 * z) + 3e7 * f.y2 * f.y2; }
    if (is(m, "StateSpace")) {
        double a = 0, b = 0;
        for (int i = 0; i < 25; i++) a = std::max({a, fabs(f.A[i]), fabs(f.B[i]), fabs(f.C[i]), fabs(f.D[i])});
        for (int i = 0; i < 5; i++) b = std::max({b, fabs(f.X[i]), fabs(f.U[i])});
        return 1 + 10 * a * b;
    }
    if (is(m, "Dahlquist")) return 1 + fabs(f.k * f.x);
    return 1;
}
static bool close(double got, double want, double scale) { return got == want || fabs(got - want) <= 1e-11 * scale; }

static double valueFor(const ModelInfo &m, uint32_t vr, Rng &r) {
    if (is(m, "Roberts")) return r.chance(0.5) ? r.range(0, 1) : r.range(-1e-4, 1e-3);
    if (is(m, "BouncingBall") && vr == 1 && r.chance(0.4)) { const double e[] = {0, -0.0, 1e-11, -1e-11, -1e-10, -1e-9, 1e-300, -0.5}; return e[r.below(8)]; }
    if (r.chance(0.05)) return 0;
    return r.chance(0.1) ? r.range(-1e4, 1e4) : niceValue(r);
}

// one random legal change of a variable; false if there is none
static bool change(Inst &in, Walker &w, Ref &f, Rng &r) {
    const ModelInfo &m = *in.l->m;
    std::vector<const Var *> c;
    for (auto &v : m.vars(in.l->ver)) if (v.ty == F64 && settable(in.l->ver, w.type, w.mode, m, v) == YES) c.push_back(&v);
    if (c.empty() || is(m, "Feedthrough")) return false;
    const Var &v = *c[r.below(c.size())];
    std::vector<double> q(elements(m, v, w.dims));
    for (auto &x : q) x = valueFor(m, v.vr, r);
    if (!setRef(f, v.vr, q, w.mode)) return false;
    St s = in.setF64v(v.vr, q);
    if (s != sOK) fail("set", "setting %s in %s returned %s", v.name, modeName(w.mode), stName(s));
    return true;
}

// -------------------------------------------------------------------- C13 --
struct Evaluator {
    Inst &in;
    Walker &w;
    Ref &f;
    double t = 0;
    std::map<int, std::vector<double>> seen;      // answers at this point
    void moved() { seen.clear(); }
    void repeat(int key, const std::vector<double> &v, const char *what) {
        auto it = seen.find(key);
        if (it == seen.end()) { seen[key] = v; return; }
        for (size_t i = 0; i < v.size(); i++)
            if (!sameBits(v[i], it->second[i])) fail("repeat", "%s FMI%d: %s[%zu] was %.17g and is %.17g at the same point", f.m->name, in.l->ver, what, i, it->second[i], v[i]);
    }
    void check(int key, const std::vector<double> &got, const std::vector<double> &want, const char *what, bool exact = false) {
        count("evaluations");
        feature("%s%d %d %s %d", f.m->name, in.l->ver, w.mode, what, (int)(seen.size()));
        feature("%s%d %s %.12g %.12g", f.m->name, in.l->ver, what, want.empty() ? 0 : want[0], want.size() < 2 ? 0 : want[1]);
        double sc = scaleOf(f);
        for (size_t i = 0; i < want.size(); i++)
            if (exact ? !(got[i] == want[i]) : !close(got[i], want[i], sc))
                fail("equation", "%s FMI%d in %s: %s[%zu] is %.17g instead of %.17g", f.m->name, in.l->ver, modeName(w.mode), what, i, got[i], want[i]);
        repeat(key, got, what);
    }
    void one(Rng &r) {
        const ModelInfo &m = *f.m;
        bool cont = in.l->ver == 3 || w.mode != mInit;
        size_t nx = f.states().size(), nz = f.indicators().size();
        int what = (int)r.below(8);
        if (!cont && what < 4) what = 7;
        std::vector<double> g;
        St s = sOK;
        switch (what) {
        case 0: g.assign(nx, NAN); s = in.getDer(g); if (s == sOK) check(1000, g, f.der(), "derivatives"); break;
        case 1: g.assign(nz, NAN); s = in.getInd(g); if (s == sOK) check(1001, g, f.indicators(), "event indicators"); break;
        case 2: g.assign(nx, NAN); s = in.getStates(g); if (s == sOK) check(1002, g, f.states(), "continuous states", true); break;
        case 3: g.assign(nx, NAN); s = in.getNominals(g); if (s == sOK) check(1003, g, f.nominals(), "nominals"); break;
        case 4:
            if (in.nx() != nx) fail("nx", "%s reports %zu continuous states instead of %zu", m.name, in.nx(), nx);
            if (in.nz() != nz) fail("nz", "%s reports %zu event indicators instead of %zu", m.name, in.nz(), nz);
            break;
        case 5: {
            if (w.mode != mCT) break;
            bool a = true, b = true;
            s = in.completed(&a, &b);
            if (s == sOK && (a || b)) fail("completed", "CompletedIntegratorStep requested %s", a ? "Event Mode" : "termination");
            break;
        }
        case 6: {
            double q = NAN;
            s = in.getF64(0, &q);
            if (s == sOK && q != t) fail("time", "time is %.17g instead of %.17g", q, t);
            break;
        }
        default: {
            auto &vs = m.vars(in.l->ver);
            const Var &v = vs[r.below(vs.size())];
            std::vector<double> want;
            if (v.vr == 0 || v.ty != F64 || is(m, "Feedthrough") || !f.value(v.vr, &want)) return;
            g.assign(want.size(), NAN);
            s = in.getF64v(v.vr, g);
            if (s == sOK) check((int)v.vr, g, want, v.name);
        }
        }
        if (s != sOK) fail("refused", "%s FMI%d: evaluation %d in %s returned %s", m.name, in.l->ver, what, modeName(w.mode), stName(s));
    }
};

static void caseEval(const Kind_ &k, Rng &r) {
    const ModelInfo &m = *k.l->m;
    Inst in;
    in.label = "a";
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    Walker w;
    w.init(k.l, k.o);
    Ref f;
    f.init(m, k.l->ver);
    Evaluator e{in, w, f, 0, {}};
    auto some = [&](size_t n) { for (size_t i = 0; i < n; i++) e.one(r); };
    if (k.l->ver == 3 && is(m, "StateSpace") && r.chance(0.5)) {
        expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
        w.mode = mConfig;
        for (uint32_t i = 0; i < 3; i++) if (r.chance(0.7)) { uint64_t u = r.below(6); expect(in.setU64(i + 1, u), sOK, "set", "dimension"); w.dims[i] = u; f.d[i] = u; }
        expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
        w.mode = mInst;
        for (uint32_t vr = 4; vr <= 12; vr++) {
            if (vr == 10 || vr == 12) continue;
            std::vector<double> q;
            f.value(vr, &q);
            expect(in.getF64v(vr, q), sOK, "read", "array");
            setRef(f, vr, q, mEvent);
        }
    }
    if (k.l->ver == 3 && is(m, "Roberts") && r.chance(0.3)) {
        expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
        expect(in.setBool(1, true), sOK, "set", "dae");
        expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
        f.dae = true;
        if (r.chance(0.7)) { f.y3 = r.range(0, 1); expect(in.setF64(6, f.y3), sOK, "set", "y3"); }
    }
    for (size_t i = r.below(4); i; i--) change(in, w, f, r);
    double start = r.chance(0.5) ? 0 : niceValue(r);
    expect(in.enterInit(start, false, 0), sOK, "mode", "EnterInitializationMode");
    w.mode = mInit;
    e.t = start;
    e.moved();
    for (size_t i = r.below(4); i; i--) { some(r.below(4)); if (change(in, w, f, r)) e.moved(); }
    some(r.below(6));
    expect(in.exitInit(), sOK, "mode", "ExitInitializationMode");
    w.mode = mEvent;
    e.moved();
    size_t n = 5 + r.below(20);
    for (size_t i = 0; i < n; i++) {
        switch (r.below(8)) {
        case 7: {
            // an event update announces what the events of the model cause, and nothing else
            if (w.mode != mEvent || is(m, "Stair")) break;
            if (is(m, "BouncingBall") && f.v < 0 && fabs(-f.v * f.e - 0.1) < 1e-9) break;
            EventInfo ei;
            expect(in.update(&ei), sOK, "event", "UpdateDiscreteStates");
            f.handle();
            if (ei.values != f.changed) fail("event", "event update %s changed continuous states, the event %s them", ei.values ? "announces" : "does not announce", f.changed ? "changes" : "does not change");
            if (ei.nominals || ei.terminate || ei.nextDefined || ei.needUpdate)
                fail("event", "event update announces changed nominals=%d, termination=%d, a time event=%d, a further update=%d", ei.nominals, ei.terminate, ei.nextDefined, ei.needUpdate);
            if (f.changed) { e.moved(); feature("event changes the states"); }
            count("event updates");
            break;
        }
        case 0:
            if (w.mode == mEvent) { expect(in.enterCT(), sOK, "mode", "EnterContinuousTimeMode"); w.mode = mCT; }
            else { expect(in.enterEvent(), sOK, "mode", "EnterEventMode"); w.mode = mEvent; }
            break;
        case 1: e.t += r.chance(0.3) ? (r.chance(0.5) ? -1 : 1) * ldexp(r.unit(), -(int)r.irange(10, 40)) : r.range(0, 0.7); if (is(m, "Stair") && e.t > 0.99) e.t = 0.5; expect(in.setTime(e.t), sOK, "time", "SetTime"); e.moved(); break;
        case 2: case 3:
            if (w.mode == mCT && !f.states().empty()) {
                std::vector<double> x(f.states().size());
                for (auto &q : x) q = valueFor(m, is(m, "BouncingBall") && &q == &x[0] ? 1 : 99, r);
                expect(in.setStates(x), sOK, "states", "SetContinuousStates");
                f.setStates(x);
                e.moved();
            }
            break;
        case 4: case 5: if (change(in, w, f, r)) e.moved(); break;
        case 6: {
            // a save and restore does not disturb the evaluations
            void *st = nullptr;
            expect(in.getState(&st), sOK, "state", "GetFMUState");
            some(2);
            expect(in.setState(st), sOK, "state", "SetFMUState");
            expect(in.freeState(&st), sOK, "state", "FreeFMUState");
            break;
        }
        }
        some(1 + r.below(6));
    }
    if (w.mode == mEvent) { expect(in.enterCT(), sOK, "mode", "EnterContinuousTimeMode"); w.mode = mCT; }
    some(4);
    // a wrong number of states or indicators
    size_t nx = f.states().size(), nz = f.indicators().size();
    int what = (int)r.below(5);
    size_t right = what == 1 ? nz : nx, wrong = r.chance(0.5) && right ? r.below(right) : right + 1 + r.below(3);
    std::vector<double> q(wrong, 1.0);
    size_t lg = in.errorLogs();
    St s = what == 0 ? in.getDer(q) : what == 1 ? in.getInd(q) : what == 2 ? in.getStates(q) : what == 3 ? in.getNominals(q) : in.setStates(q);
    count("evaluations");
    feature("%s%d wrong %d %zu", m.name, k.l->ver, what, wrong);
    if (s != sError) fail("size", "%s FMI%d: call %d with %zu instead of %zu values returned %s", m.name, k.l->ver, what, wrong, right, stName(s));
    if (in.errorLogs() == lg) fail("size", "%s FMI%d: call %d with %zu instead of %zu values was not reported", m.name, k.l->ver, what, wrong, right);
    sample("%s FMI%d: %zu rounds of evaluations, ended at time %.6g", m.name, k.l->ver, n, e.t);
}

// -------------------------------------------------------------------- C18 --
// d unknown / d known; false: not part of the property
static bool partial(const Ref &f, uint32_t u, uint32_t k, Mode mode, double *d, double *sc) {
    const ModelInfo &m = *f.m;
    *sc = 1;
    if (is(m, "VanDerPol")) {
        *sc = 1 + 2 * fabs(f.x0 * f.x1 * f.mu) + fabs(f.mu) * (1 + f.x0 * f.x0) + (1 + f.x0 * f.x0) * fabs(f.x1);
        if (k == 5 && mode != mInit) return false;
        if (u == 2) { *d = k == 3 ? 1 : 0; return true; }
        if (u == 4) { *d = k == 1 ? -2 * f.x0 * f.x1 * f.mu - 1 : k == 3 ? f.mu * (1 - f.x0 * f.x0) : (1 - f.x0 * f.x0) * f.x1; return true; }
        return false;
    }
    if (is(m, "Roberts")) {
        double z = f.dae ? f.y3 : 1 - f.y1 - f.y2;
        *sc = 1 + 1e4 * (fabs(z) + fabs(f.y2)) + 6e7 * fabs(f.y2);
        if (k == 6 && !f.dae) return false;
        double dz = k == 6 ? 1 : f.dae ? 0 : -1;     // dy3/dk
        double d1 = k == 2, d2 = k == 4;
        switch (u) {
        case 3: *d = -0.04 * d1 + 1e4 * (d2 * z + f.y2 * dz); return true;
        case 5: *d = 0.04 * d1 - 1e4 * (d2 * z + f.y2 * dz) - 6e7 * f.y2 * d2; return true;
        case 8: *d = d1 + d2 + dz; return true;
        case 9: *d = d1; return true;
        case 10: *d = dz; return true;
        }
    }
    return false;
}
static St adj(Inst &in, const std::vector<uint32_t> &u, const std::vector<uint32_t> &k, const std::vector<double> &seed, std::vector<double> &out) { return in.adjDer(u, k, seed, out); }

static void caseDeriv(const Kind_ &k, Rng &r) {
    const ModelInfo &m = *k.l->m;
    int ver = k.l->ver;
    bool vdp = is(m, "VanDerPol"), rob = is(m, "Roberts");
    Inst in;
    in.label = "a";
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    Walker w;
    w.init(k.l, k.o);
    Ref f;
    f.init(m, ver);
    if (rob && r.chance(0.5)) {
        expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
        expect(in.setBool(1, true), sOK, "set", "dae");
        expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
        f.dae = true;
        if (r.chance(0.7)) { f.y3 = r.range(0, 1); expect(in.setF64(6, f.y3), sOK, "set", "y3"); }
    }
    for (int i = 0; i < 5; i++) change(in, w, f, r);
    expect(in.enterInit(0, false, 0), sOK, "mode", "EnterInitializationMode");
    w.mode = mInit;
    bool ball = is(m, "BouncingBall");
    size_t rounds = vdp || rob ? 6 + r.below(10) : ball ? 10 : 1 + r.below(4);
    for (size_t i = 0; i < rounds; i++) {
        // move on
        if (i && r.chance(0.4)) {
            if (w.mode == mInit) { expect(in.exitInit(), sOK, "mode", "ExitInitializationMode"); w.mode = k.o.type == ME || k.o.eventMode ? mEvent : mStep; }
            else if (w.mode == mEvent && k.o.type == ME) { expect(in.enterCT(), sOK, "mode", "EnterContinuousTimeMode"); w.mode = mCT; }
            else if (w.mode == mEvent) { expect(in.enterStep(), sOK, "mode", "EnterStepMode"); w.mode = mStep; }
            else if (w.mode == mCT) { expect(in.enterEvent(), sOK, "mode", "EnterEventMode"); w.mode = mEvent; }
            else if (w.mode == mStep) {
                StepResult q;
                expect(in.doStep(w.cp, m.step, &q), sOK, "mode", "DoStep");
                w.cp += m.step;
                // take the states from the instance
                for (uint32_t vr = 1; vr < 8; vr++) {
                    std::vector<double> v;
                    if (f.value(vr, &v) && !v.empty() && m.var(ver, vr) && m.var(ver, vr)->ty == F64 && in.getF64v(vr, v) == sOK) setRef(f, vr, v, mEvent);
                }
                if (!f.finite() || !(fabs(f.y3) < 1e9)) return;
            }
        }
        if (w.mode == mCT && r.chance(0.6) && !f.states().empty()) {
            std::vector<double> x(f.states().size());
            for (auto &q : x) q = valueFor(m, 99, r);
            if (ball) x[0] = fabs(x[0]) + 0.1;
            expect(in.setStates(x), sOK, "states", "SetContinuousStates");
            f.setStates(x);
        } else change(in, w, f, r);
        if (ball && k.o.type == CSIM && w.mode == mStep) {
            // time derivatives of the outputs
            size_t n = r.below(4);
            Buf<uint32_t> vr(n);
            Buf<double> val(n);
            Buf<int32_t> ord(n);
            for (size_t j = 0; j < n; j++) { vr[j] = r.chance(0.5) ? 1 : 3; ord[j] = 1; }
            bool bad = n && r.chance(0.2);
            size_t bj = r.below(n);
            if (bad) { if (r.chance(0.5)) { const int o[] = {0, 2, -1, 3}; ord[bj] = o[r.below(4)]; } else { const uint32_t o[] = {0, 2, 4, 5, 6, 7, 99}; vr[bj] = o[r.below(7)]; } }
            size_t lg = in.errorLogs();
            St s;
            { InCall ic("GetOutputDerivatives"); s = (St)(ver == 2 ? (int)k.l->a2.GetRealOutputDerivatives(in.c, vr.p, n, ord.p, val.p) : (int)k.l->a3.GetOutputDerivatives(in.c, vr.p, n, ord.p, val.p, n)); }
            trace("GetOutputDerivatives of %zu -> %s", n, stName(s));
            count("evaluations");
            count(bad ? "unsupported output derivatives" : "output derivatives");
            feature("ball%d output derivatives %zu %d", ver, n, bad);
            if (bad) {
                if (s != sError || in.errorLogs() == lg) fail("outder", "unsupported output derivative (variable %u, order %d) returned %s with %zu messages", vr[bj], ord[bj], stName(s), in.errorLogs() - lg);
                return;
            }
            if (s != sOK) fail("outder", "output derivatives returned %s", stName(s));
            for (size_t j = 0; j < n; j++) {
                double want = vr[j] == 1 ? f.v : f.g;
                if (val[j] != want) fail("outder", "time derivative of %s is %.17g instead of %.17g", vr[j] == 1 ? "h" : "v", val[j], want);
            }
        }
        if (ball && i + 1 < rounds) continue;
        std::vector<uint32_t> us = vdp ? std::vector<uint32_t>{2, 4} : rob ? std::vector<uint32_t>{3, 5, 8, 9, 10} : std::vector<uint32_t>{1, 2};
        std::vector<uint32_t> ks = vdp ? std::vector<uint32_t>{1, 3} : rob ? std::vector<uint32_t>{2, 4} : std::vector<uint32_t>{1, 3};
        if (vdp && w.mode == mInit) ks.push_back(5);
        if (rob && f.dae) ks.push_back(6);
        std::vector<uint32_t> u, kn;
        size_t nu = r.below(5), nk = r.below(5);
        if (!vdp && !rob) { nu = 1 + r.below(3); nk = 1 + r.below(3); }
        for (size_t j = 0; j < nu; j++) u.push_back(us[r.below(us.size())]);
        for (size_t j = 0; j < nk; j++) kn.push_back(ks[r.below(ks.size())]);
        bool adjoint = ver == 3 && r.chance(0.5);
        std::vector<double> seed(adjoint ? nu : nk), out;
        for (auto &q : seed) q = r.chance(0.3) ? (double)r.irange(-1, 1) : niceValue(r);
        Snap before, after;
        snapshot(in, before);
        size_t lg = in.errorLogs();
        St s = adjoint ? adj(in, u, kn, seed, out) : in.dirDer(u, kn, seed, out);
        count("evaluations");
        feature("%s%d %d %d %d %zu %zu %u %u", m.name, ver, k.o.type, w.mode, adjoint, nu, nk, nu ? u[0] : 0, nk ? kn[0] : 0);
        const char *fn = adjoint ? "adjoint" : "directional";
        if (!vdp && !rob) {
            if (s != sError || in.errorLogs() == lg) fail("unsupported", "%s FMI%d: %s derivative returned %s with %zu messages", m.name, ver, fn, stName(s), in.errorLogs() - lg);
            return;
        }
        if (s != sOK) fail("refused", "%s FMI%d: %s derivative in %s returned %s", m.name, ver, fn, modeName(w.mode), stName(s));
        snapshot(in, after);
        if (before != after) fail("effect", "%s derivative changed %s", fn, snapDiff(m, ver, before, after).c_str());
        size_t no = adjoint ? nk : nu, ni = adjoint ? nu : nk;
        for (size_t a = 0; a < no; a++) {
            double want = 0, sc = 0;
            for (size_t b = 0; b < ni; b++) {
                double d = 0, c;
                if (!partial(f, adjoint ? u[b] : u[a], adjoint ? kn[a] : kn[b], w.mode, &d, &c)) broken("no partial derivative");
                want += d * seed[b];
                sc += c * (1 + fabs(seed[b]));
            }
            if (!close(out[a], want, sc)) fail("value", "%s FMI%d in %s: %s derivative, element %zu (%s %u) is %.17g instead of %.17g", m.name, ver, modeName(w.mode), fn, a, adjoint ? "known" : "unknown", adjoint ? kn[a] : u[a], out[a], want);
        }
        // numerical differentiation of the model itself
        if (!adjoint && nu && nk && w.mode == mCT && r.chance(0.5)) {
            std::vector<double> x = f.states(), hi, lo;
            bool ok = true;
            double h = 1e-6;
            std::vector<double> dx(x.size(), 0.0);
            for (size_t b = 0; b < nk; b++) {
                int ix = vdp ? (kn[b] == 1 ? 0 : 1) : kn[b] == 2 ? 0 : kn[b] == 4 ? 1 : -1;
                if (ix < 0) ok = false; else dx[(size_t)ix] += seed[b];
            }
            if (ok) {
                auto at = [&](double sgn, std::vector<double> &o) {
                    std::vector<double> y = x;
                    for (size_t q = 0; q < y.size(); q++) y[q] += sgn * h * dx[q];
                    expect(in.setStates(y), sOK, "states", "SetContinuousStates");
                    for (size_t a = 0; a < nu; a++) { double v = NAN; expect(in.getF64(u[a], &v), sOK, "read", "unknown"); o.push_back(v); }
                };
                at(1, hi);
                at(-1, lo);
                expect(in.setStates(x), sOK, "states", "SetContinuousStates");
                double sz = 0;
                for (double q : seed) sz += fabs(q);
                for (size_t a = 0; a < nu; a++) {
                    double num = (hi[a] - lo[a]) / (2 * h);
                    double tol = 1e-4 * (1 + fabs(num)) + 1e-9 * scaleOf(f) / h + 1e-4 * sz * sz * sz * 10 * (vdp ? 1 + fabs(f.mu) : 1);
                    if (fabs(num - out[a]) > tol) fail("numeric", "%s FMI%d: directional derivative of %u is %.17g but numerical differentiation gives %.17g", m.name, ver, u[a], out[a], num);
                    count("compared with numerical differentiation");
                }
            }
        }
    }
    if (ver == 3 && (vdp || rob)) {
        // wrong lengths of seed or result
        size_t nu = 1 + r.below(2), nk = 1 + r.below(2);
        bool adjoint = r.chance(0.5);
        size_t ns = adjoint ? nu : nk, no = adjoint ? nk : nu;
        if (r.chance(0.5)) ns = r.chance(0.5) ? ns - 1 : ns + 1; else no = r.chance(0.5) ? no - 1 : no + 1;
        Buf<uint32_t> u(nu), kn(nk);
        for (size_t j = 0; j < nu; j++) u[j] = vdp ? 2 : 3;
        for (size_t j = 0; j < nk; j++) kn[j] = vdp ? 1 : 2;
        Buf<double> sd(ns), so(no);
        size_t lg = in.errorLogs();
        St s;
        { InCall ic("derivative"); s = (St)(adjoint ? k.l->a3.GetAdjointDerivative(in.c, u.p, nu, kn.p, nk, sd.p, ns, so.p, no) : k.l->a3.GetDirectionalDerivative(in.c, u.p, nu, kn.p, nk, sd.p, ns, so.p, no)); }
        count("evaluations");
        feature("%s wrong length %zu %zu %zu %zu %d", m.name, nu, nk, ns, no, adjoint);
        if (s != sError || in.errorLogs() == lg) fail("length", "derivative with %zu seeds and %zu results for %zu unknowns and %zu knowns returned %s", ns, no, nu, nk, stName(s));
    }
    sample("%s FMI%d %s: %zu rounds, ended in %s", m.name, ver, ifName(k.o.type), rounds, modeName(w.mode));
}

// -------------------------------------------------------------------- C19 --
struct Space {
    Inst &in;
    Walker &w;
    Ref &f;
    void read(uint32_t vr, std::vector<double> &q) {
        q.clear();
        f.value(vr, &q);
        St s = in.getF64v(vr, q);
        if (s != sOK) fail("size", "variable %u with %zu elements (m=%zu n=%zu r=%zu) cannot be read in %s: %s", vr, q.size(), f.d[0], f.d[1], f.d[2], modeName(w.mode), stName(s));
    }
    void compareAll(const char *when) {
        double sc = scaleOf(f);
        for (uint32_t vr = 4; vr <= 12; vr++) {
            std::vector<double> want, got;
            f.value(vr, &want);
            read(vr, got);
            for (size_t i = 0; i < want.size(); i++)
                if (vr == 10 || vr == 12 || vr == 11 ? !(fabs(got[i] - want[i]) <= 1e-9 * sc) : got[i] != want[i])
                    fail("value", "%s: variable %u element %zu is %.17g instead of %.17g (m=%zu n=%zu r=%zu, %s)", when, vr, i, got[i], want[i], f.d[0], f.d[1], f.d[2], modeName(w.mode));
            count("values compared", want.size());
        }
        for (uint32_t i = 0; i < 3; i++) {
            uint64_t u = 99;
            if (in.getU64(i + 1, &u) != sOK || u != f.d[i]) fail("dimension", "%s: dimension %u is %llu instead of %zu", when, i, (unsigned long long)u, f.d[i]);
        }
        count("evaluations");
        feature("%s %d %d %zu%zu%zu", when, in.o.type, w.mode, f.d[0], f.d[1], f.d[2]);
    }
    void counts() {
        if (in.nx() != f.d[1]) fail("nx", "%zu continuous states are reported with n=%zu", in.nx(), f.d[1]);
        if (in.nz() != 0) fail("nz", "event indicators are reported");
    }
    // new sizes; arrays whose shape did not change keep their values, the others are taken over from the instance
    void resize(Rng &r, size_t m, size_t n, size_t rr, bool fresh) {
        size_t old[3] = {f.d[0], f.d[1], f.d[2]}, neu[3] = {m, n, rr};
        int order[3] = {0, 1, 2};
        std::swap(order[0], order[r.below(3)]);
        std::swap(order[1], order[1 + r.below(2)]);
        Ref keep = f;
        for (int o : order) {
            if (neu[o] == old[o] && r.chance(0.5)) continue;
            expect(in.setU64((uint32_t)o + 1, neu[o]), sOK, "set", "dimension");
            f.d[o] = neu[o];
            w.dims[o] = neu[o];
        }
        for (uint32_t vr = 4; vr <= 11; vr++) {
            if (vr == 10) continue;
            std::vector<double> q, was;
            read(vr, q);
            bool same = (vr == 4 && old[1] == n) || (vr == 5 && old[1] == n && old[0] == m) || (vr == 6 && old[2] == rr && old[1] == n) || (vr == 7 && old[2] == rr && old[0] == m) ||
                        ((vr == 8 || vr == 11) && old[1] == n) || (vr == 9 && old[0] == m);
            if (same) {
                keep.value(vr, &was);
                for (size_t i = 0; i < q.size(); i++)
                    if (vr == 11 ? !near(q[i], was[i], 1e-9, 1e-9) : q[i] != was[i]) fail("kept", "variable %u element %zu changed from %.17g to %.17g although its shape did not change (m %zu->%zu n %zu->%zu r %zu->%zu)", vr, i, was[i], q[i], old[0], m, old[1], n, old[2], rr);
            }
            if (fresh) {
                size_t cols = vr == 4 || vr == 6 ? n : m;
                for (size_t i = 0; i < q.size(); i++) {
                    double want = vr == 8 || vr == 11 ? 0 : vr == 9 ? (double)i + 1 : i / cols == i % cols ? 1 : 0;
                    if (q[i] != want) fail("start", "start value of variable %u element %zu is %.17g instead of %.17g (m=%zu n=%zu r=%zu)", vr, i, q[i], want, m, n, rr);
                }
            }
            setRef(f, vr, q, mEvent);
        }
        // before the initialization the state is the start vector
        if (w.mode == mConfig) for (size_t i = 0; i < n; i++) if (f.X[i] != f.X0[i]) fail("initial", "element %zu of the state is %.17g before the initialization, the start vector has %.17g (n %zu->%zu)", i, f.X[i], f.X0[i], old[1], n);
    }
    void fill(Rng &r, double p) {
        for (uint32_t vr = 4; vr <= 9; vr++) {
            if (!r.chance(p)) continue;
            if (vr == 8 && w.mode != mInst && w.mode != mInit) continue;
            std::vector<double> q;
            f.value(vr, &q);
            for (auto &x : q) x = r.chance(0.1) ? 0 : r.range(-2, 2);
            expect(in.setF64v(vr, q), sOK, "set", "array");
            setRef(f, vr, q, w.mode);
        }
        if (r.chance(p) && (w.mode == mEvent || w.mode == mCT) && w.type == ME) {
            std::vector<double> q(f.d[1]);
            for (auto &x : q) x = r.range(-2, 2);
            expect(in.setF64v(11, q), sOK, "set", "x");
            setRef(f, 11, q, w.mode);
        }
    }
};

static void caseSpace(const Kind_ &k, Rng &r, size_t i) {
    Inst in;
    in.label = "a";
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    Walker w;
    w.init(k.l, k.o);
    Ref f;
    f.init(*k.l->m, 3);
    Space s{in, w, f};
    if (r.chance(0.3)) s.fill(r, 0.5);
    bool untouched = !r.chance(0.2);
    if (!untouched) s.fill(r, 0.6);
    Ref blank;
    blank.init(*k.l->m, 3);
    bool fresh = memcmp(blank.A, f.A, sizeof f.A) == 0 && memcmp(blank.B, f.B, sizeof f.B) == 0 && memcmp(blank.C, f.C, sizeof f.C) == 0 && memcmp(blank.D, f.D, sizeof f.D) == 0 &&
                 memcmp(blank.X0, f.X0, sizeof f.X0) == 0 && memcmp(blank.U, f.U, sizeof f.U) == 0;
    size_t m = i % 6, n = i / 6 % 6, rr = i / 36 % 6;
    expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
    w.mode = mConfig;
    s.resize(r, m, n, rr, fresh);
    expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
    w.mode = mInst;
    s.counts();
    s.compareAll("after configuration");
    s.fill(r, 0.7);
    s.compareAll("after setting");
    if (r.chance(0.3)) {
        // smaller and back again
        expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
        w.mode = mConfig;
        for (size_t q = 1 + r.below(3); q; q--) s.resize(r, r.chance(0.5) ? m : r.below(6), r.below(6), r.chance(0.5) ? rr : r.below(6), false);
        s.resize(r, m, n, rr, false);
        expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
        w.mode = mInst;
        s.counts();
        s.compareAll("after another configuration");
    }
    expect(in.enterInit(0, false, 0), sOK, "mode", "EnterInitializationMode");
    w.mode = mInit;
    s.fill(r, 0.4);
    s.compareAll("in initialization");
    expect(in.exitInit(), sOK, "mode", "ExitInitializationMode");
    w.mode = k.o.type == ME || k.o.eventMode ? mEvent : mStep;
    double cp = 0, t = 0;
    for (size_t q = 2 + r.below(6); q; q--) {
        s.compareAll("during the simulation");
        if (k.o.type == ME) {
            s.fill(r, 0.3);
            expect(in.enterCT(), sOK, "mode", "EnterContinuousTimeMode");
            w.mode = mCT;
            for (size_t j = r.below(4); j; j--) {
                std::vector<double> x(f.d[1]), dx(f.d[1]);
                expect(in.getStates(x), sOK, "eval", "GetContinuousStates");
                expect(in.getDer(dx), sOK, "eval", "GetContinuousStateDerivatives");
                auto want = f.der();
                for (size_t a = 0; a < dx.size(); a++) {
                    if (!(fabs(dx[a] - want[a]) <= 1e-9 * scaleOf(f))) fail("der", "derivative %zu is %.17g instead of %.17g", a, dx[a], want[a]);
                    if (x[a] != f.X[a]) fail("state", "state %zu is %.17g instead of %.17g", a, x[a], f.X[a]);
                    x[a] += 1e-3 * dx[a];
                }
                t += 1e-3;
                expect(in.setTime(t), sOK, "eval", "SetTime");
                expect(in.setStates(x), sOK, "eval", "SetContinuousStates");
                f.setStates(x);
                s.compareAll("in Continuous-Time Mode");
            }
            expect(in.enterEvent(), sOK, "mode", "EnterEventMode");
            w.mode = mEvent;
        } else {
            if (w.mode == mEvent) { expect(in.enterStep(), sOK, "mode", "EnterStepMode"); w.mode = mStep; }
            s.fill(r, 0.3);
            size_t ns = 1 + r.below(8);
            StepResult q2;
            expect(in.doStep(cp, 1e-3 * (double)ns, &q2), sOK, "step", "DoStep");
            cp += 1e-3 * (double)ns;
            for (size_t j = 0; j < ns; j++) f.step();
            s.compareAll("after a step");
            if (k.o.eventMode && r.chance(0.4)) { expect(in.enterEvent(), sOK, "mode", "EnterEventMode"); w.mode = mEvent; }
        }
        if (r.chance(0.6)) {
            expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
            w.mode = mReconf;
            size_t a = r.chance(0.4) ? f.d[0] : r.below(6), b = r.chance(0.4) ? f.d[1] : r.below(6), c = r.chance(0.4) ? f.d[2] : r.below(6);
            s.resize(r, a, b, c, false);
            expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
            w.mode = k.o.type == ME ? mEvent : mStep;
            s.counts();
            s.compareAll("after reconfiguration");
        }
        // the same instance, rewound
        if (r.chance(0.1)) {
            void *st = nullptr;
            expect(in.getState(&st), sOK, "state", "GetFMUState");
            Snap x, y;
            snapshot(in, x);
            expect(in.reset(), sOK, "state", "Reset");
            expect(in.setState(st), sOK, "state", "SetFMUState");
            expect(in.freeState(&st), sOK, "state", "FreeFMUState");
            s.counts();
            s.compareAll("after restoring");
        }
    }
    if (r.chance(0.5)) {
        expect(in.reset(), sOK, "reset", "Reset");
        f.init(*k.l->m, 3);
        w.mode = mInst;
        s.counts();
        s.compareAll("after a reset");
    } else {
        // wrong sizes are refused
        uint32_t vr = (uint32_t)r.irange(4, 9);
        std::vector<double> q;
        f.value(vr, &q);
        size_t n1 = q.size();
        if (vr == 8) { vr = 9; f.value(9, &q); n1 = q.size(); }
        if (n1 && r.chance(0.5)) q.resize(r.below(n1)); else q.resize(n1 + 1 + r.below(5));
        bool get = r.chance(0.5);
        St st = get ? in.getF64v(vr, q) : in.setF64v(vr, q);
        count("evaluations");
        if (st != sError) fail("size", "%s %zu instead of %zu values of variable %u returned %s", get ? "reading" : "setting", q.size(), n1, vr, stName(st));
    }
    sample("StateSpace %s m=%zu n=%zu r=%zu: simulated to %.4g with reconfigurations", ifName(k.o.type), m, n, rr, cp + t);
}

size_t driverCases() {
    if (P == 13) return kinds.size() * opt.scale(800, 20000);
    if (P == 18) return kinds.size() * opt.scale(600, 12000);
    return kinds.size() * 216 * opt.scale(10, 200);
}
void driverCase(size_t i, Rng &rng) {
    const Kind_ &k = kinds[i % kinds.size()];
    if (P == 13) caseEval(k, rng);
    else if (P == 18) caseDeriv(k, rng);
    else caseSpace(k, rng, i / kinds.size());
}

// Plays legal and arbitrary calls on one instance.
#pragma once
#include "walker.hpp"
#include <cfloat>

struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;
static bool light;      // under valgrind
static std::vector<std::string> places;      // other directories for Resource to read from
static bool is(const ModelInfo &m, const char *n) { return !strcmp(m.name, n); }

static double wild(Rng &r) {
    switch (r.below(10)) {
    case 0: return NAN;
    case 1: return INFINITY;
    case 2: return -INFINITY;
    case 3: return DBL_MAX;
    case 4: return -DBL_MAX;
    case 5: return 4.9e-324;
    case 6: return 0;
    case 7: { uint64_t u = r.u64(); double d; memcpy(&d, &u, 8); return d; }
    default: return niceValue(r);
    }
}
static volatile uint64_t sink;
// makes memcheck look at the bytes
static void touch(const void *p, size_t n) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) if (c[i] == 0x77) sink = sink + 1;
}

struct Player {
    Kind_ k;
    Inst in;
    Walker w;
    std::vector<void *> states;
    bool wildTimes;      // a co-simulation instance may only be given sensible times
    int p3 = 2;
    int seen = 0;        // intermediate updates answered with calls
    double cp = 0;

    const ModelInfo &m() { return *k.l->m; }
    bool debug = true;   // switches logging at random
    bool noResource = true;
    bool open(const Kind_ &kk, Rng &r) {
        k = kk;
        InstOpt o = k.o;
        o.logging = r.chance(0.5);
        o.useIu = r.chance(0.3);
        if (noResource && r.chance(0.1)) { o.nullResource = !is(m(), "Resource") || r.chance(0.3); }
        if (noResource && !is(m(), "Resource")) o.emptyResource = r.chance(0.05);
        if (!places.empty() && is(m(), "Resource") && r.chance(0.3)) {
            // empty, missing and far too long
            std::string p = r.chance(0.4) ? places[r.below(places.size())] : r.chance(0.3) ? "/nowhere" : "/" + std::string(r.chance(0.7) ? 4080 + r.below(30) : r.below(9000), 'p');
            o.resource = k.l->ver == 2 ? "file://" + p : p + "/";
            // nothing but escapes, complete or not
            if (k.l->ver == 2 && r.chance(0.2)) {
                o.resource = "file:/" + std::string(r.below(4), 'p');
                const char *e = r.chance(0.4) ? "%" : r.chance(0.5) ? "%2" : "%20";
                for (size_t n = r.chance(0.7) ? 1300 + r.below(4000) : r.below(20); n; n--) o.resource += e;
            }
        }
        if (!places.empty() && k.l->ver == 3) o.nullLogger = r.chance(0.1);
        wildTimes = o.type == ME;
        if (!in.open(k.l, o)) return false;
        in.quiet = false;
        if (o.useIu) in.onIu = [this](Inst &q, const IuRec &, bool *, double *) { Snap s; if (seen++ > 40) return; q.quiet = true; snapshot(q, s); q.quiet = false; };
        w = Walker();
        w.init(k.l, k.o);
        w.records = false;
        w.allowDebug = debug;
        return true;
    }
    uint32_t someVr(Rng &r) {
        auto &vs = m().vars(k.l->ver);
        if (r.chance(0.85)) return vs[r.below(vs.size())].vr;
        return r.chance(0.5) ? (uint32_t)r.below(40) : (uint32_t)r.u64();
    }
    void access(Rng &r) {
        int ver = k.l->ver;
        static const Ty t2[] = {F64, I32, BOOL, STR};
        Ty t = ver == 2 ? t2[r.below(4)] : (Ty)r.below(NTY);
        bool set = r.chance(0.5);
        size_t nvr = r.chance(0.5) ? 1 : r.below(7);
        std::vector<uint32_t> vr;
        if (r.chance(0.7)) {
            std::vector<const Var *> ok;
            for (auto &v : m().vars(ver)) if (v.ty == t) ok.push_back(&v);
            for (size_t i = 0; i < nvr; i++) vr.push_back(ok.empty() || r.chance(0.1) ? someVr(r) : ok[r.below(ok.size())]->vr);
        } else for (size_t i = 0; i < nvr; i++) vr.push_back(someVr(r));
        size_t nv = 0;
        for (uint32_t q : vr) { const Var *v = m().var(ver, q); nv += v ? elements(m(), *v, w.dims) : 1; }
        if (r.chance(0.15)) nv = r.below(30);
        if (ver == 2 || t == CLK) nv = nvr;
        Buf<uint32_t> vb(nvr);
        for (size_t i = 0; i < nvr; i++) vb[i] = vr[i];
        bool nullVr = r.chance(0.02), nullVal = r.chance(0.02);
        const uint32_t *vp = nullVr ? nullptr : vb.p;
        if (t == STR || t == BIN) {
            std::vector<std::unique_ptr<Buf<char>>> keep;
            Buf<const char *> p(nv);
            Buf<size_t> sz(nv);
            if (set) {
                for (size_t i = 0; i < nv; i++) {
                    size_t len = r.chance(0.3) ? 120 + r.below(16) : r.chance(0.1) ? r.below(6000) : r.below(40);
                    keep.emplace_back(new Buf<char>(len + (t == STR)));
                    for (size_t j = 0; j < len; j++) keep[i]->p[j] = (char)(1 + r.below(255));
                    if (t == STR) keep[i]->p[len] = 0;
                    p[i] = keep[i]->p;
                    sz[i] = len;
                }
                in.set(t, vp, nvr, nullVal ? nullptr : p.p, nv, sz.p);
                for (auto &q : keep) memset(q->p, 'x', q->n);
            } else {
                St s = in.get(t, vp, nvr, nullVal ? nullptr : p.p, nv, sz.p);
                if (s == sOK && !nullVal && !nullVr && nvr) for (size_t i = 0; i < nv; i++) touch(p[i], t == STR ? strlen(p[i]) + 1 : sz[i]);
            }
            return;
        }
        Buf<char> b(nv * tySize(t));
        for (size_t i = 0; i < nv; i++) {
            char *q = b.p + i * tySize(t);
            if (t == F64) { double d = wild(r); memcpy(q, &d, 8); }
            else if (t == F32) { float d = (float)niceValue(r); memcpy(q, &d, 4); }
            else if (t == BOOL || t == CLK) *q = (char)r.below(2);
            else { uint64_t u = r.chance(0.3) ? ~0ull >> r.below(64) : r.u64(); if (r.chance(0.5)) u &= 7; memcpy(q, &u, tySize(t)); }
        }
        if (set) in.set(t, vp, nvr, nullVal ? nullptr : b.p, nv);
        else {
            St s = in.get(t, vp, nvr, nullVal ? nullptr : b.p, nv);
            if (s == sOK) touch(b.p, b.n);
        }
    }
    void stateOp(Rng &r) {
        size_t n = states.size();
        switch (r.below(8)) {
        case 0: case 1: {
            if (n > 5) return;
            void *s = nullptr;
            in.getState(&s);
            if (s) states.push_back(s);
            break;
        }
        case 2: if (n) in.getState(&states[r.below(n)]); break;
        case 3: if (n) in.setState(states[r.below(n)]); break;
        case 4: if (n) { size_t i = r.below(n); in.freeState(&states[i]); if (!states[i]) states.erase(states.begin() + (long)i); } break;
        case 5: { void *s = nullptr; in.freeState(&s); break; }
        default: {
            if (!n) return;
            void *s = states[r.below(n)];
            size_t sz = 0;
            if (in.stateSize(s, &sz) != sOK || sz > 1u << 20) return;
            size_t use = r.chance(0.8) ? sz : r.below(2 * sz);
            Buf<unsigned char> b(use);
            if (in.serialize(s, b.p, use) != sOK) return;
            size_t use2 = r.chance(0.8) ? use : r.below(use);
            void *q = nullptr;
            bool reuse = r.chance(0.3);
            Buf<unsigned char> part(use2);
            if (use2) memcpy(part.p, b.p, use2);
            if (reuse) { in.deserialize(part.p, use2, &s); break; }
            in.deserialize(part.p, use2, &q);
            if (q) states.push_back(q);
        }
        }
    }
    void meOp(Rng &r) {
        size_t right = r.chance(0.5) ? in.nx() : in.nz();
        if (right > 10) right = 10;
        std::vector<double> q(r.chance(0.8) ? right : r.below(8));
        for (auto &d : q) d = wild(r);
        switch (r.below(7)) {
        case 0: if (in.getDer(q) == sOK) touch(q.data(), q.size() * 8); break;
        case 1: if (in.getInd(q) == sOK) touch(q.data(), q.size() * 8); break;
        case 2: if (in.getStates(q) == sOK) touch(q.data(), q.size() * 8); break;
        case 3: if (in.getNominals(q) == sOK) touch(q.data(), q.size() * 8); break;
        case 4: in.setStates(q); break;
        case 5: in.setTime(wildTimes ? wild(r) : cp + r.unit() * m().step); break;
        case 6: {
            std::vector<uint32_t> u, kn;
            for (size_t i = r.below(4); i; i--) u.push_back(someVr(r));
            for (size_t i = r.below(4); i; i--) kn.push_back(someVr(r));
            if (is(m(), "VanDerPol") && r.chance(0.7)) {
                for (auto &x : u) x = r.chance(0.5) ? 2 : 4;
                for (auto &x : kn) x = r.chance(0.5) ? 1 : 3;
            }
            bool ad = r.chance(0.5);
            if (k.l->ver == 3 && r.chance(0.3)) {
                // every count of its own
                Buf<uint32_t> ub(u.size()), kb(kn.size());
                for (size_t i = 0; i < u.size(); i++) ub[i] = u[i];
                for (size_t i = 0; i < kn.size(); i++) kb[i] = kn[i];
                Buf<double> a(r.chance(0.5) ? (ad ? u : kn).size() : r.below(5)), z(r.chance(0.5) ? (ad ? kn : u).size() : r.below(5));
                for (size_t i = 0; i < a.n; i++) a[i] = wild(r);
                InCall ic(ad ? "GetAdjointDerivative" : "GetDirectionalDerivative");
                Api3 &f = k.l->a3;
                int s = ad ? f.GetAdjointDerivative(in.c, ub.p, u.size(), kb.p, kn.size(), a.p, a.n, z.p, z.n) : f.GetDirectionalDerivative(in.c, ub.p, u.size(), kb.p, kn.size(), a.p, a.n, z.p, z.n);
                trace("%s derivatives of %zu by %zu, %zu seeds, %zu results -> %s", in.label.c_str(), u.size(), kn.size(), a.n, z.n, stName(s));
                if (s == 0) touch(z.p, z.n * 8);
                break;
            }
            std::vector<double> sd((ad ? u : kn).size()), out;
            for (auto &d : sd) d = wild(r);
            if (k.l->ver == 3 && r.chance(0.1)) sd.resize(r.below(5));
            if (k.l->ver == 2) ad = false;
            if (k.l->ver == 2) sd.resize(kn.size());
            if ((ad ? in.adjDer(u, kn, sd, out) : in.dirDer(u, kn, sd, out)) == sOK) touch(out.data(), out.size() * 8);
        }
        }
    }
    void control(Rng &r) {
        bool a, b;
        EventInfo e;
        StepResult q;
        switch (r.below(17)) {
        case 0: {
            const double ts[] = {0, 0, 0.25, -3, NAN, INFINITY, 100};
            const double ss[] = {0, 1, 1000, -1, NAN, INFINITY, DBL_MAX};
            double t = ts[r.below(7)];
            if (in.enterInit(t, r.chance(0.5), ss[r.below(7)]) == sOK) { w.cp = w.time = cp = t; w.mode = mInit; }
            break;
        }
        case 1: in.exitInit(); break;
        case 2: in.enterEvent(); break;
        case 3: in.enterCT(); break;
        case 4: if (k.l->ver == 3) in.enterStep(); break;
        case 5: if (k.l->ver == 3) in.enterConfig(); break;
        case 6: if (k.l->ver == 3) in.exitConfig(); break;
        case 7: if (r.chance(0.3)) in.terminate(); break;
        case 8: reset(); break;
        case 9: if (in.update(&e) == sOK) { touch(&e.next, 8); if (e.needUpdate || e.values) sink = sink + 1; } break;
        case 10: if (in.completed(&a, &b) == sOK && (a || b)) sink = sink + 1; break;
        case 11: case 12: {
            const double hs[] = {0, -1, NAN, INFINITY, -INFINITY, 1e-300, 1e-7};
            double h = r.chance(0.6) ? m().step * (double)r.irange(1, light ? 20 : 300) : hs[r.below(7)];
            double from = r.chance(0.8) ? w.cp : wild(r);
            St s = in.doStep(from, h, &q);
            if (s == sOK) { w.cp = q.early || q.terminate ? q.last : from + h; cp = w.cp; touch(&q.last, 8); }
            break;
        }
        case 13:
            if (k.l->ver == 3) {
                uint32_t c = r.chance(0.4) ? 1001 : r.chance(0.6) ? 1002 : someVr(r);
                if (c == 1003 && (p3-- <= 0 || light || tiredOfPartition3())) break;
                if (c == 1002 && r.chance(0.4)) {
                    // sums beyond the range of the result
                    int32_t x = r.chance(0.5) ? INT32_MAX - (int32_t)r.below(9) : INT32_MIN + (int32_t)r.below(9);
                    for (int j = 0; j < 2; j++) { in.setI32(2006, x); in.activate(1002, 0); }
                }
                in.activate(c, r.chance(0.5) ? w.time : r.range(-1e6, 1e6));
            }
            break;
        case 14: {
            if (!debug) break;
            static const std::vector<std::string> cats = {"logEvents", "logStatusError", "logAll", "", "%s%n%s", std::string(5000, 'c'), std::string(400, '%')};
            std::vector<std::string> c;
            for (size_t i = r.below(4); i; i--) c.push_back(cats[r.chance(0.8) ? r.below(2) : r.below(cats.size())]);
            in.debugLogging(r.chance(0.7), c, r.chance(0.1) && !c.empty() ? r.below(c.size()) : (size_t)-1);
            break;
        }
        case 15: rare(r); break;
        case 16: {
            if (k.l->ver == 3) { in.nx(); in.nz(); }
            break;
        }
        }
    }
    void reset() {
        if (in.reset() == sOK) {
            Walker n;
            n.init(k.l, k.o);
            n.records = false;
            n.allowDebug = debug;
            w = n;
            cp = 0;
        }
    }
    // functions that are hardly ever called
    void rare(Rng &r) {
        void *c = r.chance(0.1) ? nullptr : in.c;
        size_t n = r.below(4);
        Buf<uint32_t> vr(n);
        for (size_t i = 0; i < n; i++) vr[i] = someVr(r);
        Buf<double> d(n);
        Buf<int32_t> ord(n);
        for (size_t i = 0; i < n; i++) ord[i] = (int32_t)r.irange(-1, 3);
        InCall ic("rarely used function");
        int s = -1, f;
        if (k.l->ver == 2) {
            Api2 &a = k.l->a2;
            fmi2Status st = fmi2OK;
            int iv = 0;
            double dv = 0;
            fmi2String sv = nullptr;
            auto kind = (fmi2StatusKind)r.below(4);
            switch (f = (int)r.below(10)) {
            case 0: s = a.SetRealInputDerivatives(c, vr.p, n, ord.p, d.p); break;
            case 1: s = a.GetRealOutputDerivatives(c, vr.p, n, ord.p, d.p); if (s == 0) touch(d.p, n * 8); break;
            case 2: s = a.CancelStep(c); break;
            case 3: s = a.GetStatus(c, kind, &st); break;
            case 4: s = a.GetRealStatus(c, kind, &dv); touch(&dv, 8); break;
            case 5: s = a.GetIntegerStatus(c, kind, &iv); break;
            case 6: s = a.GetBooleanStatus(c, kind, &iv); touch(&iv, 4); break;
            case 7: s = a.GetStringStatus(c, kind, &sv); break;
            case 8: touch(a.GetVersion(), 3); touch(a.GetTypesPlatform(), 7); break;
            case 9: {
                Buf<int> b(n);
                for (size_t i = 0; i < n; i++) b[i] = (int)r.u64();
                s = a.SetBoolean(c, vr.p, n, b.p);
                break;
            }
            }
        } else {
            Api3 &a = k.l->a3;
            Buf<uint64_t> c1(n), c2(n);
            Buf<fmi3IntervalQualifier> q(n);
            size_t nd = 0;
            for (size_t i = 0; i < n; i++) if (is(m(), "Clocks") && r.chance(0.7)) vr[i] = 1001 + (uint32_t)r.below(5);
            switch (f = is(m(), "BouncingBall") && r.chance(0.3) ? 11 : (int)r.below(14)) {
            case 0: s = a.GetIntervalDecimal(c, vr.p, n, d.p, q.p); if (s == 0) { touch(d.p, n * 8); touch(q.p, n * sizeof(int)); } break;
            case 1: s = a.GetIntervalFraction(c, vr.p, n, c1.p, c2.p, q.p); break;
            case 2: s = a.GetShiftDecimal(c, vr.p, n, d.p); break;
            case 3: s = a.GetShiftFraction(c, vr.p, n, c1.p, c2.p); break;
            case 4: s = a.SetIntervalDecimal(c, vr.p, n, d.p); break;
            case 5: s = a.SetIntervalFraction(c, vr.p, n, c1.p, c2.p); break;
            case 6: s = a.SetShiftDecimal(c, vr.p, n, d.p); break;
            case 7: s = a.SetShiftFraction(c, vr.p, n, c1.p, c2.p); break;
            case 8: s = a.EvaluateDiscreteStates(c); break;
            case 9: s = a.GetNumberOfVariableDependencies(c, someVr(r), &nd); break;
            case 10: {
                Buf<size_t> e1(n), e2(n);
                Buf<fmi3DependencyKind> dk(n);
                s = a.GetVariableDependencies(c, someVr(r), e1.p, vr.p, e2.p, dk.p, n);
                break;
            }
            case 11: case 12: {
                // the outputs that have derivatives
                if (is(m(), "BouncingBall") && r.chance(0.7)) for (size_t i = 0; i < n; i++) { vr[i] = r.chance(0.5) ? 1 : 3; ord[i] = 1; }
                size_t nv = r.chance(0.6) ? n : r.below(5); Buf<double> dd(nv); s = a.GetOutputDerivatives(c, vr.p, n, ord.p, dd.p, nv); if (s == 0) touch(dd.p, nv * 8); break; }
            default: touch(a.GetVersion(), 3);
            }
        }
        trace("%s rare function %d%s -> %s", in.label.c_str(), f, c ? "" : " without instance", s < 0 ? "" : stName(s));
    }
    void one(Rng &r) {
        if ((w.mode == mConfig || w.mode == mReconf) && is(m(), "StateSpace") && r.chance(0.3)) {
            // sizes around the limit
            uint32_t d = (uint32_t)r.below(3);
            uint64_t u = r.below(9);
            St s = in.setU64(d + 1, u);
            if (s != sOK) w.mode = mTerm; else if (u <= 5) w.dims[d] = u;
            return;
        }
        size_t q = r.below(100);
        if (q < 55) {
            bool steps = w.mode == mStep && !(fabs(w.cp) < 900);
            if (std::isnan(w.cp) || steps) reset(); else w.step(in, r);
        }
        else if (q < 72) access(r);
        else if (q < 80) stateOp(r);
        else if (q < 88) meOp(r);
        else if (q < 97) control(r);
        else rare(r);
        if (in.logs.size() > 200) in.logs.clear();
        for (auto &l : in.logs) touch(l.message.data(), l.message.size());
        if (in.logs.size() > 20) in.logs.clear();
    }
    void close() {
        for (void *s : states) { void *q = s; in.freeState(&q); }
        states.clear();
        in.free();
    }
};


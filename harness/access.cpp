// C04 exact values, C05 malformed requests, C06 variability and limits.
#include "walker.hpp"
#include <cfloat>

static int P;
struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;
static bool is(const ModelInfo &m, const char *n) { return !strcmp(m.name, n); }

static std::vector<Mode> modesOf(const Kind_ &k) {
    std::vector<Mode> r = {mInst, mInit};
    const ModelInfo &m = *k.l->m;
    if (k.l->ver == 3 && (is(m, "StateSpace") || is(m, "Roberts"))) { r.push_back(mConfig); r.push_back(mReconf); }
    if (k.o.type == ME) { r.push_back(mEvent); r.push_back(mCT); }
    if (k.o.type == CSIM) { if (k.o.eventMode) r.push_back(mEvent); r.push_back(mStep); }
    if (k.o.type == SE) r.push_back(mClock);
    r.push_back(mTerm);
    return r;
}

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

static void start(const Kind_ &k, Inst &in, Walker &w, Mode target, Rng &r) {
    in.label = "a";
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    w.init(k.l, k.o);
    w.records = false;
    St s = w.bring(in, target, r);
    if (s != sOK) fail("reach", "cannot reach %s: %s", modeName(target), stName(s));
}

// ------------------------------------------------------------- raw values --
static double wildF64(Rng &r) {
    switch (r.below(12)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return INFINITY;
    case 3: return -INFINITY;
    case 4: { uint64_t u = 0x7ff8000000000000ull | (r.u64() & 0x8007ffffffffffffull); double d; memcpy(&d, &u, 8); return d; }
    case 5: return DBL_MIN;
    case 6: return 4.9e-324;
    case 7: return r.chance(0.5) ? DBL_MAX : -DBL_MAX;
    case 8: { uint64_t u = r.u64(); double d; memcpy(&d, &u, 8); return std::isnan(d) ? 1.5 : d; }
    default: return niceValue(r);
    }
}
static float wildF32(Rng &r) {
    switch (r.below(9)) {
    case 0: return 0.0f;
    case 1: return -0.0f;
    case 2: return INFINITY;
    case 3: return FLT_MAX;
    case 4: return FLT_MIN;
    case 5: return 1e-45f;
    case 6: { uint32_t u = 0x7fc00000u | ((uint32_t)r.u64() & 0x803fffffu); float f; memcpy(&f, &u, 4); return f; }
    case 7: { uint32_t u = (uint32_t)r.u64(); float f; memcpy(&f, &u, 4); return std::isnan(f) ? 2.5f : f; }
    default: return (float)niceValue(r);
    }
}
// One legal value (all elements) as raw bytes.
static std::string legalValue(const ModelInfo &m, const Var &v, size_t n, Rng &r, bool wild) {
    std::string o;
    if (v.ty == STR) {
        size_t len = r.chance(0.1) ? 127 : r.chance(0.1) ? 0 : r.below(128);
        for (size_t i = 0; i < len; i++) o += (char)(1 + r.below(255));
        return o;
    }
    if (v.ty == BIN) {
        size_t len = r.chance(0.1) ? 128 : r.chance(0.1) ? 0 : r.below(129);
        for (size_t i = 0; i < len; i++) o += (char)r.u64();
        return o;
    }
    for (size_t i = 0; i < n; i++) {
        char b[8];
        switch (v.ty) {
        case F64: {
            double d = wild ? wildF64(r) : niceValue(r);
            memcpy(b, &d, 8);
            break;
        }
        case F32: { float f = wildF32(r); memcpy(b, &f, 4); break; }
        case BOOL: b[0] = (char)r.below(2); break;
        default: {
            uint64_t u = r.chance(0.2) ? 0 : r.chance(0.2) ? ~0ull : r.chance(0.2) ? 1ull << (8 * tySize(v.ty) - 1) : r.chance(0.2) ? (1ull << (8 * tySize(v.ty) - 1)) - 1 : r.u64();
            if (is(m, "Feedthrough") && v.vr == 33) u = 1 + r.below(2);
            if (is(m, "Stair")) u = (uint64_t)r.irange(-5, 9);
            if (v.kind == StructPar) u = r.below(6);
            memcpy(b, &u, 8);
        }
        }
        o.append(b, tySize(v.ty));
    }
    return o;
}

// Sets a group of variables of one type in one call; the caller's buffers are gone afterwards.
static St setGroup(Inst &in, Ty t, const std::vector<const Var *> &vs, const std::vector<std::string> &vals) {
    Buf<uint32_t> vr(vs.size());
    for (size_t i = 0; i < vs.size(); i++) vr[i] = vs[i]->vr;
    if (t == STR || t == BIN) {
        std::vector<std::unique_ptr<Buf<char>>> keep;
        Buf<const char *> p(vs.size());
        Buf<size_t> sz(vs.size());
        for (size_t i = 0; i < vs.size(); i++) {
            keep.emplace_back(new Buf<char>(vals[i].size() + (t == STR)));
            memcpy(keep[i]->p, vals[i].c_str(), vals[i].size() + (t == STR));
            p[i] = keep[i]->p;
            sz[i] = vals[i].size();
        }
        St s = in.set(t, vr.p, vs.size(), p.p, vs.size(), t == BIN ? sz.p : nullptr);
        for (auto &k : keep) memset(k->p, 'Z', k->n);
        return s;
    }
    std::string all;
    for (auto &x : vals) all += x;
    Buf<char> b(all.size());
    memcpy(b.p, all.data(), all.size());
    St s = in.set(t, vr.p, vs.size(), b.p, all.size() / tySize(t));
    memset(b.p, 0x5a, b.n);
    return s;
}
static St getGroup(Inst &in, Ty t, const std::vector<const Var *> &vs, const std::vector<size_t> &ns, std::vector<std::string> &out) {
    Buf<uint32_t> vr(vs.size());
    size_t total = 0;
    for (size_t i = 0; i < vs.size(); i++) { vr[i] = vs[i]->vr; total += ns[i]; }
    out.assign(vs.size(), "");
    if (t == STR || t == BIN) {
        Buf<const char *> p(vs.size());
        Buf<size_t> sz(vs.size());
        St s = in.get(t, vr.p, vs.size(), p.p, vs.size(), t == BIN ? sz.p : nullptr);
        if (s == sOK) for (size_t i = 0; i < vs.size(); i++) out[i] = t == STR ? std::string(p[i]) : std::string(p[i], sz[i]);
        return s;
    }
    Buf<char> b(total * tySize(t));
    St s = in.get(t, vr.p, vs.size(), b.p, total);
    size_t at = 0;
    for (size_t i = 0; i < vs.size(); i++) { out[i] = std::string(b.p + at, ns[i] * tySize(t)); at += ns[i] * tySize(t); }
    return s;
}

// -------------------------------------------------------------------- C04 --
struct Values {
    Inst &in;
    Walker &w;
    Snap now;
    Values(Inst &i, Walker &ww) : in(i), w(ww) {}
    const ModelInfo &m() { return *in.l->m; }
    bool independent(const Var &v) { return v.kind == FixedPar || v.kind == TunablePar || v.kind == StructPar || v.kind == Input || v.kind == StateVar || v.kind == Constant || (is(m(), "Stair") && v.vr == 1); }
    void sync() { now.clear(); if (w.readable() && !snapshot(in, now)) fail("read", "variables cannot be read in %s", modeName(w.mode)); }
    void check(const char *when) {
        if (!w.readable()) return;
        Snap s;
        if (!snapshot(in, s)) fail("read", "variables cannot be read %s in %s", when, modeName(w.mode));
        for (auto &v : m().vars(in.l->ver)) {
            if (!s.count(v.vr) || !now.count(v.vr)) continue;
            if (independent(v) && s[v.vr] != now[v.vr])
                fail("value", "%s FMI%d: %s is %s instead of %s %s in %s", m().name, in.l->ver, v.name, bytesText(v.ty, s[v.vr]).c_str(), bytesText(v.ty, now[v.vr]).c_str(), when, modeName(w.mode));
            if (is(m(), "Feedthrough") && v.kind == Output && s[v.vr] != now[v.vr - 1])
                fail("feedthrough", "FMI%d: %s is %s but its input is %s %s in %s", in.l->ver, v.name, bytesText(v.ty, s[v.vr]).c_str(), bytesText(v.ty, now[v.vr - 1]).c_str(), when, modeName(w.mode));
            count("values compared");
        }
        count("evaluations");
    }
    void randomSet(Rng &r) {
        // a group of settable variables of one type
        std::map<int, std::vector<const Var *>> by;
        for (auto &v : m().vars(in.l->ver)) if (settable(in.l->ver, w.type, w.mode, m(), v) == YES) by[v.ty].push_back(&v);
        if (by.empty()) return;
        auto it = by.begin();
        std::advance(it, (long)r.below(by.size()));
        std::vector<const Var *> g;
        std::vector<std::string> vals;
        size_t n = r.chance(0.4) ? 1 : 1 + r.below(6);
        for (size_t i = 0; i < n; i++) {
            const Var *v = it->second[r.below(it->second.size())];
            g.push_back(v);
            vals.push_back(legalValue(m(), *v, elements(m(), *v, w.dims), r, true));
        }
        St s = setGroup(in, (Ty)it->first, g, vals);
        if (s != sOK) fail("rejected", "setting %zu variables (first %s) of type %s in %s returned %s %s", n, g[0]->name, tyName[it->first], modeName(w.mode), stName(s), in.logs.empty() ? "" : in.logs.back().message.c_str());
        bool dims = false;
        for (size_t i = 0; i < n; i++) {
            now[g[i]->vr] = vals[i];
            if (g[i]->kind == StructPar) { uint64_t u; memcpy(&u, vals[i].data(), 8); if (is(m(), "StateSpace")) w.dims[g[i]->vr - 1] = u; dims = true; }
            if (is(m(), "StateSpace") && g[i]->vr == 8 && (w.mode == mInst || w.mode == mInit)) now[11] = vals[i];     // the start vector is the initial state
            feature("%s%d %d %d %s %zu %zu", m().name, in.l->ver, w.type, w.mode, g[i]->name, i, n);
            feature("%s%d %s %s", m().name, in.l->ver, g[i]->name, vals[i].c_str());
        }
        if (dims) { sync(); return; }
        if (r.chance(0.7)) check("after a set");      // or nothing is read before the next call
    }
    void randomGet(Rng &r) {
        if (!w.readable()) return;
        std::map<int, std::vector<const Var *>> by;
        for (auto &v : m().vars(in.l->ver)) if (v.kind != ClockVar) by[v.ty].push_back(&v);
        auto it = by.begin();
        std::advance(it, (long)r.below(by.size()));
        std::vector<const Var *> g;
        std::vector<size_t> ns;
        size_t n = 1 + r.below(8);
        for (size_t i = 0; i < n; i++) { g.push_back(it->second[r.below(it->second.size())]); ns.push_back(elements(m(), *g[i], w.dims)); }
        std::vector<std::string> out;
        St s = getGroup(in, (Ty)it->first, g, ns, out);
        if (s != sOK) fail("getrejected", "reading %zu variables of type %s in %s returned %s", n, tyName[it->first], modeName(w.mode), stName(s));
        for (size_t i = 0; i < n; i++) {
            std::string want;
            if (independent(*g[i]) && now.count(g[i]->vr)) want = now[g[i]->vr];
            else if (is(m(), "Feedthrough") && g[i]->kind == Output && now.count(g[i]->vr - 1)) want = now[g[i]->vr - 1];
            else continue;
            if (out[i] != want) fail("grouped", "%s FMI%d: %s read as number %zu of %zu is %s instead of %s in %s", m().name, in.l->ver, g[i]->name, i, n, bytesText(g[i]->ty, out[i]).c_str(), bytesText(g[i]->ty, want).c_str(), modeName(w.mode));
        }
        count("evaluations");
    }
};

static void caseValues(const Kind_ &k, Rng &r) {
    const ModelInfo &m = *k.l->m;
    Inst in;
    Walker w;
    start(k, in, w, mInst, r);
    Values v(in, w);
    if (k.l->ver == 3) v.sync();
    bool structural = k.l->ver == 3 && (is(m, "StateSpace") || is(m, "Roberts"));
    bool steady = is(m, "Feedthrough") || is(m, "StateSpace");     // stepping keeps everything that was set
    auto some = [&](size_t n) { for (size_t i = 0; i < n; i++) if (r.chance(0.6)) v.randomSet(r); else v.randomGet(r); };
    // a mode change alone changes no value
    auto go = [&](St s, Mode to, const char *what) {
        expect(s, sOK, "mode", what);
        bool was = w.readable();
        w.mode = to;
        if (!was && w.readable()) {
            Snap keep = v.now, fresh;
            if (!snapshot(in, fresh)) fail("read", "variables cannot be read in %s", modeName(to));
            for (auto &q : keep) fresh[q.first] = q.second;     // what was set before must still be there
            v.now = fresh;
        }
        v.check(what);
    };
    if (structural && r.chance(0.5)) {
        go(in.enterConfig(), mConfig, "after entering Configuration Mode");
        some(r.below(4));
        go(in.exitConfig(), mInst, "after leaving Configuration Mode");
        v.sync();
    }
    some(r.below(10));
    go(in.enterInit(0, false, 0), mInit, "after entering Initialization Mode");
    if (is(m, "BouncingBall") || is(m, "Stair") || is(m, "Dahlquist") || is(m, "VanDerPol") || is(m, "Roberts") || is(m, "Clocks") || steady) some(r.below(10));
    Mode first = k.o.type == ME ? mEvent : k.o.type == SE ? mClock : k.o.eventMode ? mEvent : mStep;
    go(in.exitInit(), first, "after leaving Initialization Mode");
    if (is(m, "Clocks")) { some(r.below(8)); return; }
    size_t rounds = 1 + r.below(5);
    double t = 0, cp = 0;
    for (size_t i = 0; i < rounds; i++) {
        some(r.below(6));
        if (w.mode == mEvent) {
            if (steady && r.chance(0.5)) { EventInfo e; expect(in.update(&e), sOK, "mode", "UpdateDiscreteStates"); v.check("after an event update"); }
            if (structural && k.o.type == ME && r.chance(0.2)) {
                go(in.enterConfig(), mReconf, "after entering Reconfiguration Mode");
                if (is(m, "StateSpace")) some(r.below(3));
                go(in.exitConfig(), mEvent, "after leaving Reconfiguration Mode");
                v.sync();
            }
            if (k.o.type == ME) go(in.enterCT(), mCT, "after entering Continuous-Time Mode");
            else go(in.enterStep(), mStep, "after entering Step Mode");
        } else if (w.mode == mCT) {
            t += 0.1;
            expect(in.setTime(t), sOK, "mode", "SetTime");
            bool a, b;
            expect(in.completed(&a, &b), sOK, "mode", "CompletedIntegratorStep");
            v.sync();
            some(r.below(5));
            go(in.enterEvent(), mEvent, "after entering Event Mode");
        } else if (w.mode == mStep && steady) {
            StepResult q;
            double h = m.step * (double)(r.chance(0.1) ? r.irange(50, 300) : r.irange(1, 4));
            expect(in.doStep(cp, h, &q), sOK, "mode", "DoStep");
            cp = q.early ? q.last : cp + h;
            // only time and, in StateSpace, the state may have changed
            Snap s;
            if (!snapshot(in, s)) fail("read", "variables cannot be read");
            v.now[0] = s[0];
            if (is(m, "StateSpace")) v.now[11] = s[11];
            v.check("after a step");
            if (k.o.eventMode && r.chance(0.3)) go(in.enterEvent(), mEvent, "after entering Event Mode");
        } else break;
    }
    some(r.below(4));
    if (r.chance(0.3) && (w.mode == mEvent || w.mode == mCT || w.mode == mStep)) {
        go(in.terminate(), mTerm, "after termination");
        v.randomGet(r);
    }
    sample("%s FMI%d %s eventMode=%d: values set and read through %zu rounds, ended in %s", m.name, k.l->ver, ifName(k.o.type), k.o.eventMode, rounds, modeName(w.mode));
}

// -------------------------------------------------------------------- C05 --
static const Ty types2[] = {F64, I32, BOOL, STR};
static bool known(const ModelInfo &m, int ver, uint32_t vr) { return m.var(ver, vr) != nullptr; }

static void caseMalformed(const Kind_ &k, Rng &r) {
    const ModelInfo &m = *k.l->m;
    auto modes = modesOf(k);
    int ver = k.l->ver;
    for (Mode mode : modes)
        for (int rep = 0; rep < 6; rep++) {
            traceClear();
            Inst in;
            Walker w;
            if (is(m, "StateSpace") && mode != mConfig && r.chance(0.5)) {
                start(k, in, w, mInst, r);
                expect(in.enterConfig(), sOK, "mode", "EnterConfigurationMode");
                for (uint32_t d = 0; d < 3; d++) {
                    w.dims[d] = r.chance(0.5) ? 5 : r.below(6);
                    expect(in.setU64(d + 1, w.dims[d]), sOK, "set", "setting a dimension");
                }
                expect(in.exitConfig(), sOK, "mode", "ExitConfigurationMode");
                if (w.bring(in, mode, r) != sOK) fail("reach", "cannot reach %s", modeName(mode));
            } else start(k, in, w, mode, r);
            if (ver == 2 && mode == mInst) continue;      // nothing can be read here
            Ty t = ver == 2 ? types2[r.below(4)] : (Ty)r.below(CLK);
            bool set = r.chance(0.5);
            Snap before, after;
            if (!snapshot(in, before)) fail("read", "variables cannot be read in %s", modeName(mode));
            // a well formed request of this type, if there is one
            std::vector<const Var *> ok;
            for (auto &v : m.vars(ver)) if (v.ty == t && (!set || settable(ver, k.o.type, mode, m, v) == YES)) ok.push_back(&v);
            std::vector<uint32_t> vr;
            size_t total = 0, n = ok.empty() ? 0 : r.below(4);
            for (size_t i = 0; i < n; i++) { const Var *v = ok[r.below(ok.size())]; vr.push_back(v->vr); total += elements(m, *v, w.dims); }
            int defect = (int)r.below(ver == 3 ? 5 : 4);
            const char *what = "";
            bool single = false, surplus = false, nullVr = false, nullVal = false;
            if (defect == 0) {
                uint32_t u;
                do u = r.chance(0.5) ? (uint32_t)r.below(60) : r.chance(0.5) ? (uint32_t)r.u64() : 995 + (uint32_t)r.below(1020); while (known(m, ver, u));
                if (is(m, "Feedthrough") && ver == 2 && u >= 1 && u <= 34) u += 100;
                if (r.chance(0.5)) { vr.clear(); total = 0; single = true; }
                vr.insert(vr.begin() + (long)r.below(vr.size() + 1), u);
                total += 1;
                what = "an unknown value reference";
            } else if (defect == 1) {
                std::vector<const Var *> other;
                for (auto &v : m.vars(ver)) if (v.ty != t) other.push_back(&v);
                if (other.empty()) continue;
                const Var *v = other[r.below(other.size())];
                if (is(m, "Clocks") && v->kind == ClockVar) continue;
                if (r.chance(0.5)) { vr.clear(); total = 0; single = true; }
                vr.insert(vr.begin() + (long)r.below(vr.size() + 1), v->vr);
                total += elements(m, *v, w.dims);
                what = "a value reference of another type";
            } else if (defect == 2) {
                if (vr.empty()) continue;
                nullVr = true;
                what = "no value references";
            } else if (defect == 3) {
                if (vr.empty() || !total) continue;
                nullVal = true;
                what = "no values";
            } else {
                if (vr.empty()) continue;
                single = vr.size() == 1;
                if (r.chance(0.5) && total > 0) total -= 1 + r.below(total); else { total += 1 + r.below(3); surplus = true; }
                what = "a wrong number of values";
            }
            Buf<uint32_t> vrb(vr.size());
            for (size_t i = 0; i < vr.size(); i++) vrb[i] = vr[i];
            Buf<size_t> sizes(total);
            size_t lg = in.errorLogs();
            St s;
            if (t == STR || t == BIN) {
                static const char *text = "ok";
                Buf<const char *> p(total);
                for (size_t i = 0; i < total; i++) { p[i] = text; sizes[i] = 2; }
                s = set ? in.set(t, nullVr ? nullptr : vrb.p, vr.size(), nullVal ? nullptr : p.p, total, sizes.p) : in.get(t, nullVr ? nullptr : vrb.p, vr.size(), nullVal ? nullptr : p.p, total, sizes.p);
            } else {
                Buf<char> b(total * tySize(t));
                for (size_t i = 0; i < total; i++) if (t == F64) { double d = 1; memcpy(b.p + i * 8, &d, 8); } else b[i * tySize(t)] = 1;
                s = set ? in.set(t, nullVr ? nullptr : vrb.p, vr.size(), nullVal ? nullptr : b.p, total) : in.get(t, nullVr ? nullptr : vrb.p, vr.size(), nullVal ? nullptr : b.p, total);
            }
            count("evaluations");
            feature("%s%d %d %d %s %d %s %zu %d", m.name, ver, k.o.type, mode, tyName[t], set, what, vr.size(), single);
            if (s != sError) fail("accepted", "%s%s with %s (%zu references, %zu values) in %s returned %s", set ? "Set" : "Get", tyName[t], what, vr.size(), total, modeName(mode), stName(s));
            if (in.errorLogs() == lg) fail("nolog", "%s%s with %s in %s was not reported", set ? "Set" : "Get", tyName[t], what, modeName(mode));
            if (!snapshot(in, after)) fail("read", "variables cannot be read after a malformed request");
            if (((single && !surplus) || !set) && before != after) fail("effect", "a rejected %s%s with %s changed %s", set ? "Set" : "Get", tyName[t], what, snapDiff(m, ver, before, after).c_str());
        }
    // clocks and their intervals
    if (ver == 3) for (int rep = 0; rep < 3; rep++) {
        traceClear();
        Mode mode = modes[r.below(modes.size())];
        Inst in;
        Walker w;
        start(k, in, w, mode, r);
        int f = (int)r.below(3);      // GetClock, SetClock, GetIntervalDecimal
        bool clocks = is(m, "Clocks");
        auto right = [&](uint32_t u) { return clocks && (f == 0 ? u == 1005 : f == 1 ? u >= 1001 && u <= 1003 : u == 1003); };
        size_t n = 1 + r.below(3), bad = r.below(n);
        Buf<uint32_t> vr(n);
        Buf<bool> val(n);
        Buf<double> iv(n);
        Buf<fmi3IntervalQualifier> ql(n);
        for (size_t i = 0; i < n; i++) { vr[i] = clocks ? f == 0 ? 1005 : f == 1 ? 1001 + (uint32_t)r.below(3) : 1003 : (uint32_t)r.below(8); val[i] = true; }
        bool nothing = r.chance(0.3);
        if (!nothing) do {
            auto &vs = m.vars(ver);
            vr[bad] = r.chance(0.5) ? vs[r.below(vs.size())].vr : r.chance(0.5) ? 995 + (uint32_t)r.below(20) : (uint32_t)r.u64();
        } while (right(vr[bad]) || (clocks && f != 1 && vr[bad] >= 1001 && vr[bad] <= 1003));
        Snap before, after;
        if (!snapshot(in, before)) fail("read", "variables cannot be read in %s", modeName(mode));
        size_t lg = in.errorLogs();
        const uint32_t *vp = vr.p;
        bool *bp = val.p;
        double *ip = iv.p;
        fmi3IntervalQualifier *qp = ql.p;
        if (nothing) switch (r.below(f == 2 ? 3 : 2)) { case 0: vp = nullptr; break; case 1: bp = nullptr; ip = nullptr; break; default: qp = nullptr; }
        static const char *names[] = {"GetClock", "SetClock", "GetIntervalDecimal"};
        St s;
        {
            InCall ic(names[f]);
            s = (St)(f == 0 ? k.l->a3.GetClock(in.c, vp, n, bp) : f == 1 ? k.l->a3.SetClock(in.c, vp, n, bp) : k.l->a3.GetIntervalDecimal(in.c, vp, n, ip, qp));
        }
        trace("%s of %zu clocks, %s -> %s", names[f], n, nothing ? "an array is missing" : std::to_string(vr[bad]).c_str(), stName(s));
        count("evaluations");
        count("clock requests");
        feature("%s %d %s %zu %zu %d", m.name, mode, names[f], n, bad, nothing);
        if (s != sError) fail("accepted", "%s %s in %s returned %s", names[f], nothing ? "without an array" : "with a reference that is no such clock", modeName(mode), stName(s));
        if (in.errorLogs() == lg) fail("nolog", "%s %s in %s was not reported", names[f], nothing ? "without an array" : "with a reference that is no such clock", modeName(mode));
        if (!snapshot(in, after)) fail("read", "variables cannot be read after a malformed request");
        if (n == 1 && before != after) fail("effect", "a rejected %s changed %s", names[f], snapDiff(m, ver, before, after).c_str());
    }
    // well formed requests never fail
    Inst in;
    Walker w;
    start(k, in, w, modes[r.below(modes.size())], r);
    if (!w.readable()) return;
    Values v(in, w);
    v.sync();
    for (int i = 0; i < 20; i++) v.randomGet(r);
    sample("%s FMI%d %s: malformed requests in %zu modes", m.name, ver, ifName(k.o.type), modes.size());
}

// -------------------------------------------------------------------- C06 --
struct Probe { const Var *v; std::string bytes; bool legalValue; };
static void addLimits(const ModelInfo &m, const Var &v, size_t n, std::vector<Probe> &out, Rng &r) {
    auto num = [&](uint64_t u, bool ok) { out.push_back({&v, std::string((char *)&u, tySize(v.ty)), ok}); };
    if (is(m, "Feedthrough") && v.vr == 33) {
        num(1, true); num(2, true); num(0, false); num(3, false); num((uint64_t)-1, false); num(r.u64() | 4, false);
        if (v.ty == I64) { num((1ull << 32) + 1, false); num((1ull << 32) + 2, false); num(1ull << 63, false); }
        return;
    }
    if (is(m, "Feedthrough") && v.kind == Input && v.ty == STR) {
        for (size_t len : {(size_t)0, (size_t)1, (size_t)126, (size_t)127}) out.push_back({&v, std::string(len, 's'), true});
        for (size_t len : {(size_t)128, (size_t)129, (size_t)200, (size_t)5000}) out.push_back({&v, std::string(len, 's'), false});
        return;
    }
    if (is(m, "Feedthrough") && v.kind == Input && v.ty == BIN) {
        for (size_t len : {(size_t)0, (size_t)1, (size_t)127, (size_t)128}) out.push_back({&v, std::string(len, 'b'), true});
        for (size_t len : {(size_t)129, (size_t)130, (size_t)256, (size_t)5000}) out.push_back({&v, std::string(len, 'b'), false});
        return;
    }
    if (is(m, "StateSpace") && v.kind == StructPar) {
        for (uint64_t u = 0; u <= 5; u++) num(u, true);
        num(6, false); num(7, false); num(255, false); num(256, false); num(1ull << 32, false); num((1ull << 32) + 2, false); num(~0ull, false); num(1ull << 63, false);
        return;
    }
    if (is(m, "Stair") && v.vr == 1) {
        for (int64_t u : {-5, 0, 1, 5, 9}) num((uint64_t)u, true);
        for (int64_t u : {11, 12, 100, 2147483647}) num((uint64_t)u, false);
        return;
    }
    if (is(m, "Roberts") && v.vr == 1) { num(0, true); num(1, true); return; }
    for (int i = 0; i < 2; i++) out.push_back({&v, legalValue(m, v, n, r, false), true});
}

static void caseLimits(const Kind_ &k, Rng &r, size_t part) {
    const ModelInfo &m = *k.l->m;
    int ver = k.l->ver;
    auto modes = modesOf(k);
    Mode mode = modes[part % modes.size()];
    uint64_t dims[3] = {3, 3, 3};
    for (auto &v : m.vars(ver)) {
        Tri tri = settable(ver, k.o.type, mode, m, v);
        if (tri == DONTCARE) continue;
        std::vector<Probe> ps;
        addLimits(m, v, elements(m, v, dims), ps, r);
        for (auto &p : ps) {
            traceClear();
            Inst in;
            Walker w;
            start(k, in, w, mode, r);
            // some history before
            if (mode == mStep && r.chance(0.5) && !w.ended) w.opStep(in, r);
            if (mode == mStep && w.ended) continue;
            if (mode == mCT && is(m, "BouncingBall") && r.chance(0.5)) in.setStates({r.range(-1, 1), r.range(-1, 1)});
            Snap before, after;
            bool rd = w.readable();
            // what is legal does not depend on the present value
            const Probe *prior = nullptr;
            if (tri == YES && r.chance(0.5)) {
                std::vector<const Probe *> good;
                for (auto &q : ps) if (q.legalValue) good.push_back(&q);
                prior = good[r.chance(0.3) ? good.size() - 1 : r.below(good.size())];
                if (setGroup(in, v.ty, {&v}, {prior->bytes}) != sOK) fail("rejected", "%s FMI%d: setting %s in %s (%s) failed", m.name, ver, v.name, modeName(mode), ifName(k.o.type));
                if (v.kind == StructPar && is(m, "StateSpace")) memcpy(&w.dims[v.vr - 1], prior->bytes.data(), 8);
            }
            if (rd && !snapshot(in, before)) fail("read", "variables cannot be read in %s", modeName(mode));
            size_t lg = in.errorLogs();
            // a variable that cannot be set does not even take the value it has
            std::string bytes = p.bytes, now;
            if (tri == NO && rd && r.chance(0.4) && readVar(in, v, elements(m, v, w.dims), &now) == sOK) bytes = now;
            St s = setGroup(in, v.ty, {&v}, {bytes});
            bool want = tri == YES && p.legalValue;
            count("evaluations");
            feature("%s%d %d%d %d %s %s %zu", m.name, ver, k.o.type, k.o.eventMode, mode, v.name, want ? "ok" : "refused", (v.ty == STR || v.ty == BIN) ? p.bytes.size() : hashStr(p.bytes.c_str()) % 97);
            std::string txt = bytesText(v.ty, bytes).substr(0, 80);
            if (want) {
                if (s != sOK) fail("rejected", "%s FMI%d: setting %s to %s in %s (%s) returned %s", m.name, ver, v.name, txt.c_str(), modeName(mode), ifName(k.o.type), stName(s));
                if (!rd) {
                    // becomes visible in Initialization Mode
                    expect(in.enterInit(0, false, 0), sOK, "mode", "EnterInitializationMode");
                    w.mode = mInit;
                }
                if (v.kind == StructPar && is(m, "StateSpace")) memcpy(&w.dims[v.vr - 1], p.bytes.data(), 8);
                if (v.kind == StructPar) {
                    uint64_t u = 0, g = 99;
                    memcpy(&u, p.bytes.data(), 8);
                    if (is(m, "StateSpace") && (in.getU64(v.vr, &g) != sOK || g != u)) fail("value", "%s is %llu after it was set to %llu", v.name, (unsigned long long)g, (unsigned long long)u);
                } else {
                    std::string got;
                    St q = readVar(in, v, elements(m, v, w.dims), &got);
                    if (q != sOK || got != p.bytes) fail("value", "%s is %s after it was set to %s", v.name, bytesText(v.ty, got).substr(0, 80).c_str(), txt.c_str());
                }
                continue;
            }
            if (s != sError) fail("accepted", "%s FMI%d: setting %s to %s in %s (%s) returned %s", m.name, ver, v.name, txt.c_str(), modeName(mode), ifName(k.o.type), stName(s));
            if (in.errorLogs() == lg) fail("nolog", "refused setting of %s in %s was not reported", v.name, modeName(mode));
            if (!snapshot(in, after)) fail("read", "variables cannot be read after a refused set");
            if (rd && before != after) fail("effect", "%s FMI%d: refused setting of %s to %s in %s changed %s", m.name, ver, v.name, txt.c_str(), modeName(mode), snapDiff(m, ver, before, after).c_str());
            if (!rd) {
                // compare with a new instance
                Inst ref;
                Walker wr;
                start(k, ref, wr, prior ? mode : mInit, r);
                if (prior) {
                    setGroup(ref, v.ty, {&v}, {prior->bytes});
                    if (mode == mConfig) expect(ref.exitConfig(), sOK, "mode", "ExitConfigurationMode");
                    expect(ref.enterInit(0, false, 0), sOK, "mode", "EnterInitializationMode");
                }
                Snap want2;
                snapshot(ref, want2);
                if (want2 != after) fail("effect", "%s FMI%d: refused setting of %s to %s in %s changed %s", m.name, ver, v.name, txt.c_str(), modeName(mode), snapDiff(m, ver, want2, after).c_str());
            }
        }
    }
    sample("%s FMI%d %s eventMode=%d: every variable set in %s", m.name, ver, ifName(k.o.type), k.o.eventMode, modeName(mode));
}

size_t driverCases() {
    if (P == 4) return kinds.size() * opt.scale(300, 6000);
    if (P == 5) return kinds.size() * opt.scale(90, 1500);
    return kinds.size() * 9 * opt.scale(6, 60);
}
void driverCase(size_t i, Rng &rng) {
    const Kind_ &k = kinds[i % kinds.size()];
    if (P == 4) caseValues(k, rng);
    else if (P == 5) caseMalformed(k, rng);
    else caseLimits(k, rng, i / kinds.size());
}

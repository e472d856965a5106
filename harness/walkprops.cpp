// C07 saved states, C08 serialized states, C09 reset, C10 instance isolation, C31 source code form,
// C32 FMUs behind the import library.
// Two histories that the property says are equivalent are driven by the same
// random importer; everything the FMU answers must be identical.
#include "walker.hpp"
#ifdef WITH_IMPORT
#include "imported.hpp"
#endif

struct Kind_ { Lib *l; InstOpt o; };
static std::vector<Kind_> kinds;
static int P;

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

// Any call at all, legal or not; what it answered goes into the transcript.
static void anyCall(Inst &in, Walker &w, Rng &r) {
    St s = sOK;
    const char *n = "";
    bool v3 = in.l->ver == 3;
    double x = 0;
    uint64_t what = r.below(v3 ? 12 : 10);
    // the import library loads only the FMI 2 functions of the interface type
    static const char *only2 = "CBMMMBBMBC";
    if (P == 32 && !v3 && only2[what] != 'B' && (only2[what] == 'M') != (in.o.type == ME)) what = 8;
    switch (what) {
    case 0: n = "any DoStep"; { StepResult q; s = in.doStep(w.cp, in.l->m->step, &q); x = q.last; } break;
    case 1: n = "any ExitInit"; s = in.exitInit(); break;
    case 2: n = "any EnterEvent"; s = in.enterEvent(); break;
    case 3: n = "any EnterCT"; s = in.enterCT(); break;
    case 4: n = "any SetTime"; s = in.setTime(w.time + 0.5); break;
    case 5: n = "any Terminate"; s = in.terminate(); break;
    case 6: n = "any EnterInit"; s = in.enterInit(0, true, 5); break;
    case 7: n = "any update"; { EventInfo e; s = in.update(&e); x = e.next + (e.values ? 100 : 0) + (e.terminate ? 200 : 0); } break;
    case 8: n = "any SetReal unknown"; s = in.setF64(77, 1.0); break;
    case 9: n = "any DoStep from elsewhere"; { StepResult q; s = in.doStep(w.cp + 0.5, in.l->m->step, &q); } break;
    case 10: n = "any EnterConfig"; s = in.enterConfig(); break;
    default: n = "any EnterStep"; s = in.enterStep(); break;
    }
    if (s == sError) x = 0;
    w.note("%s -> %s %.17g", n, stName(s), x);
    if (s != sError) { w.note("(accepted)"); }
    w.opSnapshot(in);
}

static size_t plan(Rng &r) { return r.chance(0.25) ? r.below(4) : r.below(40); }

static void start(const Kind_ &k, Inst &in, Walker &w, const char *label, Rng &r) {
    in.label = label;
    if (!in.open(k.l, k.o)) fail("instantiate", "instantiation failed");
    w.init(k.l, k.o);
    w.allowP3 = k.o.type == SE && r.chance(0.05) && !tiredOfPartition3();
    w.p3left = 1;
}

static void diff(const char *key, const char *what, const std::string &a, const std::string &b) {
    if (a == b) return;
    size_t i = 0, ls = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') ls = i + 1; i++; }
    auto line = [](const std::string &s, size_t p) { return p < s.size() ? s.substr(p, s.find('\n', p) - p) : std::string("(end)"); };
    size_t ps = ls;
    for (int k = 0; k < 4 && ps > 0; k++) { ps--; while (ps > 0 && a[ps - 1] != '\n') ps--; }
    fail(key, "%s: expected \"%s\" but got \"%s\"; before that:\n%s", what, line(a, ls).c_str(), line(b, ls).c_str(), a.substr(ps, ls - ps).c_str());
}

// Some history that moves the instance far away from where it was.
static void disturb(Inst &in, Walker w, Rng &r) {
    w.records = false;
    w.allowDebug = false;
    w.run(in, r, r.below(25));
    if (r.chance(0.4)) anyCall(in, w, r);
    if (r.chance(0.3)) in.reset();
    if (r.chance(0.2)) in.terminate();
}

static std::string follow(Inst &in, Walker w, Rng r, size_t n) {
    w.log.clear();
    w.p3left = 1;
    if (w.readable()) w.opSnapshot(in);
    w.run(in, r, n);
    anyCall(in, w, r);
    return w.log;
}

static void caseState(const Kind_ &k, Rng &r, bool serial) {
    Inst a;
    Walker w;
    start(k, a, w, "a", r);
    w.run(a, r, plan(r));
    if (r.chance(0.08) && P == 7) { a.setF64(77, 1.0); w.mode = mTerm; }   // an error terminates the instance
    w.log.clear();
    Snap before, after;
    bool rd = w.readable();
    if (rd && !snapshot(a, before)) fail("read", "variables cannot be read in %s", modeName(w.mode));
    void *s = nullptr;
    trace("--- save in %s", modeName(w.mode));
    expect(a.getState(&s), sOK, "save", "GetFMUState");
    if (!s) fail("save", "GetFMUState returned OK but no state");
    if (rd && !snapshot(a, after)) fail("read", "variables cannot be read after saving");
    if (before != after) fail("disturbed", "saving the state changed %s", snapDiff(*k.l->m, k.l->ver, before, after).c_str());
    count("saves");
    Walker saved = w;
    Rng fr(r.u64());
    size_t n = 3 + r.below(30);
    Buf<unsigned char> *bytes = nullptr;
    size_t off = 0;
    std::vector<void *> more;
    if (serial) {
        size_t sz = 0;
        expect(a.stateSize(s, &sz), sOK, "size", "SerializedFMUStateSize");
        if (sz == 0 || sz > (1u << 20)) fail("size", "impossible size %zu of a serialized state", sz);
        off = r.below(8);   // bytes may lie anywhere
        bytes = new Buf<unsigned char>(off + sz);
        bool later = r.chance(0.4);     // the instance has moved on when its state is serialized
        if (later) { disturb(a, w, r); if (r.chance(0.3)) a.setF64(77, 1.0); }
        expect(a.serialize(s, bytes->p + off, sz), sOK, "serialize", "SerializeFMUState");
        if (later) expect(a.setState(s), sOK, "restore", "SetFMUState of the serialized state");
        after.clear();
        if (rd && !snapshot(a, after)) fail("read", "variables cannot be read after serializing");
        if (rd && before != after) fail("disturbed", "serializing changed %s", snapDiff(*k.l->m, k.l->ver, before, after).c_str());
        count("serializations");
    }
    // what the undisturbed instance does next
    trace("--- continue");
    std::string t1 = follow(a, saved, fr, n);
    count("evaluations");
    feature("%s%d %d%d%d saved %d %s", k.l->m->name, k.l->ver, k.o.type, k.o.eventMode, k.o.early, saved.mode, saved.lastOp);
    for (char *ln = strdup(t1.c_str()), *p = ln, *q; p; p = q) {
        if ((q = strchr(p, '\n'))) *q++ = 0;
        if (strstr(p, " -> ")) feature("%s%d %d%d %d then %s", k.l->m->name, k.l->ver, k.o.type, k.o.eventMode, saved.mode, p);
        if (!q) free(ln);
    }
    sample("%s FMI%d %s eventMode=%d: state saved in %s, %zu further operations repeated after restoring", k.l->m->name, k.l->ver, ifName(k.o.type), k.o.eventMode, modeName(saved.mode), n);
    if (!serial) {
        size_t times = 1 + r.below(3);
        for (size_t i = 0; i < times; i++) {
            trace("--- disturb and restore");
            disturb(a, saved, r);
            expect(a.setState(s), sOK, "restore", "SetFMUState");
            diff("restore", "after restoring the state the instance behaves differently", t1, follow(a, saved, fr, n));
            count("evaluations");
        }
        // saving over an existing state and restoring another one
        if (r.chance(0.5)) {
            disturb(a, saved, r);
            void *s2 = nullptr;
            expect(a.getState(&s2), sOK, "save", "GetFMUState");
            expect(a.setState(s), sOK, "restore", "SetFMUState");
            expect(a.getState(&s2), sOK, "save", "GetFMUState into an existing state");
            if (!s2) fail("save", "GetFMUState into an existing state lost it");
            disturb(a, saved, r);
            expect(a.setState(s2), sOK, "restore", "SetFMUState of the renewed state");
            diff("restore", "after restoring a renewed state the instance behaves differently", t1, follow(a, saved, fr, n));
            expect(a.freeState(&s2), sOK, "free", "FreeFMUState");
            if (s2) fail("free", "FreeFMUState left the pointer");
            count("evaluations");
        }
        Inst b;
        Walker wb;
        Kind_ other = k;
        if (k.l->ver == 3 && k.o.type == CSIM && k.l->m->eventMode && r.chance(0.4)) other.o.eventMode = !k.o.eventMode;   // not bound to the flags
        start(other, b, wb, "b", r);
        wb.records = false;
        wb.run(b, r, r.below(20));
        trace("--- restore in another instance");
        expect(b.setState(s), sOK, "restore", "SetFMUState in another instance");
        if (r.chance(0.5)) { disturb(a, saved, r); }
        diff("carry", "a state restored in another instance behaves differently", t1, follow(b, saved, fr, n));
        count("evaluations");
        expect(a.freeState(&s), sOK, "free", "FreeFMUState");
        if (s) fail("free", "FreeFMUState left the pointer");
        return;
    }
    // C08
    size_t sz = bytes->n - off;
    std::string orig((char *)bytes->p + off, sz);
    bool keepSource = r.chance(0.5);
    if (keepSource) {
        disturb(a, saved, r);
        expect(a.setState(s), sOK, "restore", "SetFMUState of the serialized state");
        diff("source", "the source of a serialization behaves differently", t1, follow(a, saved, fr, n));
    }
    expect(a.freeState(&s), sOK, "free", "FreeFMUState");
    Inst b;
    Walker wb;
    start(k, b, wb, "b", r);
    wb.records = false;
    wb.run(b, r, r.below(20));
    bool same = r.chance(0.4);
    Inst &t = same ? a : b;
    if (same) disturb(a, saved, r); else if (r.chance(0.7)) a.free();
    void *d = nullptr;
    Snap x, y;
    bool rb = !same && wb.readable();
    if (rb && !snapshot(t, x)) fail("read", "variables cannot be read");
    trace("--- deserialize in %s", same ? "the same instance" : "another instance");
    bool into = r.chance(0.3);
    if (into) expect(t.getState(&d), sOK, "save", "GetFMUState");
    expect(t.deserialize(bytes->p + off, sz, &d), sOK, "deserialize", into ? "DeserializeFMUState into an existing state" : "DeserializeFMUState");
    if (!d) fail("deserialize", "DeserializeFMUState returned OK but no state");
    if (rb && !snapshot(t, y)) fail("read", "variables cannot be read after deserializing");
    if (rb && x != y) fail("disturbed", "deserializing changed %s", snapDiff(*k.l->m, k.l->ver, x, y).c_str());
    if (std::string((char *)bytes->p + off, sz) != orig) fail("source", "deserializing changed the buffer");
    delete bytes;     // the state must not refer to the buffer
    expect(t.setState(d), sOK, "restore", "SetFMUState of a deserialized state");
    diff("roundtrip", "a deserialized state behaves differently", t1, follow(t, saved, fr, n));
    count("evaluations");
    disturb(t, saved, r);
    expect(t.setState(d), sOK, "restore", "SetFMUState of a deserialized state, again");
    diff("roundtrip", "a deserialized state restored again behaves differently", t1, follow(t, saved, fr, n));
    count("evaluations");
    // a second serialization of the deserialized state has the same size and content
    size_t sz2 = 0;
    expect(t.setState(d), sOK, "restore", "SetFMUState");
    expect(t.stateSize(d, &sz2), sOK, "size", "SerializedFMUStateSize");
    {
        Buf<unsigned char> b2(sz2);
        expect(t.serialize(d, b2.p, sz2), sOK, "serialize", "SerializeFMUState of a deserialized state");
        void *d2 = nullptr;
        expect(t.deserialize(b2.p, sz2, &d2), sOK, "deserialize", "DeserializeFMUState");
        expect(t.setState(d2), sOK, "restore", "SetFMUState");
        diff("roundtrip", "a state that was serialized twice behaves differently", t1, follow(t, saved, fr, n));
        expect(t.freeState(&d2), sOK, "free", "FreeFMUState");
        count("evaluations");
    }
    // wrong sizes, with a buffer that has exactly the announced size
    size_t wrong = r.chance(0.3) ? 0 : r.chance(0.5) ? sz - 1 - r.below(16) : r.chance(0.5) ? sz + 1 + r.below(16) : r.below(sz);
    {
        Buf<unsigned char> wbuf(wrong);
        memset(wbuf.p, 0x5a, wrong);
        size_t lg = t.errorLogs();
        trace("--- wrong size %zu instead of %zu", wrong, sz);
        expect(t.serialize(d, wbuf.p, wrong), sError, "wrongsize", "SerializeFMUState with a wrong size");
        if (t.errorLogs() == lg) fail("nolog", "SerializeFMUState with a wrong size was not reported");
        for (size_t i = 0; i < wrong; i++) if (wbuf[i] != 0x5a) fail("wrongsize", "rejected SerializeFMUState wrote to the buffer");
        memcpy(wbuf.p, orig.data(), wrong < sz ? wrong : sz);
        void *d3 = nullptr;
        lg = t.errorLogs();
        expect(t.reset(), sOK, "reset", "Reset");
        St st = t.deserialize(wbuf.p, wrong, &d3);
        expect(st, sError, "wrongsize", "DeserializeFMUState with a wrong size");
        if (d3) fail("wrongsize", "rejected DeserializeFMUState returned a state");
        if (t.errorLogs() == lg) fail("nolog", "DeserializeFMUState with a wrong size was not reported");
        count("evaluations", 2);
        feature("%s%d wrong size %d", k.l->m->name, k.l->ver, wrong == 0 ? 0 : wrong == sz - 1 ? 1 : wrong == sz + 1 ? 2 : wrong < sz ? 3 : 4);
    }
    expect(t.setState(d), sOK, "restore", "SetFMUState after errors");
    diff("roundtrip", "a deserialized state restored after errors behaves differently", t1, follow(t, saved, fr, n));
    expect(t.freeState(&d), sOK, "free", "FreeFMUState");
}

static void caseReset(const Kind_ &k, Rng &r) {
    Inst a, b;
    Walker w;
    start(k, a, w, "a", r);
    size_t resets = 1 + r.below(3);
    Rng fr(r.u64());
    size_t n = 5 + r.below(45);
    std::string modes;
    for (size_t i = 0; i < resets; i++) {
        w.records = false;
        w.run(a, r, plan(r));
        if (r.chance(0.3)) anyCall(a, w, r);
        modes += std::string(modeName(w.mode)) + " ";
        feature("%s%d %d%d%d reset in %d after %s, %zu", k.l->m->name, k.l->ver, k.o.type, k.o.eventMode, k.o.early, w.mode, w.lastOp, i);
        expect(a.reset(), sOK, "reset", "Reset");
        count("resets");
        Walker f;
        f.init(k.l, k.o);
        f.allowP3 = w.allowP3;
        w = f;
    }
    Walker wf;
    wf.init(k.l, k.o);
    wf.allowP3 = w.allowP3;
    wf.bare = k.l->ver == 2 && r.chance(0.15);
    trace("--- after the last reset");
    std::string ta = follow(a, wf, fr, n);
    trace("--- a new instance");
    Walker wb;
    start(k, b, wb, "b", r);
    std::string tb = follow(b, wf, fr, n);
    diff("reset", "a reset instance behaves differently from a new one", tb, ta);
    count("evaluations");
    for (char *ln = strdup(ta.c_str()), *p = ln, *q; p; p = q) {
        if ((q = strchr(p, '\n'))) *q++ = 0;
        if (strstr(p, " -> ")) feature("%s%d %d%d then %s", k.l->m->name, k.l->ver, k.o.type, k.o.eventMode, p);
        if (!q) free(ln);
    }
    sample("%s FMI%d %s eventMode=%d: resets in %s, then %zu operations compared with a new instance", k.l->m->name, k.l->ver, ifName(k.o.type), k.o.eventMode, modes.c_str(), n);
}

static std::string logText(const Inst &in) {
    std::string o;
    for (auto &x : in.logs) o += std::to_string(x.status) + "|" + x.category + "|" + x.inst + "|" + x.message + "\n";
    return o;
}

static void caseIsolation(const Kind_ &k, Rng &r) {
    size_t ni = 2 + r.below(4);
    struct One { Kind_ k; uint64_t seed; size_t n; std::string solo, soloLog; bool badCalls; };
    std::vector<One> all;
    std::vector<Kind_> same;
    for (auto &x : kinds) if (!strcmp(x.l->m->name, k.l->m->name) && x.l->ver == k.l->ver) same.push_back({k.l, x.o});
    for (size_t i = 0; i < ni; i++) {
        One o{r.chance(0.5) ? k : same[r.below(same.size())], r.u64(), 4 + r.below(40), "", "", r.chance(0.3)};
        o.k.o.name = "instance" + std::to_string(i);
        o.k.o.logging = r.chance(0.5);
        all.push_back(o);
    }
    auto begin = [&](One &o, Inst &in, Walker &w) {
        in.label = o.k.o.name;
        if (!in.open(o.k.l, o.k.o)) fail("instantiate", "instantiation failed");
        w.init(o.k.l, o.k.o);
        w.allowDebug = true;
    };
    for (auto &o : all) {
        Inst in;
        Walker w;
        Rng q(o.seed);
        trace("--- alone");
        begin(o, in, w);
        for (size_t i = 0; i < o.n; i++) {
            w.step(in, q);
            if (o.badCalls && i == o.n / 2) { anyCall(in, w, q); in.reset(); Walker f; f.init(o.k.l, o.k.o); f.log = w.log; f.allowDebug = true; w = f; }
        }
        o.solo = w.log;
        o.soloLog = logText(in);
    }
    trace("--- interleaved");
    std::vector<std::unique_ptr<Inst>> ins(ni);
    std::vector<Walker> ws(ni);
    std::vector<Rng> qs;
    std::vector<size_t> at(ni, 0);
    std::vector<std::string> logs(ni);
    for (auto &o : all) qs.push_back(Rng(o.seed));
    size_t live = ni;
    uint64_t order = 0;
    while (live) {
        size_t i = r.below(ni);
        One &o = all[i];
        if (at[i] > o.n) continue;
        if (!ins[i]) { ins[i].reset(new Inst); begin(o, *ins[i], ws[i]); }
        size_t burst = 1 + r.below(3);
        for (; burst && at[i] < o.n; burst--) {
            ws[i].step(*ins[i], qs[i]);
            order = mix(order, i);
            if (o.badCalls && at[i] == o.n / 2) {
                anyCall(*ins[i], ws[i], qs[i]);
                ins[i]->reset();
                Walker f;
                f.init(o.k.l, o.k.o);
                f.log = ws[i].log;
                f.allowDebug = true;
                ws[i] = f;
            }
            at[i]++;
        }
        if (at[i] == o.n && burst) {
            logs[i] = logText(*ins[i]);
            ins[i]->free();
            at[i]++;
            live--;
        }
    }
    for (size_t i = 0; i < ni; i++) {
        diff("influence", "an instance behaves differently when others are active", all[i].solo, ws[i].log);
        diff("logs", "an instance received other messages when others are active", all[i].soloLog, logs[i]);
        count("evaluations");
    }
    feature(mix(order, hashStr(k.l->m->name) + (uint64_t)k.l->ver));
    sample("%zu instances of %s FMI%d in one interleaving", ni, k.l->m->name, k.l->ver);
}

// Notes the intermediate updates and what can be read in them.
static void watchUpdates(Inst &in, Walker &w) {
    in.onIu = [&w](Inst &q, const IuRec &u, bool *, double *) {
        Snap s;
        uint64_t h = 1;
        bool was = q.quiet;
        q.quiet = true;
        snapshot(q, s);
        q.quiet = was;
        for (auto &x : s) {
            double d = 0;
            if (x.second.size() == sizeof d) memcpy(&d, x.second.data(), sizeof d);
            h = mix(h, x.first);
            if (d == d) for (unsigned char b : x.second) h = mix(h, b);
        }
        w.note("update at %.17g: %d%d%d%d %016llx", u.t, u.setReq, u.getAllowed, u.finished, u.canEarly, (unsigned long long)h);
        count("intermediate updates");
    };
}

// The FMU compiled from the sources it carries, by different compilers.
static void caseSources(const Kind_ &k, Rng &r) {
    static const char *variants[] = {"gcc", "gcc-O3", "clang"};
    const char *variant = variants[r.below(3)];
    std::string name = k.l->m->name, base = opt.extra + "/" + variant + "/fmi" + std::to_string(k.l->ver) + "/" + name + ".so";
    if (FILE *e = fopen((base + ".err").c_str(), "r")) {
        char buf[2000];
        size_t n = fread(buf, 1, sizeof buf - 1, e);
        buf[n] = 0;
        fclose(e);
        fail("compile", "the source form of %s FMI%d (%s) %s", name.c_str(), k.l->ver, variant, buf);
    }
    Kind_ s = k;
    s.l = libFrom(k.l->m->name, k.l->ver, base, name + "_");
    s.o.logging = r.chance(0.5);
    s.o.name = "instance";
    s.o.useIu = r.chance(0.3);
    Rng fr(r.u64());
    size_t n = 4 + r.below(60), bad = r.below(60);
    std::string t[2], l[2];
    for (int i = 0; i < 2; i++) {
        Inst in;
        Walker w;
        Rng q = fr;
        trace("--- %s", i ? "source code form" : "binary form");
        in.label = i ? "source" : "binary";
        Kind_ kk = s;
        if (!i) { kk = s; kk.l = k.l; }
        watchUpdates(in, w);
        if (!in.open(kk.l, kk.o)) fail("instantiate", "instantiation of the %s form failed", in.label.c_str());
        w.init(kk.l, kk.o);
        w.allowDebug = true;
        for (size_t j = 0; j < n; j++) {
            w.step(in, q);
            if (j == bad) { anyCall(in, w, q); in.reset(); Walker f; f.init(kk.l, kk.o); f.log = w.log; f.allowDebug = true; w = f; }
        }
        anyCall(in, w, q);
        // the sign and the payload of a NaN are up to the compiler
        for (size_t p = 0, e; (p = w.log.find("nan:", p)) != std::string::npos; p++) {
            for (e = p + 4; e < w.log.size() && isxdigit(w.log[e]); e++) ;
            w.log.erase(p + 3, e - p - 3);
        }
        t[i] = w.log;
        l[i] = logText(in);
        if (!i) for (char *ln = strdup(w.log.c_str()), *p = ln, *e; p; p = e) {
            if ((e = strchr(p, '\n'))) *e++ = 0;
            if (strstr(p, " -> ")) feature("%s%d %s %d%d %s", name.c_str(), k.l->ver, variant, k.o.type, k.o.eventMode, p);
            if (!e) free(ln);
        }
    }
    diff("source", "the source code form behaves differently from the binary form", t[0], t[1]);
    diff("logs", "the source code form logs other messages than the binary form", l[0], l[1]);
    count("evaluations");
    count(variant);
    sample("%s FMI%d %s compiled from its sources (%s): %zu operations answered as by the binary", name.c_str(), k.l->ver, ifName(k.o.type), variant, n);
}

#ifdef WITH_IMPORT
// The same history made directly and through the import library.
static void caseImported(const Kind_ &k, Rng &r) {
    Kind_ s = k;
    s.l = imported::lib(k.l);
    s.o.logging = r.chance(0.5);
    s.o.name = "instance";
    s.o.useIu = r.chance(0.3);
    imported::callLog = r.chance(0.5);
    Rng fr(r.u64());
    size_t n = 4 + r.below(60), bad = r.below(60), save = r.below(30), load = save + r.below(30);
    bool serial = r.chance(0.5);
    std::string t[2], l[2];
    uint64_t before = imported::logged;
    for (int i = 0; i < 2; i++) {
        Inst in;
        Walker w, saved;
        Rng q = fr;
        void *st = nullptr;
        trace("--- %s", i ? "through the import library" : "directly");
        in.label = i ? "imported" : "direct";
        Kind_ kk = s;
        if (!i) { kk = s; kk.l = k.l; }
        watchUpdates(in, w);
        if (!in.open(kk.l, kk.o)) fail("instantiate", "%s instantiation failed", in.label.c_str());
        w.init(kk.l, kk.o);
        w.allowDebug = true;
        for (size_t j = 0; j < n; j++) {
            w.step(in, q);
            if (j == save) {
                w.note("save -> %s", stName(in.getState(&st)));
                saved = w;
                if (serial && st) {
                    size_t sz = 0;
                    w.note("size -> %s", stName(in.stateSize(st, &sz)));
                    Buf<unsigned char> b(sz);
                    w.note("serialize -> %s", stName(in.serialize(st, b.p, sz)));
                    w.note("free -> %s", stName(in.freeState(&st)));
                    w.note("deserialize -> %s", stName(in.deserialize(b.p, sz, &st)));
                }
            }
            if (j == bad) { anyCall(in, w, q); in.reset(); Walker f; f.init(kk.l, kk.o); f.log = w.log; f.allowDebug = true; w = f; }
            if (j == load && st) { w.note("restore -> %s", stName(in.setState(st))); std::string log = w.log; w = saved; w.log = log; }
        }
        anyCall(in, w, q);
        if (st) w.note("free -> %s", stName(in.freeState(&st)));
        t[i] = w.log;
        l[i] = logText(in);
        if (i && imported::of((FMIInstance *)in.c)->strayed) fail("calllog", "a log message does not begin with the name of a function");
        if (!i) for (char *ln = strdup(w.log.c_str()), *p = ln, *e; p; p = e) {
            if ((e = strchr(p, '\n'))) *e++ = 0;
            if (strstr(p, " -> ")) feature("%s%d %d%d %s", k.l->m->name, k.l->ver, k.o.type, k.o.eventMode, p);
            if (!e) free(ln);
        }
    }
    diff("imported", "the FMU answers differently through the import library", t[0], t[1]);
    diff("messages", "other messages arrive through the import library", l[0], l[1]);
    count("evaluations");
    count("histories made directly and through the library");
    count("logged calls", imported::logged - before);
    sample("%s FMI%d %s through the import library: %zu operations answered as directly", k.l->m->name, k.l->ver, ifName(k.o.type), n);
}
#endif

size_t driverCases() { return kinds.size() * opt.scale(P == 10 ? 150 : P == 31 || P == 32 ? 120 : 250, 4000); }
void driverCase(size_t i, Rng &rng) {
    const Kind_ &k = kinds[i % kinds.size()];
    switch (P) {
    case 7: caseState(k, rng, false); break;
    case 8: caseState(k, rng, true); break;
    case 9: caseReset(k, rng); break;
    case 31: caseSources(k, rng); break;
#ifdef WITH_IMPORT
    case 32:
        if (i / kinds.size() % 3) { caseImported(k, rng); break; }
        imported::callLog = rng.chance(0.5);
        caseIsolation({imported::lib(k.l), k.o}, rng);
        break;
#endif
    default: caseIsolation(k, rng); break;
    }
}

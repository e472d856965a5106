// C21 instantiation, C22 logging, C23 the Resource FMU.
#include "player.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

static int P;
static std::vector<Lib *> L;

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    if (P == 23) L = {lib("Resource", 2), lib("Resource", 3)};
    else L = allLibs();
    for (Lib *l : L)
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

// ------------------------------------------------------------------ C21
static std::string anyText(Rng &r, size_t max) {
    std::string s;
    for (size_t n = 1 + r.below(max); n; n--) s += (char)(1 + r.below(255));
    return s;
}
static void caseInstantiate(size_t i, Rng &r) {
    Lib *l = L[i % L.size()];
    const ModelInfo &m = *l->m;
    InstOpt o;
    o.type = (IfType)r.below(l->ver == 2 ? 2 : 3);
    o.eventMode = r.chance(0.4);
    o.early = r.chance(0.5);
    o.logging = r.chance(0.5);
    o.visible = r.chance(0.5);
    o.nullLogger = r.chance(0.1);
    o.useIu = r.chance(0.3);
    o.nullResource = !is(m, "Resource") && r.chance(0.3);
    bool nameOk = true, tokenOk = true;
    std::string good = m.token;
    switch (r.below(8)) {
    case 0: o.name = ""; nameOk = false; break;
    case 1: o.nullName = true; nameOk = false; break;
    case 2: o.name = anyText(r, 20); break;
    case 3: o.name = anyText(r, 5000); break;
    case 4: { static const char *odd[] = {"%s%n%d", " ", "\t\n", "a b", "/", ".", "0", "-"}; o.name = odd[r.below(8)]; break; }
    default: break;
    }
    switch (r.below(14)) {
    case 0: o.nullToken = true; tokenOk = false; break;
    case 1: o.emptyToken = true; tokenOk = false; break;
    case 2: case 3: { o.token = good; size_t k = r.below(good.size()); o.token[k] = (char)(o.token[k] == 'x' ? 'y' : 'x'); tokenOk = false; break; }
    case 4: o.token = good.substr(0, 1 + r.below(good.size() - 1)); tokenOk = false; break;
    case 5: o.token = good + (r.chance(0.5) ? " " : "}"); tokenOk = false; break;
    case 6: { o.token = good; for (auto &c : o.token) c = (char)tolower(c); tokenOk = o.token == good; break; }
    case 7: { auto &ms = models(); o.token = ms[r.below(ms.size())].token; tokenOk = o.token == good; break; }
    case 8: o.token = anyText(r, 100); tokenOk = false; break;
    default: break;
    }
    bool type = o.type == ME ? m.me : o.type == CSIM ? m.cs : m.se;
    bool event = !(l->ver == 3 && o.type == CSIM && o.eventMode) || m.eventMode;
    bool logger = l->ver == 3 || !o.nullLogger;
    bool want = nameOk && tokenOk && type && event && logger;
    std::string name = o.name;
    Inst in;
    in.label = "x";
    bool got = in.open(l, o);
    const char *who = m.name;
    trace("name ok %d, token ok %d, type %d, event %d, logger %d", nameOk, tokenOk, type, event, logger);
    if (got != want) fail(want ? "refused" : "accepted", "%s FMI%d %s: instantiation %s (name ok %d, token ok %d, type supported %d, event mode ok %d)", who, l->ver, ifName(o.type),
                          got ? "succeeded" : "failed", nameOk, tokenOk, type, event);
    count("evaluations");
    feature("%s%d %d %d%d%d%d%d %d%d", who, l->ver, o.type, nameOk, tokenOk, type, event, o.nullLogger, o.eventMode, o.early);
    if (!got) {
        if (type && !o.nullLogger && in.errorLogs() == 0) fail("silent", "%s FMI%d: failed instantiation reports nothing", who, l->ver);
        for (auto &g : in.logs) {
            if (g.status != sError) fail("log status", "failed instantiation is logged with status %d", g.status);
            if (l->ver == 2 && nameOk && g.inst != name) fail("log name", "failed instantiation is logged for another instance name");
        }
        return;
    }
    if (!in.logs.empty() && !o.logging) fail("noise", "%s FMI%d: a good instantiation logs \"%s\"", who, l->ver, in.logs[0].message.c_str());
    // it is in its initial mode: initialization works, nothing else was prepared
    St s = in.enterInit(0, true, 100);
    if (s != sOK) fail("mode", "%s FMI%d: EnterInitializationMode after instantiation returns %s", who, l->ver, stName(s));
    size_t before = in.errorLogs();
    if (r.chance(0.5)) {
        // an error is reported with the right environment and name
        uint32_t vr = 4000000000u;
        double v = 0;
        if (in.get(F64, &vr, 1, &v, 1) != sError) fail("error", "%s FMI%d: unknown variable accepted", who, l->ver);
        if (o.nullLogger) { if (!in.logs.empty()) fail("logger", "logged without logger"); }
        else if (in.errorLogs() == before) fail("silent", "%s FMI%d: an error of a new instance is not reported", who, l->ver);
        for (auto &g : in.logs) if (l->ver == 2 && g.inst != name) fail("log name", "%s: instance name in the log is \"%s\" instead of \"%s\"", who, g.inst.c_str(), name.c_str());
    } else {
        s = in.exitInit();
        if (s != sOK) fail("mode", "%s FMI%d: ExitInitializationMode after instantiation returns %s", who, l->ver, stName(s));
    }
    sample("%s FMI%d %s, event mode %d: instance, name of %zu characters", who, l->ver, ifName(o.type), o.eventMode, name.size());
    in.free();
}

// ------------------------------------------------------------------ C22
struct Watch {
    Inst *in = nullptr;
    bool errorsOn = true;
    size_t seen = 0;
    std::string bad, key;
    uint64_t errors = 0, good = 0;
};
static Watch wt;
static const char *silentErrors[] = {
    // what the models leave unimplemented
    "rare function",
};
static void onLine(const char *line) {
    if (!wt.in || !wt.bad.empty()) return;
    const char *arrow = strstr(line, " -> ");
    if (!strncmp(line, "reading ", 8)) { wt.seen = wt.in->logs.size(); return; }     // snapshots make their calls silently
    if (!arrow || strncmp(line, "x ", 2)) return;
    bool err = !strncmp(arrow + 4, "Error", 5), ok = !strncmp(arrow + 4, "OK", 2);
    auto &g = wt.in->logs;
    size_t newErr = 0;
    for (size_t k = wt.seen; k < g.size(); k++) {
        if (g[k].status >= sError) newErr++;
        bool e = g[k].category == "logStatusError" && g[k].status == sError, v = g[k].category == "logEvents" && g[k].status == sOK;
        if (!e && !v) { wt.key = "category"; wt.bad = "message with category \"" + g[k].category + "\" and status " + stName(g[k].status); }
        if (g[k].env != wt.in) { wt.key = "environment"; wt.bad = "message for another environment"; }
        if (wt.in->l->ver == 2 && g[k].inst != wt.in->o.name) { wt.key = "name"; wt.bad = "message for instance \"" + g[k].inst + "\""; }
        if (g[k].message.empty()) { wt.key = "empty"; wt.bad = "empty message"; }
    }
    wt.seen = g.size();
    if (ok && newErr) { wt.key = "noise"; wt.bad = std::string("successful call logs \"") + g.back().message + "\""; }
    if (!wt.errorsOn && newErr) { wt.key = "disabled"; wt.bad = std::string("error message though errors are switched off: ") + g.back().message; }
    if (err && wt.errorsOn && !newErr) {
        bool exempt = false;
        for (const char *s : silentErrors) if (strstr(line, s)) exempt = true;
        if (!exempt) { wt.key = "silent"; wt.bad = "failing call logs nothing"; }
    }
    if (err) wt.errors++; else wt.good++;
    if (!wt.bad.empty()) wt.bad += std::string(" (") + line + ")";
}
static void verdict(Player &p) {
    if (!wt.bad.empty()) { std::string b = wt.bad, k = wt.key; wt = Watch(); fail(k.c_str(), "%s FMI%d: %s", p.m().name, p.k.l->ver, b.c_str()); }
}
static void switchLogging(Player &p, Rng &r, bool &events) {
    static const char *names[] = {"logEvents", "logStatusError"};
    std::vector<std::string> cats;
    bool on = r.chance(0.6);
    bool e = wt.errorsOn, v = events;
    size_t n = r.below(4);
    for (size_t k = 0; k < n; k++) {
        size_t q = r.below(2);
        cats.push_back(names[q]);
        if (q) e = on; else v = on;
    }
    if (!n) e = v = on;
    // errors of this very call are judged by the old setting; there are none
    if (p.in.debugLogging(on, cats) != sOK) fail("switch", "%s FMI%d: SetDebugLogging failed", p.m().name, p.k.l->ver);
    wt.errorsOn = e;
    events = v;
}
static void caseLog(size_t i, Rng &r) {
    Player p;
    p.in.label = "x";
    p.debug = false;
    p.noResource = false;
    const Kind_ &k = kinds[i % kinds.size()];
    Kind_ kk = k;
    kk.o.name = r.chance(0.5) ? "inst" : anyText(r, 60);
    wt = Watch();
    traceHook = nullptr;
    if (!p.open(kk, r)) fail("instantiate", "instantiation failed");
    wt.in = &p.in;
    traceHook = onLine;
    struct Off { ~Off() { traceHook = nullptr; wt.in = nullptr; } } off;
    bool events = p.in.o.logging;
    size_t n = 20 + r.below(60);
    for (size_t q = 0; q < n; q++) {
        if (r.chance(0.08)) switchLogging(p, r, events);
        else if (r.chance(0.05)) {
            // an unknown category is rejected; its name is reported as it was given
            static const char *near[] = {"logEventsX", "logEvent", "logEvents ", " logEvents", "LogEvents", "logevents", "logStatusErrors", "logStatusErro", "logStatusError.", "logstatuserror", "StatusError", "log", ""};
            std::string cat = r.chance(0.4) ? near[r.below(13)] : r.chance(0.3) ? "%s%d%%%n" : r.chance(0.3) ? std::string(200 + r.below(5000), 'c') + "%" : anyText(r, 30);
            if (cat == "logEvents" || cat == "logStatusError") continue;
            p.in.logs.clear();
            wt.seen = 0;
            bool on = wt.errorsOn;
            // the setting must be known afterwards, whatever came before the bad category
            St s = p.in.debugLogging(r.chance(0.5), {cat});
            if (s != sError) fail("unknown category", "%s FMI%d: unknown log category \"%s\" returns %s", p.m().name, p.k.l->ver, cat.c_str(), stName(s));
            if (on) {
                bool found = false;
                for (auto &g : p.in.logs) if (g.message.find(cat) != std::string::npos) found = true;
                if (!found) fail("text", "%s FMI%d: the rejected category \"%s\" does not appear in the message \"%s\"", p.m().name, p.k.l->ver, cat.substr(0, 40).c_str(),
                                 p.in.logs.empty() ? "" : p.in.logs[0].message.substr(0, 200).c_str());
            }
            feature("category %s%d %zu", p.m().name, p.k.l->ver, cat.size() / 50);
            p.reset();
        } else if (r.chance(0.02)) {
            // no state; the second call finds the instance terminated
            Buf<unsigned char> b(16);
            for (int j = 0; j < 2; j++)
                if (p.in.serialize(nullptr, b.p, 16) != sError) fail("null state", "%s FMI%d: a missing state can be serialized", p.m().name, p.k.l->ver);
            wt.seen = p.in.logs.size();
            p.w.mode = mTerm;
        } else if (r.chance(0.02)) {
            // a category without a name
            p.in.logs.clear();
            wt.seen = 0;
            St s = p.in.debugLogging(r.chance(0.5), {"logEvents"}, 0);
            if (s != sError) fail("unknown category", "%s FMI%d: a missing log category returns %s", p.m().name, p.k.l->ver, stName(s));
            p.reset();
        } else if (r.chance(0.1)) p.reset();
        else {
            size_t e0 = wt.errors;
            p.one(r);
            wt.seen = p.in.logs.size();
            feature("%s%d %d %s %d %d", p.m().name, p.k.l->ver, p.w.mode, p.w.lastOp, wt.errors > e0, wt.errorsOn);
        }
        verdict(p);
        if (p.in.logs.size() > 10) { p.in.logs.clear(); wt.seen = 0; }
    }
    count("evaluations", wt.errors + wt.good);
    count("failing calls", wt.errors);
    count("successful calls", wt.good);
    sample("case %zu: %s FMI%d, %lu failing and %lu successful calls", i, p.m().name, p.k.l->ver, (unsigned long)wt.errors, (unsigned long)wt.good);
    traceHook = nullptr;
    p.close();
}

// ------------------------------------------------------------------ C23
static size_t openFiles() {
    size_t n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
static std::string encode(const std::string &path, Rng &r, double extra) {
    static const char *keep = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~/!$&'()*+,;=:@";
    std::string u;
    bool upper = r.chance(0.5);
    for (char c : path) {
        if (c == '/' || (strchr(keep, c) && !r.chance(extra))) u += c;
        else { char b[4]; snprintf(b, sizeof b, upper ? "%%%02X" : "%%%02x", (unsigned char)c); u += b; }
    }
    return u;
}
static bool makeDirs(const std::string &base, const std::vector<std::string> &parts, std::vector<std::string> &made) {
    // relative creation, because whole paths may come near PATH_MAX
    std::string p = base;
    for (auto &q : parts) {
        p += "/" + q;
        if (mkdir(p.c_str(), 0755) == 0) made.push_back(p);
        else if (errno != EEXIST) return false;
    }
    return true;
}
static void checkY(Inst &in, const char *where, int want) {
    int32_t y = -999;
    size_t e0 = in.errorLogs();
    St s = in.getI32(1, &y);
    if (want >= 0) {
        if (s != sOK) fail("read", "%s FMI%d: reading y %s returns %s: %s", in.l->m->name, in.l->ver, where, stName(s), in.logs.empty() ? "" : in.logs.back().message.substr(0, 300).c_str());
        if (y != want) fail("value", "Resource FMI%d: y is %d instead of %d %s", in.l->ver, y, want, where);
        if (in.errorLogs() != e0) fail("noise", "Resource FMI%d: reading y logs \"%s\"", in.l->ver, in.logs.back().message.substr(0, 300).c_str());
    } else if (want == -1) {
        if (s != sError) fail("missing", "Resource FMI%d: y without readable file %s returns %s, value %d", in.l->ver, where, stName(s), y);
        if (in.errorLogs() == e0) fail("silent", "Resource FMI%d: y without readable file logs nothing", in.l->ver);
    }
    count("evaluations");
}
static void caseResource(size_t i, Rng &r) {
    const Kind_ &k = kinds[i % kinds.size()];
    size_t files = openFiles();
    char d[64];
    snprintf(d, sizeof d, "/c%zu-%d", i, (int)getpid());
    std::string root = opt.scratch + d;
    std::vector<std::string> made;
    if (mkdir(root.c_str(), 0755)) broken("mkdir %s", root.c_str());
    static const char *odd[] = {"res ources", "100%", "%41", "a#b", "q?x=1", "semi;colon", "[x]", "p+q", "~home", "%", "%%", "%2", "c:", "file:", "$HOME", "o'clock", "back\\slash", "a&b=c", "@", "\xc3\xa4\xe2\x82\xac", "dot.dot", "..x", "new\nline"};
    std::vector<std::string> parts;
    int shape = (int)r.below(4);
    if (shape == 0) for (size_t n = r.below(4); n; n--) parts.push_back(odd[r.below(sizeof odd / sizeof *odd)]);
    else if (shape == 1) {
        for (size_t n = 1 + r.below(3); n; n--) {
            std::string s;
            for (size_t q = 1 + r.below(30); q; q--) { char c = (char)(1 + r.below(255)); if (c == '/') c = '_'; s += c; }
            if (s == "." || s == "..") s = "x";
            parts.push_back(s);
        }
    } else if (shape == 2) {
        size_t len = 100 + r.below(3900);
        while (len > 0 && root.size() + parts.size() * 200 < 3990) { size_t q = len > 199 ? 199 : len; parts.push_back(std::string(q, (char)('a' + r.below(26)))); len -= q; }
    }
    if (!makeDirs(root, parts, made)) { parts.clear(); }
    std::string dir = root;
    for (auto &q : parts) dir += "/" + q;
    int want = -1;
    std::string file = dir + "/y.txt";
    int content = (int)r.below(8);
    bool there = false;
    if (content < 6 && file.size() < 4090) {
        char c = content == 0 ? (char)r.irange(1, 127) : (char)r.irange(33, 126);
        FILE *f = fopen(file.c_str(), "w");
        if (f) {
            fputc(c, f);
            for (size_t n = r.below(20); n; n--) fputc((int)r.below(256), f);
            fclose(f);
            want = c;
            there = true;
        }
    } else if (content == 6) { there = symlink("/nonexistent/y", file.c_str()) == 0; }
    bool judged = true;
    InstOpt o = k.o;
    int form = (int)r.below(10);
    if (k.l->ver == 2) {
        std::string body = encode(dir, r, r.chance(0.3) ? 1.0 : 0.1);
        o.resource = (r.chance(0.5) ? "file://" : "file:") + body;
        if (form == 0) { static const char *pre[] = {"http://", "", "file", "file:x", "FILX:///", "ftp:/"}; o.resource = pre[r.below(6)] + body; if (o.resource.empty()) o.resource = "x"; want = -1; }
        else if (form == 1) { o.resource = "file:///" + anyText(r, 200); judged = false; }
        else if (form == 2 && r.chance(0.3)) { o.resource = std::string(4000 + r.below(10000), 'r'); if (r.chance(0.7)) o.resource = "file:///" + o.resource; want = -1; }
        else if (form == 3) { o.resource += r.chance(0.5) ? "%" : "%4"; want = -1; }
        if (o.resource.size() > 4080) judged = want != -1 ? false : judged;      // too long for the FMU; must not be misread, though
        if (dir.size() > 4080) judged = false;
    } else {
        o.resource = dir + "/";
        if (form == 0) { o.resource = root + "/nowhere/"; want = -1; }
        else if (form == 1) { o.resource = "/" + anyText(r, 200) + "/"; judged = false; }
        else if (form == 2 && r.chance(0.5)) { o.resource = "/" + std::string(4000 + r.below(10000), 'r') + "/"; want = -1; }
        if (o.resource.size() > 4080) judged = want != -1 ? false : judged;
    }
    if (form == 4) { o.nullResource = true; want = -1; }
    trace("directory %s", dir.substr(0, 300).c_str());
    trace("location %s (expected %d)", o.resource.substr(0, 300).c_str(), want);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) broken("getcwd");
    if (r.chance(0.5) && chdir(root.c_str())) broken("chdir");
    Inst in;
    in.label = "x";
    auto tidy = [&] {
        if (chdir(cwd)) broken("chdir back");
        if (there || want >= 0) unlink(file.c_str());
        for (size_t q = made.size(); q-- > 0;) rmdir(made[q].c_str());
        rmdir(root.c_str());
    };
    try {
        if (!in.open(k.l, o)) fail("instantiate", "instantiation failed");
        int w = judged ? want : -2;
        if (k.l->ver == 3 && r.chance(0.5)) checkY(in, "after instantiation", w);
        if (w < 0) {
            if (in.reset() != sOK) fail("reset", "reset failed");
        }
        if (in.enterInit(0, false, 0) != sOK) fail("init", "EnterInitializationMode failed");
        if (w >= 0 || r.chance(0.5)) checkY(in, "in initialization mode", w);
        if (w >= 0) {
            if (in.exitInit() != sOK) fail("init", "ExitInitializationMode failed");
            checkY(in, "after initialization", w);
            if (o.type == CSIM && !o.eventMode) {
                StepResult sr;
                if (in.doStep(0, 1, &sr) != sOK) fail("step", "DoStep failed");
                checkY(in, "after a step", w);
            }
            if (in.terminate() != sOK) fail("terminate", "Terminate failed");
            checkY(in, "after termination", w);
            if (in.reset() != sOK || in.enterInit(0, false, 0) != sOK) fail("reset", "reset failed");
            checkY(in, "after reset", w);
        }
        in.free();
        if (openFiles() != files) fail("files", "%zu files are open instead of %zu", openFiles(), files);
    } catch (CaseFail &) { in.free(); tidy(); throw; }
    tidy();
    feature("%d %d %d %d %d %d %zu", k.l->ver, k.o.type, shape, content, form, want >= 0, dir.size() / 100);
    sample("FMI%d %s -> %d", k.l->ver, o.resource.substr(0, 120).c_str(), want);
}

size_t driverCases() {
    if (P == 21) return L.size() * opt.scale(800, 12000);
    if (P == 22) return kinds.size() * opt.scale(300, 5000);
    return kinds.size() * opt.scale(800, 12000);
}
void driverCase(size_t i, Rng &r) {
    if (P == 21) caseInstantiate(i, r);
    else if (P == 22) caseLog(i, r);
    else caseResource(i, r);
}

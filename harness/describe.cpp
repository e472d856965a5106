// C25 the model description and the binary tell the same story.
#include "walker.hpp"
#include <dlfcn.h>
#include <fstream>
#include <sstream>

struct XVar { std::string name; uint32_t vr; Ty ty; std::string causality, variability, initial; std::vector<std::string> dims, start; double min = -INFINITY, max = INFINITY, nominal = 1; bool reinit = false; };
struct XIf { IfType type; std::string id; bool state, ser, dir, adj, event, iu, early, variable, might; double fixed; };
struct XModel {
    int ver; std::string name, token;
    std::vector<XIf> ifs;
    std::vector<XVar> vars;
    std::vector<std::pair<uint32_t, uint32_t>> states;     // derivative, state
    size_t nz = 0;
    std::vector<uint32_t> z, outputs;
    std::vector<std::pair<uint32_t, std::vector<uint32_t>>> deps;
    struct Dep { uint32_t u; std::vector<uint32_t> on; std::vector<std::string> kind; };
    std::vector<Dep> run, dae;      // dependencies while running, and with the DAE formulation
    std::vector<std::string> categories;
    std::vector<std::pair<uint32_t, std::vector<uint32_t>>> clocked, announced;    // announced: countdown clocks
    bool hasDae = false;
    uint32_t daeSwitch = 0;
    std::vector<uint32_t> algebraic;
    double start = 0, stop = NAN, step = NAN;
    std::vector<std::string> head;
    std::vector<std::string> wrong;     // contradictions within the description
    std::vector<std::string> absent;    // files named as reference results that the FMU does not contain
    std::vector<std::vector<std::string>> rows;
    const XVar *var(uint32_t vr) const { for (auto &v : vars) if (v.vr == vr) return &v; return nullptr; }
    const XVar *named(const std::string &n) const { for (auto &v : vars) if (v.name == n) return &v; return nullptr; }
    const XIf *in(IfType t) const { for (auto &i : ifs) if (i.type == t) return &i; return nullptr; }
};
static std::vector<XModel> xm;

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r;
    std::stringstream ss(s);
    std::string x;
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}
static std::string unhex(const std::string &h) {
    std::string s;
    if (h == "-") return s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return s;
}
static Ty tyOf(const std::string &s) {
    static const char *n[] = {"F32", "F64", "I8", "U8", "I16", "U16", "I32", "U32", "I64", "U64", "BOOL", "STR", "BIN", "CLK"};
    for (int i = 0; i < NTY; i++) if (s == n[i]) return (Ty)i;
    broken("type %s", s.c_str());
}
static std::vector<uint32_t> refs(const std::string &s) {
    std::vector<uint32_t> d;
    if (s != "-") for (auto &q : split(s, ',')) d.push_back((uint32_t)strtoul(q.c_str(), nullptr, 10));
    return d;
}
void driverInit() {
    std::ifstream f(opt.extra);
    std::string line;
    while (std::getline(f, line)) {
        auto p = split(line, '\t');
        if (p[0] == "M") { XModel m; m.ver = atoi(p[1].c_str()); m.name = p[2]; m.token = p.size() > 3 ? p[3] : ""; xm.push_back(m); continue; }
        XModel &m = xm.back();
        auto on = [&](size_t i) { return p[i] == "1"; };
        if (p[0] == "I") m.ifs.push_back({p[1] == "ME" ? ME : p[1] == "CS" ? CSIM : SE, p[2], on(3), on(4), on(5), on(6), on(7), on(8), on(9), on(10), on(11), p[12] == "-" ? NAN : atof(p[12].c_str())});
        else if (p[0] == "V") {
            XVar v;
            v.name = unhex(p[1]); v.vr = (uint32_t)strtoul(p[2].c_str(), nullptr, 10); v.ty = tyOf(p[3]); v.causality = p[4]; v.variability = p[5]; v.initial = p[6];
            if (p[7] != "-") v.dims = split(p[7], ',');
            if (p[8] != "-") for (auto &s : split(p[8], ',')) v.start.push_back(unhex(s));
            if (p[9] != "-") v.min = atof(p[9].c_str());
            if (p[10] != "-") v.max = atof(p[10].c_str());
            v.nominal = atof(p[11].c_str());
            v.reinit = on(12);
            m.vars.push_back(v);
        } else if (p[0] == "S") m.states.push_back({(uint32_t)atoi(p[1].c_str()), (uint32_t)atoi(p[2].c_str())});
        else if (p[0] == "N") m.nz = (size_t)atoi(p[1].c_str());
        else if (p[0] == "Z") m.z.push_back((uint32_t)atoi(p[1].c_str()));
        else if (p[0] == "O") m.outputs.push_back((uint32_t)atoi(p[1].c_str()));
        else if (p[0] == "D") m.deps.push_back({(uint32_t)atoi(p[1].c_str()), refs(p[2])});
        else if (p[0] == "P" || p[0] == "A") (p[0] == "P" ? m.run : m.dae).push_back({(uint32_t)atoi(p[1].c_str()), refs(p[2]), p[3] == "-" ? std::vector<std::string>() : split(p[3], ',')});
        else if (p[0] == "L") m.categories.push_back(unhex(p[1]));
        else if (p[0] == "W") m.clocked.push_back({(uint32_t)atoi(p[1].c_str()), refs(p[2])});
        else if (p[0] == "Q") m.announced.push_back({(uint32_t)atoi(p[1].c_str()), refs(p[2])});
        else if (p[0] == "G") { m.hasDae = true; m.daeSwitch = (uint32_t)atoi(p[1].c_str()); m.algebraic = refs(p[2]); }
        else if (p[0] == "E") { m.start = atof(p[1].c_str()); if (p[2] != "-") m.stop = atof(p[2].c_str()); if (p[3] != "-") m.step = atof(p[3].c_str()); }
        else if (p[0] == "C") for (size_t i = 1; i < p.size(); i++) m.head.push_back(unhex(p[i]));
        else if (p[0] == "K") m.wrong.push_back(unhex(p[1]));
        else if (p[0] == "F") m.absent.push_back(unhex(p[1]));
        else if (p[0] == "R") { std::vector<std::string> r; for (size_t i = 1; i < p.size(); i++) r.push_back(unhex(p[i])); m.rows.push_back(r); }
    }
    if (xm.size() != 15) broken("%zu model descriptions", xm.size());
}

// ------------------------------------------------------------------ values as text
static std::string typed(Ty t, const std::string &text) {
    std::string b(tySize(t), 0);
    char *p = &b[0];
    switch (t) {
    case F64: { double d = strtod(text.c_str(), nullptr); memcpy(p, &d, 8); break; }
    case F32: { float d = strtof(text.c_str(), nullptr); memcpy(p, &d, 4); break; }
    case BOOL: *p = text == "true" || text == "1"; break;
    case STR: return text;
    case BIN: return unhex(text);
    case U64: case U32: case U16: case U8: { uint64_t u = strtoull(text.c_str(), nullptr, 10); memcpy(p, &u, tySize(t)); break; }
    default: { int64_t u = strtoll(text.c_str(), nullptr, 10); memcpy(p, &u, tySize(t)); }
    }
    return b;
}
static Var asVar(const XVar &v) { return Var{v.name.c_str(), v.vr, v.ty, Local, false}; }
static size_t sizeOf(const XModel &m, Inst &in, const XVar &v) {
    size_t n = 1;
    for (auto &d : v.dims) {
        if (d[0] == '=') { n *= (size_t)atol(d.c_str() + 1); continue; }
        uint32_t vr = (uint32_t)atoi(d.c_str());
        const XVar *q = m.var(vr);
        if (!q) fail("dimension", "%s FMI%d: dimension of %s refers to unknown variable %u", m.name.c_str(), m.ver, v.name.c_str(), vr);
        uint64_t u = 0;
        if (in.getU64(vr, &u) != sOK) fail("dimension", "%s: dimension %u cannot be read", m.name.c_str(), vr);
        n *= (size_t)u;
    }
    return n;
}
static St write(Inst &in, const XVar &v, const std::string &b, size_t n) {
    uint32_t vr = v.vr;
    if (v.ty == STR) { const char *p = b.c_str(); return in.set(STR, &vr, 1, &p, 1); }
    if (v.ty == BIN) { const char *p = b.data(); size_t sz = b.size(); return in.set(BIN, &vr, 1, &p, 1, &sz); }
    Buf<char> q(b.size());
    memcpy(q.p, b.data(), b.size());
    return in.set(v.ty, &vr, 1, q.p, n);
}
// another value within the limits
static std::string another(const XVar &v, Rng &r, size_t n) {
    std::string b;
    for (size_t k = 0; k < n; k++) {
        double lo = std::max(v.min, -4.0), hi = std::min(v.max, 4.0);
        char t[64];
        switch (v.ty) {
        case F64: case F32: snprintf(t, sizeof t, "%.17g", lo + (hi - lo) * (double)(1 + r.below(15)) / 16); break;
        case BOOL: strcpy(t, r.chance(0.5) ? "true" : "false"); break;
        case STR: snprintf(t, sizeof t, "text %u", (unsigned)r.below(1000)); return t;
        case BIN: { std::string s; for (size_t q = r.below(20); q; q--) s += (char)r.below(256); return s; }
        case U8: case U16: case U32: case U64: snprintf(t, sizeof t, "%d", (int)r.irange((long)std::max(lo, 0.0), (long)hi)); break;
        default: snprintf(t, sizeof t, "%d", (int)r.irange((long)lo, (long)hi));
        }
        b += typed(v.ty, t);
    }
    return b;
}
static bool isEnum(const XModel &m, const XVar &v) { return m.name == "Feedthrough" && v.name.substr(0, 5) == "Enume"; }

static void checkSymbols(const XModel &m) {
    std::string dir = (m.ver == 2 ? opt.fmus2 : opt.fmus3) + "/" + m.name + "/binaries/" + (m.ver == 2 ? "linux64" : "x86_64-linux") + "/";
    for (auto &i : m.ifs) {
        std::string p = dir + i.id + ".so";
        void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!h) fail("binary", "%s FMI%d: no binary for model identifier %s: %s", m.name.c_str(), m.ver, i.id.c_str(), dlerror());
#define X(n) if (m.ver == 2 && !dlsym(h, "fmi2" #n)) fail("function", "%s: fmi2" #n " is not exported", m.name.c_str());
        FMI2_FUNCS(X)
#undef X
#define X(n) if (m.ver == 3 && !dlsym(h, "fmi3" #n)) fail("function", "%s: fmi3" #n " is not exported", m.name.c_str());
        FMI3_FUNCS(X)
#undef X
        const char *v = ((const char *(*)(void))dlsym(h, m.ver == 2 ? "fmi2GetVersion" : "fmi3GetVersion"))();
        if (strncmp(v, m.ver == 2 ? "2.0" : "3.0", 3)) fail("version", "%s FMI%d: GetVersion returns %s", m.name.c_str(), m.ver, v);
        dlclose(h);
    }
}
static InstOpt options(const XModel &m, IfType t) {
    InstOpt o;
    o.type = t;
    o.token = m.token;
    return o;
}
#define WHO m.name.c_str(), m.ver

// ------------------------------------------------------------------ interface types and capabilities
static void caseFlags(const XModel &m, Rng &r) {
    checkSymbols(m);
    Lib *l = lib(m.name.c_str(), m.ver);
    for (IfType t : {ME, CSIM, SE}) {
        if (t == SE && m.ver == 2) continue;
        const XIf *f = m.in(t);
        Inst in;
        bool got = in.open(l, options(m, t));
        if (m.ver == 2 && !f) { continue; }        // FMI 2 instantiation does not distinguish
        if (got != (f != nullptr)) fail("interface", "%s FMI%d: %s is %sdeclared but instantiation %s", WHO, ifName(t), f ? "" : "not ", got ? "succeeds" : "fails");
        count("evaluations");
        if (!f) continue;
        if (t == CSIM && m.ver == 3) {
            Inst e;
            InstOpt o = options(m, t);
            o.eventMode = true;
            bool ev = e.open(l, o);
            if (ev != f->event) fail("event mode", "%s FMI3: hasEventMode=%d but instantiation with Event Mode %s", m.name.c_str(), f->event, ev ? "succeeds" : "fails");
            Inst y;
            o.eventMode = false;
            o.early = true;
            if (f->early && !y.open(l, o)) fail("early return", "%s FMI3: instantiation with early return fails", m.name.c_str());
            Inst u;
            o.early = false;
            o.useIu = true;
            if (!u.open(l, o) || u.enterInit(m.start, false, 0) != sOK || u.exitInit() != sOK) fail("init", "%s FMI3: initialization failed", m.name.c_str());
            StepResult sr;
            double step = l->m->step;
            if (u.doStep(m.start, step, &sr) != sOK) fail("step", "%s FMI3: step failed", m.name.c_str());
            if (f->iu && u.ius.empty()) fail("intermediate update", "%s FMI3: declared intermediate updates do not happen", m.name.c_str());
            if (f->variable && u.doStep(m.start + step, 3 * step, &sr) != sOK) fail("variable step", "%s FMI3: another step size is rejected", m.name.c_str());
            // internal steps have the declared size
            if (!std::isnan(f->fixed))
                for (size_t k = 0; k < u.ius.size(); k++) {
                    double d = u.ius[k].t - (k ? u.ius[k - 1].t : m.start);
                    if (!near(d, f->fixed, 1e-6, 1e-12)) fail("internal step", "%s FMI3: internal step %zu has the size %g, declared is %g", m.name.c_str(), k, d, f->fixed);
                }
            // steps that end early are announced
            for (int k = 0; k < 4; k++) {
                Inst s;
                o.early = true;
                o.useIu = k & 1;
                o.eventMode = (k & 2) && f->event;
                if (!s.open(l, o) || s.enterInit(m.start, false, 0) != sOK || s.exitInit() != sOK) fail("init", "%s FMI3: initialization failed", m.name.c_str());
                if (o.eventMode) { EventInfo ev; if (s.update(&ev) != sOK || s.enterStep() != sOK) fail("init", "%s FMI3: Step Mode cannot be entered", m.name.c_str()); }
                double at = m.start, size = step * (double)r.irange(1, 60);
                for (int n = 0; n < 60; n++) {
                    if (s.doStep(at, size, &sr) != sOK) fail("step", "%s FMI3: step failed", m.name.c_str());
                    if (sr.early && !f->might) fail("early return", "%s FMI3: mightReturnEarlyFromDoStep is not declared but a step from %g to %g ended at %g", m.name.c_str(), at, at + size, sr.last);
                    if (sr.terminate) break;
                    at = sr.early ? sr.last : at + size;
                    if (o.eventMode && sr.eventNeeded) { EventInfo ev; if (s.enterEvent() != sOK || s.update(&ev) != sOK || s.enterStep() != sOK) fail("event", "%s FMI3: event handling failed", m.name.c_str()); if (ev.terminate) break; }
                    count("evaluations");
                }
            }
            count("evaluations", 4 + u.ius.size());
        }
        if (f->state) {
            void *s = nullptr;
            if (in.getState(&s) != sOK || !s) fail("state", "%s FMI%d %s: declared capability to get the state is missing", WHO, ifName(t));
            if (in.setState(s) != sOK) fail("state", "%s FMI%d %s: declared capability to set the state is missing", WHO, ifName(t));
            if (f->ser) {
                size_t n = 0;
                if (in.stateSize(s, &n) != sOK || !n) fail("serialize", "%s FMI%d %s: declared serialization is missing", WHO, ifName(t));
                Buf<unsigned char> b(n);
                void *q = nullptr;
                if (in.serialize(s, b.p, n) != sOK || in.deserialize(b.p, n, &q) != sOK || !q) fail("serialize", "%s FMI%d %s: declared serialization is missing", WHO, ifName(t));
                in.freeState(&q);
            }
            in.freeState(&s);
            count("evaluations", 2);
        }
        if (f->dir || f->adj) {
            if (in.enterInit(m.start, false, 0) != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
            for (auto &s : m.states) {
                std::vector<double> out;
                if (f->dir && in.dirDer({s.first}, {s.second}, {1.0}, out) != sOK) fail("derivative", "%s FMI%d %s: declared directional derivatives are missing", WHO, ifName(t));
                if (f->adj && in.adjDer({s.first}, {s.second}, {1.0}, out) != sOK) fail("derivative", "%s FMI%d %s: declared adjoint derivatives are missing", WHO, ifName(t));
                count("evaluations", 2);
            }
        }
        feature("flags %s%d %d", WHO, t);
    }
}

// ------------------------------------------------------------------ variables
static void caseVars(const XModel &m, Rng &r) {
    Lib *l = lib(m.name.c_str(), m.ver);
    const XIf &f = m.ifs[r.below(m.ifs.size())];
    std::map<uint32_t, size_t> size;
    {
        Inst in;
        if (!in.open(l, options(m, f.type))) fail("instantiate", "%s FMI%d: instantiation failed", WHO);
        for (int phase = m.ver == 3 ? 0 : 1; phase < 2; phase++) {
            if (phase == 1 && in.enterInit(m.start, false, 0) != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
            for (auto &v : m.vars) {
                if (v.ty == CLK) continue;
                size_t n = sizeOf(m, in, v);
                size[v.vr] = n;
                std::string b;
                if (readVar(in, asVar(v), n, &b) != sOK) fail("read", "%s FMI%d: %s (reference %u) cannot be read as %zu values of type %s", WHO, v.name.c_str(), v.vr, n, tyName[v.ty]);
                count("evaluations");
                feature("read %s%d %u %d", WHO, v.vr, phase);
                if (v.initial != "exact") continue;
                if (v.start.empty()) fail("start", "%s FMI%d: %s has no start value", WHO, v.name.c_str());
                std::string want;
                if (v.ty == STR || v.ty == BIN) want = typed(v.ty, v.start[0]);
                else for (size_t k = 0; k < n; k++) want += typed(v.ty, v.start.size() == 1 ? v.start[0] : k < v.start.size() ? v.start[k] : "?");
                if (v.start.size() > 1 && v.start.size() != n) fail("start", "%s FMI%d: %s has %zu start values for %zu elements", WHO, v.name.c_str(), v.start.size(), n);
                if (b != want) fail("start", "%s FMI%d: %s is %s in a new instance but its declared start value is %s", WHO, v.name.c_str(), bytesText(v.ty, b).c_str(), bytesText(v.ty, want).c_str());
                count("evaluations");
                feature("start %s%d %u", WHO, v.vr);
            }
        }
    }
    // other types than the declared one are refused
    for (auto &v : m.vars) {
        Ty t = (Ty)r.below(NTY);
        if (m.ver == 2) t = (const Ty[]){F64, I32, BOOL, STR}[r.below(4)];
        if (t == v.ty || t == CLK || v.ty == CLK) continue;
        Inst in;
        if (!in.open(l, options(m, f.type)) || in.enterInit(m.start, false, 0) != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
        std::string b;
        Var w = asVar(v);
        w.ty = t;
        if (readVar(in, w, size[v.vr], &b) == sOK) fail("type", "%s FMI%d: %s is declared as %s but can be read as %s", WHO, v.name.c_str(), tyName[v.ty], tyName[t]);
        count("evaluations");
        feature("type %s%d %u %d", WHO, v.vr, t);
    }
    // what may be set before initialization, and nothing else
    for (auto &v : m.vars) {
        if (v.ty == CLK) continue;
        Inst in;
        if (!in.open(l, options(m, f.type))) fail("instantiate", "%s FMI%d: instantiation failed", WHO);
        bool structural = v.causality == "structuralParameter";
        bool may = v.variability != "constant" && (v.initial == "exact" || v.initial == "approx");
        if (v.initial == "approx") continue;      // a guess that the FMU may ignore
        if (structural && in.enterConfig() != sOK) fail("configuration", "%s FMI%d: Configuration Mode is missing for structural parameter %s", WHO, v.name.c_str());
        if (v.causality == "independent") continue;
        size_t n = size[v.vr];
        std::string b = isEnum(m, v) ? typed(v.ty, r.chance(0.5) ? "1" : "2") : another(v, r, n);
        St s = write(in, v, b, n);
        if (may && s != sOK) fail("set", "%s FMI%d: %s cannot be set before initialization: %s", WHO, v.name.c_str(), in.logs.empty() ? "" : in.logs.back().message.c_str());
        if (!may && s == sOK) fail("set", "%s FMI%d: %s can be set though it is declared %s %s %s", WHO, v.name.c_str(), v.causality.c_str(), v.variability.c_str(), v.initial.c_str());
        count("evaluations");
        feature("set %s%d %u %d", WHO, v.vr, may);
        if (!may) continue;
        if (structural && in.exitConfig() != sOK) fail("configuration", "%s FMI%d: leaving Configuration Mode failed", WHO);
        if (in.enterInit(m.start, false, 0) != sOK) fail("init", "%s FMI%d: initialization failed after setting %s", WHO, v.name.c_str());
        std::string q;
        if (readVar(in, asVar(v), n, &q) != sOK || q != b) fail("set", "%s FMI%d: %s reads %s after it was set to %s", WHO, v.name.c_str(), bytesText(v.ty, q).c_str(), bytesText(v.ty, b).c_str());
    }
}

// ------------------------------------------------------------------ states, derivatives, indicators, dependencies
static void caseStructure(const XModel &m, Rng &r) {
    Lib *l = lib(m.name.c_str(), m.ver);
    if (m.in(ME)) {
        Inst in;
        if (!in.open(l, options(m, ME)) || in.enterInit(m.start, false, 0) != sOK || in.exitInit() != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
        EventInfo e;
        for (int k = 0; k < 10; k++) { if (in.update(&e) != sOK) fail("event", "%s FMI%d: event iteration failed", WHO); if (!e.needUpdate) break; }
        size_t nx = 0;
        std::vector<size_t> each;
        for (auto &s : m.states) { size_t n = sizeOf(m, in, *m.var(s.second)); each.push_back(n); nx += n; }
        if (m.ver == 3) {
            if (in.nx() != nx) fail("states", "%s FMI3: %zu continuous states are declared but there are %zu", m.name.c_str(), nx, in.nx());
            if (in.nz() != m.nz) fail("indicators", "%s FMI3: %zu event indicators are declared but there are %zu", m.name.c_str(), m.nz, in.nz());
        }
        if (in.enterCT() != sOK) fail("mode", "%s FMI%d: EnterContinuousTimeMode failed", WHO);
        std::vector<double> x(nx), dx(nx), z(m.nz);
        std::map<uint32_t, std::string> held;       // variables that only events may change
        for (int rep = 0; rep < 5; rep++) {
            if (in.setTime(m.start + (double)r.irange(0, 6) / 8) != sOK) fail("time", "%s FMI%d: SetTime failed", WHO);
            for (auto &q : x) q = (double)r.irange(1, 40) / 8;
            if (rep && nx && in.setStates(x) != sOK) fail("states", "%s FMI%d: SetContinuousStates failed for %zu states", WHO, nx);
            if (nx && (in.getStates(x) != sOK || in.getDer(dx) != sOK)) fail("states", "%s FMI%d: states or derivatives cannot be read", WHO);
            if (in.getInd(z) != sOK) fail("indicators", "%s FMI%d: %zu event indicators cannot be read", WHO, m.nz);
            size_t o = 0;
            for (size_t k = 0; k < m.states.size(); k++) {
                std::vector<double> a(each[k]), b(each[k]);
                if (in.getF64v(m.states[k].second, a) != sOK || in.getF64v(m.states[k].first, b) != sOK) fail("states", "%s FMI%d: state %zu cannot be read", WHO, k);
                for (size_t q = 0; q < each[k]; q++) {
                    if (a[q] != x[o + q]) fail("state order", "%s FMI%d: continuous state %zu is %g but the variable of the model structure is %g", WHO, o + q, x[o + q], a[q]);
                    if (!near(b[q], dx[o + q])) fail("derivative order", "%s FMI%d: derivative %zu is %g but the variable of the model structure is %g", WHO, o + q, dx[o + q], b[q]);
                }
                o += each[k];
                count("evaluations", 2);
            }
            for (size_t k = 0; k < m.z.size(); k++) {
                double q = NAN;
                if (in.getF64(m.z[k], &q) != sOK) fail("indicators", "%s: variable %u of an event indicator cannot be read", m.name.c_str(), m.z[k]);
                if (!near(q, z[k])) fail("indicator order", "%s: event indicator %zu is %g but variable %u is %g", m.name.c_str(), k, z[k], m.z[k], q);
                count("evaluations");
            }
            for (auto &v : m.vars) {
                if (v.ty == CLK || v.causality == "independent" || v.variability == "continuous" || (v.variability == "default" && (v.ty == F64 || v.ty == F32))) continue;
                std::string b;
                if (readVar(in, asVar(v), sizeOf(m, in, v), &b) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, v.name.c_str());
                if (rep && b != held[v.vr]) fail("variability", "%s FMI%d: %s changes between events though its variability is %s", WHO, v.name.c_str(), v.variability.c_str());
                held[v.vr] = b;
                count("evaluations");
            }
            feature("structure %s%d %d", WHO, rep);
        }
        std::vector<double> nom(nx), y(nx);
        if (nx && in.getNominals(nom) != sOK) fail("nominals", "%s FMI%d: nominals cannot be read", WHO);
        for (size_t k = 0, o = 0; k < m.states.size(); o += each[k], k++)
            for (size_t q = 0; q < each[k]; q++) {
                const XVar *v = m.var(m.states[k].second);
                if (nom[o + q] != v->nominal) fail("nominals", "%s FMI%d: the nominal of %s is %g, declared is %g", WHO, v->name.c_str(), nom[o + q], v->nominal);
                count("evaluations");
            }
        // states that an event changes are declared to be reinitialized
        for (int rep = 0; nx && rep < 20; rep++) {
            for (auto &q : x) q = (double)r.irange(-40, 40) / 8;
            if (in.setStates(x) != sOK || in.enterEvent() != sOK) fail("event", "%s FMI%d: Event Mode cannot be entered", WHO);
            EventInfo ev;
            for (int k = 0; k < 10; k++) { if (in.update(&ev) != sOK) fail("event", "%s FMI%d: event iteration failed", WHO); if (!ev.needUpdate) break; }
            if (ev.terminate) break;
            if (in.enterCT() != sOK || in.getStates(y) != sOK) fail("mode", "%s FMI%d: EnterContinuousTimeMode failed", WHO);
            for (size_t k = 0, o = 0; k < m.states.size(); o += each[k], k++)
                for (size_t q = 0; q < each[k]; q++)
                    if (y[o + q] != x[o + q] && !m.var(m.states[k].second)->reinit)
                        fail("reinit", "%s FMI%d: an event changes the state %s from %g to %g, which is not declared to be reinitialized", WHO, m.var(m.states[k].second)->name.c_str(), x[o + q], y[o + q]);
            count("evaluations");
        }
    }
    // declared dependencies of the initial unknowns are complete
    for (auto &d : m.deps) {
        const XVar *u = m.var(d.first);
        if (!u) fail("unknown", "%s FMI%d: unknown %u of the model structure is no variable", WHO, d.first);
        if (u->ty == CLK) continue;
        Inst in;
        const XIf &f = m.ifs[r.below(m.ifs.size())];
        if (!in.open(l, options(m, f.type)) || in.enterInit(m.start, false, 0) != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
        std::string a, b;
        size_t n = sizeOf(m, in, *u);
        for (auto &v : m.vars) {
            if (v.ty == CLK || v.vr == u->vr) continue;
            if (!(v.initial == "exact" && v.variability != "constant") || v.causality == "structuralParameter") continue;
            if (std::find(d.second.begin(), d.second.end(), v.vr) != d.second.end()) continue;
            size_t k = sizeOf(m, in, v);
            if (readVar(in, asVar(*u), n, &a) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, u->name.c_str());
            if (write(in, v, isEnum(m, v) ? typed(v.ty, r.chance(0.5) ? "1" : "2") : another(v, r, k), k) != sOK) fail("set", "%s FMI%d: %s cannot be set in Initialization Mode", WHO, v.name.c_str());
            if (readVar(in, asVar(*u), n, &b) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, u->name.c_str());
            if (a != b) fail("dependency", "%s FMI%d: %s changes with %s, which is not among its declared dependencies", WHO, u->name.c_str(), v.name.c_str());
            count("evaluations");
            feature("dependency %s%d %u %u", WHO, u->vr, v.vr);
        }
    }
    for (uint32_t o : m.outputs) {
        const XVar *v = m.var(o);
        if (!v || v->causality != "output") fail("outputs", "%s FMI%d: output %u of the model structure is no output variable", WHO, o);
    }
    for (auto &v : m.vars)
        if (v.causality == "output" && std::find(m.outputs.begin(), m.outputs.end(), v.vr) == m.outputs.end()) fail("outputs", "%s FMI%d: output %s is missing in the model structure", WHO, v.name.c_str());
}

// ------------------------------------------------------------------ dependencies while the simulation runs
static bool has(const std::vector<uint32_t> &v, uint32_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }

// Everything an unknown depends on, also through the unknowns that are listed as its dependencies.
static std::vector<uint32_t> closure(const std::vector<XModel::Dep> &deps, uint32_t u) {
    std::vector<uint32_t> all{u};
    for (size_t k = 0; k < all.size(); k++)
        for (auto &d : deps) if (d.u == all[k]) for (uint32_t o : d.on) if (!has(all, o)) all.push_back(o);
    return all;
}

static void initialized(const XModel &m, Inst &in, bool dae) {
    if (!in.open(lib(m.name.c_str(), m.ver), options(m, ME))) fail("instantiate", "%s FMI%d: instantiation failed", WHO);
    if (dae) {
        const XVar *v = m.var(m.daeSwitch);
        if (!v || v->ty != BOOL || v->causality != "structuralParameter") fail("dae", "%s: the switch of the DAE formulation is no structural parameter", m.name.c_str());
        if (in.enterConfig() != sOK || write(in, *v, std::string(1, 1), 1) != sOK || in.exitConfig() != sOK) fail("dae", "%s: the DAE formulation cannot be enabled", m.name.c_str());
    }
    if (in.enterInit(m.start, false, 0) != sOK || in.exitInit() != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
    EventInfo e;
    for (int k = 0; k < 10; k++) { if (in.update(&e) != sOK) fail("event", "%s FMI%d: event iteration failed", WHO); if (!e.needUpdate) break; }
}

static void caseRunning(const XModel &m, Rng &r) {
    if (!m.in(ME)) return;
    for (int dae = 0; dae <= (int)m.hasDae; dae++) {
        auto &deps = dae ? m.dae : m.run;
        if (deps.empty()) continue;
        for (int mode = 0; mode < 2; mode++) {      // Event Mode, Continuous-Time Mode
            Inst in;
            initialized(m, in, dae);
            if (mode && in.enterCT() != sOK) fail("mode", "%s FMI%d: EnterContinuousTimeMode failed", WHO);
            // what may change without an event, or in Event Mode
            std::vector<const XVar *> knowns;
            for (auto &v : m.vars) {
                bool state = std::any_of(m.states.begin(), m.states.end(), [&](auto &s) { return s.second == v.vr; });
                if (v.ty == CLK || !v.dims.empty()) continue;
                if (mode && (state || (dae && has(m.algebraic, v.vr)) || v.causality == "independent")) knowns.push_back(&v);
                if (v.causality == "input" && (!mode || (v.variability == "default" && (v.ty == F64 || v.ty == F32)))) knowns.push_back(&v);
            }
            double now = m.start;
            auto put = [&](const XVar &v, double *num) {
                bool state = std::any_of(m.states.begin(), m.states.end(), [&](auto &s) { return s.second == v.vr; });
                double d = num ? *num : (double)r.irange(1, 40) / 8;
                St s;
                if (v.causality == "independent") s = in.setTime(now += (double)r.irange(1, 5) / 8);
                else if (state) {
                    std::vector<double> a(m.states.size());
                    in.getStates(a);
                    for (size_t k = 0; k < a.size(); k++) if (m.states[k].second == v.vr) a[k] = d;
                    s = in.setStates(a);
                } else if (v.ty == F64) s = in.setF64(v.vr, d);
                else s = write(in, v, isEnum(m, v) ? typed(v.ty, r.chance(0.5) ? "1" : "2") : another(v, r, 1), 1);
                if (s != sOK) fail("set", "%s FMI%d: %s cannot be set in %s Mode", WHO, v.name.c_str(), mode ? "Continuous-Time" : "Event");
            };
            for (int rep = 0; rep < 3; rep++) {
                for (auto *k : knowns) put(*k, nullptr);
                for (auto &d : deps) {
                    const XVar *u = m.var(d.u);
                    if (!u) fail("unknown", "%s FMI%d: unknown %u of the model structure is no variable", WHO, d.u);
                    if (u->ty == CLK || !u->dims.empty()) continue;
                    auto on = closure(deps, d.u);
                    for (auto *k : knowns) {
                        std::string a, b;
                        if (!has(on, k->vr)) {
                            if (readVar(in, asVar(*u), 1, &a) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, u->name.c_str());
                            put(*k, nullptr);
                            if (readVar(in, asVar(*u), 1, &b) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, u->name.c_str());
                            if (a != b) fail("dependency", "%s FMI%d: %s changes with %s, which is not among its declared dependencies%s", WHO, u->name.c_str(), k->name.c_str(), dae ? " of the DAE formulation" : "");
                            count("evaluations");
                            feature("running %s%d %u %u %d", WHO, u->vr, k->vr, dae);
                            continue;
                        }
                        // declared linear dependencies are linear with one factor
                        size_t pos = (size_t)(std::find(d.on.begin(), d.on.end(), k->vr) - d.on.begin());
                        if (dae || !mode || pos >= d.kind.size() || (d.kind[pos] != "constant" && d.kind[pos] != "fixed") || k->ty != F64 || u->ty != F64 || k->causality == "independent") continue;
                        double slope[2];
                        for (int q = 0; q < 2; q++) {
                            double k0 = (double)r.irange(1, 40) / 8, k1 = k0 + 1 + (double)r.irange(0, 8) / 4, y0 = NAN, y1 = NAN;
                            put(*k, &k0);
                            in.getF64(u->vr, &y0);
                            put(*k, &k1);
                            in.getF64(u->vr, &y1);
                            slope[q] = (y1 - y0) / (k1 - k0);
                            for (auto *o : knowns) if (o != k) put(*o, nullptr);
                        }
                        if (!near(slope[0], slope[1], 1e-9, 1e-9)) fail("linear", "%s FMI%d: %s is declared to depend on %s with a %s factor, but the factor is %g and %g", WHO, u->name.c_str(), k->name.c_str(), d.kind[pos].c_str(), slope[0], slope[1]);
                        count("evaluations");
                        feature("linear %s%d %u %u", WHO, u->vr, k->vr);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ clocks and log categories
static void caseClocked(const XModel &m, Rng &r) {
    Lib *l = lib(m.name.c_str(), m.ver);
    for (auto &f : m.ifs) {
        Inst in;
        if (!in.open(l, options(m, f.type))) fail("instantiate", "%s FMI%d: instantiation failed", WHO);
        for (auto &c : m.categories)
            for (bool on : {true, false}) {
                if (in.debugLogging(on, {c}) != sOK) fail("category", "%s FMI%d: the declared log category \"%s\" is not accepted", WHO, c.c_str());
                count("evaluations");
            }
        feature("categories %s%d %d", WHO, f.type);
    }
    if (!m.in(SE)) return;
    Inst in;
    if (!in.open(l, options(m, SE)) || in.enterInit(m.start, false, 0) != sOK || in.exitInit() != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
    auto read = [&] {
        std::map<uint32_t, std::string> a;
        for (auto &v : m.vars) if (v.ty != CLK && readVar(in, asVar(v), 1, &a[v.vr]) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, v.name.c_str());
        return a;
    };
    for (int n = 0; n < 30; n++) {
        auto before = read();
        std::vector<const XVar *> clk;
        for (auto &v : m.vars) if (v.ty == CLK && v.causality == "input") clk.push_back(&v);
        const XVar *c = clk[r.below(clk.size())];
        if (r.chance(0.3)) for (auto &v : m.vars) if (v.causality == "input" && v.ty == I32) write(in, v, another(v, r, 1), 1);
        auto mid = read();
        auto changed = [&](uint32_t q) {
            double d = 0;
            fmi3IntervalQualifier f = fmi3IntervalNotYetKnown;
            InCall ic("GetIntervalDecimal");
            if (l->a3.GetIntervalDecimal(in.c, &q, 1, &d, &f) != fmi3OK) fail("read", "%s: the interval of %s cannot be read", m.name.c_str(), m.var(q)->name.c_str());
            return f == fmi3IntervalChanged;
        };
        for (auto &w : m.announced) changed(w.first);
        if (in.activate(c->vr, r.chance(0.5) ? 4 : n) != sOK) fail("activate", "%s: the declared clock %s cannot be activated", m.name.c_str(), c->name.c_str());
        auto after = read();
        for (auto &w : m.announced) {
            bool ch = changed(w.first);
            if (ch && !has(w.second, c->vr)) fail("clocked", "%s: the interval of %s changes with clock %s to which it does not belong", m.name.c_str(), m.var(w.first)->name.c_str(), c->name.c_str());
            count("evaluations");
            feature("interval %u %u %d", w.first, c->vr, ch);
        }
        for (auto &w : m.clocked) {
            if (before[w.first] != mid[w.first]) fail("clocked", "%s: %s belongs to clocks but changes without an activation", m.name.c_str(), m.var(w.first)->name.c_str());
            if (mid[w.first] != after[w.first] && !has(w.second, c->vr)) fail("clocked", "%s: %s changes with clock %s to which it does not belong", m.name.c_str(), m.var(w.first)->name.c_str(), c->name.c_str());
            count("evaluations");
            feature("clocked %u %u %d", w.first, c->vr, mid[w.first] != after[w.first]);
        }
    }
}

// ------------------------------------------------------------------ shipped results
static void caseResults(const XModel &m, Rng &) {
    if (!m.absent.empty()) fail("manifest", "%s FMI%d: the FMU does not contain the reference results %s named by its manifest", WHO, m.absent[0].c_str());
    if (m.rows.empty() || !m.in(CSIM)) return;
    std::vector<const XVar *> cols;
    for (size_t c = 1; c < m.head.size(); c++) {
        const XVar *v = m.named(m.head[c]);
        if (!v && m.ver == 2 && m.name == "Feedthrough") { cols.push_back(nullptr); continue; }     // types that FMI 2 does not have
        if (!v) fail("column", "%s FMI%d: column %s of the shipped results is no variable", WHO, m.head[c].c_str());
        cols.push_back(v);
    }
    Lib *l = lib(m.name.c_str(), m.ver);
    Inst in;
    if (!in.open(l, options(m, CSIM)) || in.enterInit(m.start, true, m.stop) != sOK || in.exitInit() != sOK) fail("init", "%s FMI%d: initialization failed", WHO);
    double t = atof(m.rows[0][0].c_str());
    bool ended = false;
    in.quiet = true;
    for (size_t k = 0; k < m.rows.size(); k++) {
        double next = atof(m.rows[k][0].c_str());
        if (k) {
            if (ended) fail("end", "%s FMI%d: the simulation ends at %g but the shipped results go on", WHO, t);
            StepResult sr;
            St s = in.doStep(t, next - t, &sr);
            if (s != sOK && !(m.ver == 2 && s == sDiscard)) fail("step", "%s FMI%d: step at %g of the shipped results failed", WHO, t);
            ended = sr.terminate || s == sDiscard;
        }
        t = next;
        for (size_t c = 0; c < cols.size(); c++) {
            if (!cols[c]) continue;
            size_t n = sizeOf(m, in, *cols[c]);
            std::string b;
            if (readVar(in, asVar(*cols[c]), n, &b) != sOK) fail("read", "%s FMI%d: %s cannot be read", WHO, m.head[c + 1].c_str());
            auto words = cols[c]->ty == STR ? std::vector<std::string>{m.rows[k][c + 1]} : split(m.rows[k][c + 1], ' ');
            if (cols[c]->ty == F64) {
                if (words.size() != n) fail("results", "%s FMI%d: %zu values of %s are shipped for %zu elements", WHO, words.size(), cols[c]->name.c_str(), n);
                for (size_t q = 0; q < n; q++) {
                    double v;
                    memcpy(&v, b.data() + q * 8, 8);
                    if (!near(v, atof(words[q].c_str()), 1e-6, 1e-8)) fail("results", "%s FMI%d: %s at %g is %.12g but the shipped results say %s", WHO, cols[c]->name.c_str(), t, v, words[q].c_str());
                }
            } else if (b != typed(cols[c]->ty, words[0])) fail("results", "%s FMI%d: %s at %g is %s but the shipped results say %s", WHO, cols[c]->name.c_str(), t, bytesText(cols[c]->ty, b).c_str(), words[0].c_str());
            count("evaluations");
        }
    }
    feature("results %s%d", WHO);
    sample("%s FMI%d: %zu rows of shipped results reproduced", WHO, m.rows.size());
}

size_t driverCases() { return xm.size() * 5 * opt.scale(5, 100); }
void driverCase(size_t i, Rng &r) {
    const XModel &m = xm[i % xm.size()];
    size_t part = i / xm.size() % 5, rep = i / xm.size() / 5;
    trace("%s FMI%d part %zu", WHO, part);
    if (!m.wrong.empty()) fail("structure", "%s FMI%d: %s in the model description", WHO, m.wrong[0].c_str());
    if (part == 0) caseVars(m, r);
    else if (part == 1) caseStructure(m, r);
    else if (part == 4) { caseRunning(m, r); caseClocked(m, r); }
    else if (rep == 0 && part == 2) caseFlags(m, r);
    else if (rep == 0) caseResults(m, r);
}

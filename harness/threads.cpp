// C10, C32: separate instances used concurrently from different threads.
#include "walker.hpp"
#ifdef WITH_IMPORT
#include "imported.hpp"
#endif
#include <pthread.h>
#include <thread>

struct Kind_ { Lib *l; InstOpt o; };
static std::vector<std::vector<Kind_>> byLib;

void driverInit() {
    for (Lib *l : allLibs()) {
        std::vector<Kind_> v;
#ifdef WITH_IMPORT
        l = imported::lib(l);
#endif
        for (auto &o : supported(l)) v.push_back({l, o});
        byLib.push_back(v);
    }
}

struct Job { Kind_ k; uint64_t seed; size_t n, rounds; std::string log; bool opened = true; uint64_t messages = 0; bool foreign = false, wander = false; };

static void work(Job &j) {
    // A wandering instance is used by one thread after the other.
    Rng turn(mix(j.seed, 99));
    bool wander = j.wander;
    auto elsewhere = [&](auto f) {
        if (!wander || turn.chance(0.5)) { f(); return; }
        bool watch = noWatch;
        std::thread([&] {
            noWatch = watch;
#ifdef WITH_IMPORT
            imported::callLog = j.seed & 1;
#endif
            f();
        }).join();
    };
#ifdef WITH_IMPORT
    imported::callLog = j.seed & 1;
#endif
    for (size_t q = 0; q < j.rounds; q++) {
        Inst in;
        in.quiet = true;
        in.onIu = [](Inst &, const IuRec &u, bool *req, double *time) { if (req) *req = true; if (time) *time = u.t + 1; };
        in.label = j.k.o.name;
        elsewhere([&] { j.opened = in.open(j.k.l, j.k.o); });
        if (!j.opened) return;
        Walker w;
        w.init(j.k.l, j.k.o);
        w.allowDebug = true;
        Rng r(mix(j.seed, q));
        void *s = nullptr;
        for (size_t i = 0; i < j.n; i++) {
            elsewhere([&] { w.step(in, r); });
            for (auto &u : in.ius) w.note("update %.17g %d%d%d%d", u.t, u.setReq, u.getAllowed, u.finished, u.canEarly);
            in.ius.clear();
            if (i == j.n / 3) elsewhere([&] { w.note("save %s", stName(in.getState(&s))); });
            if (i == 2 * j.n / 3 && s) elsewhere([&] {
                size_t n = 0;
                w.note("size %s", stName(in.stateSize(s, &n)));
                Buf<unsigned char> b(n);
                w.note("serialize %s", stName(in.serialize(s, b.p, n)));
            });
            if (i == j.n / 2) elsewhere([&] { w.note("unknown %s", stName(in.setF64(77, 0))); });
            if (i == j.n / 2) { elsewhere([&] { in.reset(); }); Walker f; f.init(j.k.l, j.k.o); f.log = w.log; f.allowDebug = true; w = f; }
        }
        if (s) elsewhere([&] { w.note("free %s", stName(in.freeState(&s))); });
        for (auto &x : in.logs) { w.note("log %d %s %s", x.status, x.category.c_str(), x.message.c_str()); if (!x.inst.empty() && x.inst != j.k.o.name) j.foreign = true; j.messages++; }
        j.log += w.log;
    }
}

size_t driverCases() { return byLib.size() * opt.scale(32, 400); }
void driverCase(size_t i, Rng &r) {
    auto &ks = byLib[i % byLib.size()];
    size_t nt = 2 + r.below(3);
    std::vector<Job> jobs, solo;
    for (size_t t = 0; t < nt; t++) {
        Job j{ks[r.below(ks.size())], r.u64(), 8 + r.below(20), 2 + r.below(2), ""};
        j.k.o.name = "thread" + std::to_string(t);
        j.k.o.logging = r.chance(0.5);
        j.k.o.useIu = r.chance(0.5);
        jobs.push_back(j);
    }
    solo = jobs;
    trace("%zu threads on %s FMI%d", nt, ks[0].l->m->name, ks[0].l->ver);
    for (auto &j : jobs) j.wander = r.chance(0.3);
    for (auto &j : jobs) trace("  %s %s eventMode=%d early=%d seed=%llu n=%zu rounds=%zu%s", j.k.o.name.c_str(), ifName(j.k.o.type), j.k.o.eventMode, j.k.o.early, (unsigned long long)j.seed, j.n, j.rounds, j.wander ? " in changing threads" : "");
    bool soloFirst = r.chance(0.5);
    if (soloFirst) for (auto &j : solo) work(j);
    {
        InCall ic("concurrent instances");
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, nullptr, (unsigned)nt);
        std::vector<std::thread> ts;
        for (auto &j : jobs) ts.emplace_back([&j, &bar] { noWatch = true; pthread_barrier_wait(&bar); work(j); });
        for (auto &t : ts) t.join();
        pthread_barrier_destroy(&bar);
    }
    if (!soloFirst) for (auto &j : solo) work(j);
    for (size_t t = 0; t < nt; t++) {
        if (!jobs[t].opened || !solo[t].opened) fail("instantiate", "instantiation failed");
        if (jobs[t].log != solo[t].log) {
            size_t p = 0, ls = 0;
            const std::string &a = solo[t].log, &b = jobs[t].log;
            while (p < a.size() && p < b.size() && a[p] == b[p]) { if (a[p] == '\n') ls = p + 1; p++; }
            fail("influence", "thread %zu: expected \"%s\" but got \"%s\"", t, a.substr(ls, a.find('\n', ls) - ls).c_str(), b.substr(ls, b.find('\n', ls) - ls).c_str());
        }
        if (jobs[t].foreign) fail("foreign", "thread %zu received a message of another instance", t);
        count("evaluations");
        count("thread histories");
        if (jobs[t].wander) count("histories in changing threads");
        count("messages", jobs[t].messages);
        feature("threads %s%d %zu %s", ks[0].l->m->name, ks[0].l->ver, nt, jobs[t].log.c_str());
    }
    sample("%zu threads, each with its own instances of %s FMI%d, compared with the same histories made alone", nt, ks[0].l->m->name, ks[0].l->ver);
}

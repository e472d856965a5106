// C03 no memory errors, undefined behaviour or hangs under any history; C26 nothing is left behind.
#include "player.hpp"
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

static int P;

#ifdef WITH_LSAN
extern "C" int __lsan_do_recoverable_leak_check(void);
extern "C" void __lsan_disable(void);
extern "C" void __lsan_enable(void);
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

void driverInit() {
    P = atoi(opt.property.c_str() + 1);
    light = opt.extra == "light";
    std::string d = opt.scratch + "/empty-" + std::to_string(getpid());
    if (mkdir(d.c_str(), 0755)) broken("mkdir %s", d.c_str());
    FILE *f = fopen((d + "/y.txt").c_str(), "w");
    if (!f) broken("cannot write to %s", d.c_str());
    fclose(f);
    places.push_back(d);
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

static size_t openFiles() {
    size_t n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

static void playAll(size_t i, Rng &r, size_t len, size_t *ops) {
    Player p[3];
    size_t n = 1 + r.below(3);
    const Kind_ &k = kinds[i % kinds.size()];
    for (size_t j = 0; j < n; j++) {
        p[j].in.label = std::string(1, (char)('a' + (int)j));
        const Kind_ &kk = j && r.chance(0.3) ? kinds[r.below(kinds.size())] : k;
        if (!p[j].open(kk, r)) fail("instantiate", "instantiation failed");
    }
    for (size_t q = 0; q < len; q++) {
        Player &x = p[r.below(n)];
        x.one(r);
        (*ops)++;
        if (r.chance(0.01)) { x.close(); if (!x.open(x.k, r)) fail("instantiate", "instantiation failed"); }
    }
    for (size_t j = 0; j < n; j++) {
        count(("ended in mode " + std::to_string(p[j].w.mode)).c_str());
        p[j].close();
    }
}

static void caseMemory(size_t i, Rng &r) {
    size_t ops = 0;
    playAll(i, r, light ? 60 : 100 + r.below(100), &ops);
    count("evaluations");
    count("operations", ops);
    feature("case %zu", i);
    sample("case %zu: %zu operations on instances of %s FMI%d", i, ops, kinds[i % kinds.size()].l->m->name, kinds[i % kinds.size()].l->ver);
}

#ifdef WITH_LSAN
static void caseLeak(size_t i, Rng &r) {
    size_t ops = 0, files = openFiles();
    uint64_t seed = r.u64();
    std::vector<size_t> held;
    held.reserve(16);
    size_t cycles = i % 4 == 0 ? 8 : 1;
    for (size_t c = 0; c < cycles; c++) {
        Rng rr(seed);
        traceClear();
        size_t o = 0;
        {
            Player p[2];
            for (int j = 0; j < 2; j++) if (!p[j].open(kinds[i % kinds.size()], rr)) fail("instantiate", "instantiation failed");
            for (size_t q = 0; q < 60; q++) { p[rr.below(2)].one(rr); o++; }
            if (rr.chance(0.3)) {
                // failed instantiations
                for (int j = 0; j < 3; j++) {
                    Inst x;
                    InstOpt b = kinds[i % kinds.size()].o;
                    if (j == 0) b.token = "wrong"; else if (j == 1) b.name = ""; else b.type = (IfType)rr.below(3);
                    if (b.type == SE && kinds[i % kinds.size()].l->ver == 2) continue;
                    x.open(kinds[i % kinds.size()].l, b);
                }
            }
            for (auto &x : p) x.close();
        }
        ops += o;
        held.push_back(__sanitizer_get_current_allocated_bytes());
    }
    int leak;
    { InCall ic("leak check"); leak = __lsan_do_recoverable_leak_check(); }
    if (leak) fail("leak", "%s FMI%d: memory is lost after everything was freed (see the worker's log)", kinds[i % kinds.size()].l->m->name, kinds[i % kinds.size()].l->ver);
    if (openFiles() != files) fail("files", "%zu files are open instead of %zu", openFiles(), files);
    if (cycles > 1) {
        bool grows = true;
        for (size_t c = 3; c < cycles; c++) if (held[c] <= held[c - 1]) grows = false;
        if (grows) fail("growth", "%s FMI%d: memory in use grows in every one of %zu equal cycles, from %zu to %zu", kinds[i % kinds.size()].l->m->name, kinds[i % kinds.size()].l->ver, cycles, held[2], held[cycles - 1]);
        count("growth measured");
    }
    count("evaluations");
    count("operations", ops);
    feature("case %zu", i);
    sample("case %zu: %zu operations on instances of %s FMI%d, nothing left", i, ops, kinds[i % kinds.size()].l->m->name, kinds[i % kinds.size()].l->ver);
}
#else
static void caseLeak(size_t, Rng &) { broken("built without leak checker"); }
#endif

size_t driverCases() {
    if (P == 26) return kinds.size() * opt.scale(50, 1000);
    if (light) return kinds.size() * opt.scale(20, 200);
    return kinds.size() * opt.scale(350, 8000);
}
void driverCase(size_t i, Rng &rng) {
    if (P == 26) caseLeak(i, rng);
    else caseMemory(i, rng);
}

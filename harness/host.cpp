// C33 calls have no effect on the process they are made in, nor on their constant arguments.
#include "player.hpp"
#include "imported.hpp"
#include <clocale>
#include <cfenv>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>

extern char **environ;
static std::string spool;   // file that receives what is printed

void driverInit() {
    for (Lib *l : allLibs())
        for (auto &o : supported(l)) kinds.push_back({l, o});
}

static void addf(std::string &s, const char *f, ...) {
    char b[1200];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    s += b;
}
static std::vector<std::string> entries(const std::string &dir) {
    std::vector<std::string> v;
    DIR *d = opendir(dir.c_str());
    if (!d) return v;
    while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
    closedir(d);
    std::sort(v.begin(), v.end());
    return v;
}
static void files(std::string &s, const char *what, const std::string &dir) {
    for (auto &n : entries(dir)) {
        struct stat st;
        if (!stat((dir + "/" + n).c_str(), &st) && S_ISREG(st.st_mode))
            addf(s, "%s: %s, %ld bytes, changed at %ld.%09ld\n", what, n.c_str(), (long)st.st_size, (long)st.st_mtim.tv_sec, (long)st.st_mtim.tv_nsec);
        else addf(s, "%s: %s\n", what, n.c_str());
    }
}

// Everything about the process that belongs to the importer, one line each.
static std::string host(const Kind_ &k, const std::string &dir) {
    std::string s;
    char b[4096];
    addf(s, "working directory: %s\n", getcwd(b, sizeof b) ? b : "?");
    mode_t um = umask(022);
    umask(um);
    addf(s, "umask: %03o\n", (unsigned)um);
    for (char **e = environ; *e; e++) addf(s, "environment: %.1000s\n", *e);
    addf(s, "locale: %s\n", setlocale(LC_ALL, nullptr));
    addf(s, "thread locale: %s\n", uselocale((locale_t)nullptr) == LC_GLOBAL_LOCALE ? "global" : "own");
    addf(s, "rounding: %d\n", fegetround());
    addf(s, "floating-point traps: %d\n", fegetexcept());
    unsigned int csr = __builtin_ia32_stmxcsr();
    addf(s, "denormal numbers: %x\n", csr & 0x8040u);
    for (int i = 1; i < NSIG; i++) {
        struct sigaction sa;
        if (!sigaction(i, nullptr, &sa)) addf(s, "signal %d: %p %x\n", i, (void *)sa.sa_handler, (unsigned)sa.sa_flags);
    }
    sigset_t m;
    sigprocmask(SIG_SETMASK, nullptr, &m);
    for (int i = 1; i < NSIG; i++) if (sigismember(&m, i) == 1) addf(s, "blocked signal: %d\n", i);
    for (int i : {ITIMER_REAL, ITIMER_VIRTUAL}) {
        struct itimerval it;
        getitimer(i, &it);
        addf(s, "timer %d: %d\n", i, it.it_value.tv_sec || it.it_value.tv_usec || it.it_interval.tv_sec || it.it_interval.tv_usec);
    }
    for (int i = 0; i < (int)RLIMIT_NLIMITS; i++) {
        struct rlimit rl;
        getrlimit((__rlimit_resource)i, &rl);
        addf(s, "limit %d: %llu %llu\n", i, (unsigned long long)rl.rlim_cur, (unsigned long long)rl.rlim_max);
    }
    addf(s, "error callback of the import library: %p\n", (void *)logErrorMessage);
    addf(s, "priority: %d\n", getpriority(PRIO_PROCESS, 0));
    addf(s, "threads: %zu\n", entries("/proc/self/task").size());
    addf(s, "child processes: %d\n", !access("/proc/self/task", F_OK) && [] { FILE *f = fopen(("/proc/self/task/" + std::to_string(getpid()) + "/children").c_str(), "r"); int n = 0, c; if (f) { while ((c = fgetc(f)) != EOF) n++; fclose(f); } return n; }());
    for (auto &n : entries("/proc/self/fd")) {
        ssize_t len = readlink(("/proc/self/fd/" + n).c_str(), b, sizeof b - 1);
        if (len < 0) continue;
        b[len] = 0;
        if (strstr(b, "/proc/")) continue;     // the directory being read
        addf(s, "open file: %s %.900s\n", n.c_str(), b);
    }
    files(s, "file in the working directory", ".");
    files(s, "resource", resourcesOf(k.l));
    files(s, "file beside the binary", dir);
    return s;
}
static void same(const std::string &a, const std::string &b) {
    if (a == b) return;
    auto lines = [](const std::string &s) { std::vector<std::string> v; size_t p = 0, e; while ((e = s.find('\n', p)) != std::string::npos) { v.push_back(s.substr(p, e - p)); p = e + 1; } return v; };
    std::vector<std::string> x = lines(a), y = lines(b);
    for (auto &q : x) if (std::find(y.begin(), y.end(), q) == y.end()) fail("host", "the calls changed the process: before \"%.300s\"", q.c_str());
    for (auto &q : y) if (std::find(x.begin(), x.end(), q) == x.end()) fail("host", "the calls changed the process: afterwards \"%.300s\"", q.c_str());
    fail("host", "the calls changed the process");
}

static void failed(Lib *l, const InstOpt &o, Rng &r) {
    for (int j = 0; j < 3; j++) {
        Inst x;
        InstOpt b = o;
        if (j == 0) b.token = "wrong"; else if (j == 1) b.name = ""; else b.type = (IfType)r.below(3);
        if (b.type == SE && l->ver == 2) continue;
        x.open(l, b);
        x.free();
    }
}

// Sends standard output and standard error into a file.
struct Spool {
    int keep[2];
    Spool() {
        fflush(nullptr);
        int fd = open(spool.c_str(), O_CREAT | O_TRUNC | O_RDWR | O_APPEND | O_CLOEXEC, 0600);
        if (fd < 0) broken("%s cannot be opened", spool.c_str());
        for (int i = 0; i < 2; i++) { keep[i] = fcntl(i + 1, F_DUPFD_CLOEXEC, 100); dup2(fd, i + 1); }
        close(fd);
    }
    std::string end() {
        if (keep[0] < 0) return "";
        fflush(nullptr);
        char b[300];
        ssize_t n = pread(1, b, sizeof b, 0);
        for (int i = 0; i < 2; i++) { dup2(keep[i], i + 1); close(keep[i]); }
        keep[0] = -1;
        return std::string(b, n > 0 ? (size_t)n : 0);
    }
    ~Spool() { end(); }
};

size_t driverCases() { return kinds.size() * opt.scale(60, 1500); }
void driverCase(size_t i, Rng &r) {
    const Kind_ &k = kinds[i % kinds.size()];
    if (spool.empty()) {
        spool = opt.scratch + "/printed-" + std::to_string(getpid());
        std::string own = opt.scratch + "/cwd-" + std::to_string(getpid());
        if (mkdir(own.c_str(), 0700) || chdir(own.c_str())) broken("%s cannot be used", own.c_str());
    }
    std::string dir = k.l->path.substr(0, k.l->path.rfind('/'));
    bool import = i / kinds.size() % 4 == 3;
    size_t ops = 0;
    checkInputs = true;
    static const int rounding[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
    // what the calls find here they have to leave here
    fesetround(r.chance(0.5) ? FE_TONEAREST : rounding[r.below(4)]);
    umask(r.chance(0.5) ? 022 : 027);
    setlocale(LC_ALL, r.chance(0.5) ? "C" : "C.UTF-8");
    logErrorMessage = [](const char *, va_list) {};
    srand(4711);
    int first = rand();
    srand(4711);
    std::string printed, before, after;
    {
        Spool sp;
        before = host(k, dir);
        if (import) {
            imported::callLog = r.chance(0.5);
            Lib *l = imported::lib(k.l);
            Inst in;
            Walker w;
            InstOpt o = k.o;
            o.useIu = r.chance(0.3);
            if (!in.open(l, o)) { sp.end(); fail("instantiate", "instantiation failed"); }
            w.init(l, o);
            w.allowDebug = true;
            for (size_t n = 20 + r.below(40); n; n--, ops++) w.step(in, r);
            in.free();
        } else {
            Player p[2];
            Kind_ kk = k;
            kk.o.nullLogger = k.l->ver == 3 && r.chance(0.2);
            for (int j = 0; j < 2; j++) { p[j].in.label = std::string(1, (char)('a' + j)); if (!p[j].open(kk, r)) { sp.end(); fail("instantiate", "instantiation failed"); } }
            for (size_t n = 40 + r.below(60); n; n--, ops++) p[r.below(2)].one(r);
            if (is(*k.l->m, "Clocks") && i % 8 == 0) { p[0].in.reset(); p[0].in.enterInit(0, false, 0); p[0].in.exitInit(); p[0].in.activate(1003, 1); }
            if (r.chance(0.3)) failed(k.l, k.o, r);
            for (auto &x : p) x.close();
        }
        after = host(k, dir);
        printed = sp.end();
    }
    bool drew = rand() != first;
    fesetround(FE_TONEAREST);
    umask(022);
    setlocale(LC_ALL, "C");
    same(before, after);
    if (drew) fail("random", "the calls changed the state of rand()");
    if (!printed.empty()) fail("printed", "the calls printed to the standard output or error of the process: \"%.200s\"", printed.c_str());
    count("evaluations");
    count(import ? "histories through the import library" : "histories made directly");
    count("operations", ops);
    count("facts compared", (uint64_t)std::count(before.begin(), before.end(), '\n'));
    feature("case %zu", i);
    sample("%s FMI%d%s: %zu operations, process and arguments as before", k.l->m->name, k.l->ver, import ? " through the import library" : "", ops);
}

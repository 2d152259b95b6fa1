// Runner: one forked process per simulated run, results through shared memory, JSON lines on stdout.
#include "plan.hpp"
#include "proc.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

void check_races();
static std::string g_scratch;     // of this runner process
static int g_errfd = -1;
char* g_board = nullptr;          // blackboard shared between simulated processes of a run
static char g_run_dir[80];         // fixed before the first run: simulated threads read it freely
const char* scratch_dir() { return g_run_dir; }

#ifdef SIM_A
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=66:allocator_may_return_null=1:max_allocation_size_mb=1024:handle_abort=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:"
           "symbolize=0:detect_odr_violation=0:print_legend=0:print_summary=1:allocator_release_to_os_interval_ms=-1";
}
#endif

static void clean_dir(const std::string& d, int depth = 0) {      // only the run's own scratch directory
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string f = d + "/" + e->d_name;
        struct stat st;
        if (depth < 3 && lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { clean_dir(f, depth + 1); rmdir(f.c_str()); }
        else unlink(f.c_str());
    }
    closedir(h);
}

static const Workload* workload(const std::string& prop) {
    for (auto& w : workloads()) if (prop == w.prop) return &w;
    return nullptr;
}

static void enter(const Plan& p, uint64_t env) {
    sim::seed_random_device(env);
    sim::seed_topology(env * 7 + 1);
    sim::alloc_init(true);
    sim::io_root(scratch_dir());
    sim::io_dir_seed(env * 13 + 5);
    sim::sched_init(p.sched);
}
static void guarded(const std::function<void()>& body) {
    try {
        body();
    } catch (const std::exception& e) {
        sim::violation("unexpected-exception", "exception out of an operation that must succeed (%s): %s", sim::S->phase, e.what());
    } catch (...) {
        sim::violation("unexpected-exception", "exception out of an operation that must succeed (%s)", sim::S->phase);
    }
    check_races();
}
ProcEnd run_process(const Plan& p, int idx, const std::function<void()>& body) {
    pid_t k = fork();
    if (k == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        enter(p, p.env + 1000003ull * idx);
        guarded(body);
        sim::end_run(0);
    }
    int st = 0;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    if (sim::S->violated) sim::end_run(3);
    ProcEnd e;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) e.ok = true;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 99) e.killed = true;
    else if (WIFSIGNALED(st)) raise(WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM ? SIGXCPU : WTERMSIG(st));
    else sim::end_run(WEXITSTATUS(st));
    return e;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

static bool g_verbose = false, g_sw = false;
static void one(const Plan& p, const Workload* w) {
    sim::Shared* S = sim::S;
    memset((void*)S, 0, offsetof(sim::Shared, sw));
    S->hash = 0x1234;
    clean_dir(scratch_dir());
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
    fflush(stdout);
    pid_t k = fork();
    if (k == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        setpgid(0, 0);
        dup2(g_errfd, 2);
        int nul = open("/dev/null", 1);
        dup2(nul, 1);
        struct rlimit rl{25, 30};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc{0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        alarm(40);
        if (w->raw) {
            w->exec(p);
        } else {
            enter(p, p.env);
            guarded([&] { w->exec(p); });
        }
        S->finished = 1;
        sim::end_run(0);
    }
    int st = 0;
    struct rusage ru;
    while (wait4(k, &st, 0, &ru) < 0 && errno == EINTR) {}
    kill(-k, SIGKILL);
    std::string cls, detail;
    bool viol = false;
    if (S->violated) { viol = true; cls = S->cls; detail = S->detail; }
    else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->finished)) {
        viol = true;
        char err[6001];
        ssize_t n = pread(g_errfd, err, 6000, 0);
        err[n > 0 ? n : 0] = 0;
        std::string e = err;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) { cls = "hang"; detail = "the operation does not return"; }
        else if (e.find("AddressSanitizer") != std::string::npos && e.find("AddressSanitizer:") != std::string::npos) { cls = "memory-error"; detail = e.substr(e.find("AddressSanitizer:"), 1500); }
        else if (WIFSIGNALED(st)) { cls = "crash"; detail = std::string("process killed by signal ") + strsignal(WTERMSIG(st)) + ": " + e.substr(0, 600); }
        else { cls = "exit"; detail = "process ended with exit code " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + ": " + e.substr(0, 600); }
        detail += std::string(" (during: ") + S->phase + ")";
        S->hash = sim::mix64(S->hash ^ 77);
    }
    uint64_t ph = 0xcbf29ce484222325ull;           // operations and faults of the plan, without seed and schedule
    for (auto& l : p.lines) for (unsigned char c : l.text() + "\n") ph = (ph ^ c) * 0x100000001b3ull;
    std::ostringstream o;
    o << "{\"ph\":\"" << std::hex << ph << std::dec << "\",\"seed\":" << p.seed << ",\"viol\":" << (viol ? 1 : 0);
    if (viol) o << ",\"cls\":\"" << jesc(cls) << "\",\"detail\":\"" << jesc(detail) << "\",\"phase\":\"" << jesc(S->phase) << "\"";
    o << ",\"hash\":\"" << std::hex << S->hash << std::dec << "\",\"points\":" << S->points << ",\"sw\":" << S->switches << ",\"ilv\":\"" << std::hex
      << S->ilv_hash << std::dec << "\",\"teams\":" << S->teams << ",\"live\":" << S->max_live
      << ",\"nsw\":" << S->nsw << ",\"ms\":" << (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) * 1000 + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1000 << ",\"ctr\":{";
    for (uint32_t i = 0; i < S->nctr; ++i) o << (i ? "," : "") << "\"" << jesc(S->ctr[i].name) << "\":" << S->ctr[i].n;
    o << "}";
    if (g_verbose) o << ",\"log\":\"" << jesc(std::string(S->log, S->loglen)) << "\"";
    if (g_sw) {
        o << ",\"sws\":[";
        for (uint32_t i = 0; i < S->nsw; ++i) o << (i ? "," : "") << "[" << S->sw[i].tid << "," << S->sw[i].pts << "," << S->sw[i].to << "]";
        o << "]";
    }
    o << "}";
    puts(o.str().c_str());
    fflush(stdout);
    clean_dir(scratch_dir());
}

static void on_exit_clean() {
    clean_dir(scratch_dir());
    rmdir(scratch_dir());
    rmdir(g_scratch.c_str());
}
static void on_term(int) { on_exit_clean(); _exit(2); }

int main(int argc, char** argv) {
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE)) {
        if (personality(pers | ADDR_NO_RANDOMIZE) >= 0 && !getenv("SIM_REEXEC")) {
            setenv("SIM_REEXEC", "1", 1);
            char self[512] = {0};
            if (readlink("/proc/self/exe", self, sizeof self - 1) > 0) execv(self, argv);
        }
    }
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 20);
    std::vector<std::string> a;
    int cpu = -1;
    for (int i = 1; i < argc; ++i) {
        if (!strcmp(argv[i], "-v")) g_verbose = true;
        else if (!strcmp(argv[i], "-w")) g_sw = true;
        else if (!strcmp(argv[i], "-c") && i + 1 < argc) cpu = atoi(argv[++i]);
        else a.push_back(argv[i]);
    }
    if (a.size() >= 3 && a[0] == "plan") {
        const Workload* w = workload(a[1]);
        if (!w) return 2;
        fputs(w->gen(strtoull(a[2].c_str(), nullptr, 10)).text().c_str(), stdout);
        return 0;
    }
    if (cpu >= 0) {
        cpu_set_t s, cur;
        sched_getaffinity(0, sizeof cur, &cur);
        std::vector<int> have;
        for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &cur)) have.push_back(i);
        CPU_ZERO(&s);
        CPU_SET(have[cpu % have.size()], &s);
        sched_setaffinity(0, sizeof s, &s);
    }
    struct stat sb;
    const char* base = stat("/dev/shm", &sb) == 0 && access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    char dir[64];
    snprintf(dir, sizeof dir, "%s/dwsim.%08d", base, (int)getpid());
    g_scratch = dir;
    snprintf(g_run_dir, sizeof g_run_dir, "%s/r", dir);
    mkdir(dir, 0700);
    mkdir(scratch_dir(), 0700);
    signal(SIGTERM, on_term);
    signal(SIGINT, on_term);
    signal(SIGPIPE, on_term);
    g_errfd = memfd_create("stderr", 0);
    sim::S = (sim::Shared*)mmap(nullptr, sizeof(sim::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_board = (char*)mmap(nullptr, kBoard, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int rc = 0;
    if (a.size() >= 5 && a[0] == "run") {          // run PROP start count step
        const Workload* w = workload(a[1]);
        if (!w) { fprintf(stderr, "no such property\n"); rc = 2; }
        else {
            uint64_t s = strtoull(a[2].c_str(), nullptr, 10), n = strtoull(a[3].c_str(), nullptr, 10), step = strtoull(a[4].c_str(), nullptr, 10);
            for (uint64_t i = 0; i < n; ++i) {
                Plan p = w->gen(s + i * step);
                // run exactly what the text says, so that a replay file reproduces it
                Plan q = Plan::parse(p.text());
                one(q, w);
            }
        }
    } else if (a.size() >= 2 && a[0] == "exec") {  // exec FILE... ("-" reads file names from stdin)
        auto go = [&](const std::string& f) {
            std::ifstream in(f);
            std::stringstream ss;
            ss << in.rdbuf();
            Plan p = Plan::parse(ss.str());
            const Workload* w = workload(p.prop);
            if (!w) { puts("{\"error\":1}"); fflush(stdout); return; }
            one(p, w);
        };
        if (a[1] == "-") {
            char b[4096];
            while (fgets(b, sizeof b, stdin)) { b[strcspn(b, "\n")] = 0; if (b[0]) go(b); }
        } else for (size_t i = 1; i < a.size(); ++i) go(a[i]);
    } else if (!a.empty() && a[0] == "list") {
        for (auto& w : workloads()) puts(w.prop);
    } else { fprintf(stderr, "usage: run PROP start count step | plan PROP seed | exec FILE\n"); rc = 2; }
    on_exit_clean();
    return rc;
}

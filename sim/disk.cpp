// Disk seam: the file calls of the library, of libstdc++'s file streams and of stdio as used by
// the image decoders, restricted to files below the run's scratch directory.
#include "simrt_int.hpp"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <map>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace sim {
static char g_root[512];
static size_t g_rootlen = 0;
static bool g_armed = false;
static IoFault g_f[8];
static int g_nf = 0;
static IoBenign g_b;
static Rng g_brng(1);
static IoCounts g_c;
static bool g_tracked[1024];
static int g_open = 0;
static int g_eintr_run = 0;

void io_root(const char* d) { strncpy(g_root, d, sizeof g_root - 1); g_rootlen = strlen(g_root); }
void io_arm(const std::vector<IoFault>& f, const IoBenign& b) {
    g_nf = 0;
    for (auto& x : f) if (g_nf < 8) g_f[g_nf++] = x;
    g_b = b;
    g_brng = Rng(b.seed);
    memset(&g_c, 0, sizeof g_c);
    g_eintr_run = 0;
    g_armed = true;
}
IoCounts io_disarm() { g_armed = false; return g_c; }
int io_open_handles() { return g_open; }

static bool ours(const char* p) { return g_rootlen && p && !strncmp(p, g_root, g_rootlen); }
static bool tracked(int fd) { return fd >= 0 && fd < 1024 && g_tracked[fd]; }

static const char* ename(int e) {
    switch (e) {
        case EIO: return "EIO"; case ENOSPC: return "ENOSPC"; case EINTR: return "EINTR"; case EACCES: return "EACCES";
        case EMFILE: return "EMFILE"; case ENOENT: return "ENOENT"; case EDQUOT: return "EDQUOT"; case EFBIG: return "EFBIG";
        case EROFS: return "EROFS"; case ENOMEM: return "ENOMEM"; default: return "err";
    }
}
// Decide about one call.  Returns the fault that applies, or null.
static const IoFault* decide(IoOp op) {
    long k = g_c.n[(int)op]++;
    sync_point();
    if (!g_armed) return nullptr;
    for (int i = 0; i < g_nf; ++i) {
        const IoFault& f = g_f[i];
        if (f.op == op && f.index >= 0 && (f.sticky ? k >= f.index : k == f.index)) {
            static const char* on[] = {"open", "read", "write", "close", "seek", "rename", "sync"};
            char nm[48];
            snprintf(nm, sizeof nm, "fault.%s.%s", on[(int)op], f.kill ? "kill" : ename(f.err));
            count(nm);
            if (!f.kill) g_c.hard++;
            logf("disk: %s #%ld -> %s", on[(int)op], k, f.kill ? "process killed" : ename(f.err));
            return &f;
        }
    }
    return nullptr;
}
static bool benign_eintr() {
    if (!g_armed || g_b.p_eintr <= 0 || g_eintr_run > 3) { g_eintr_run = 0; return false; }
    if (!g_brng.chance(g_b.p_eintr)) { g_eintr_run = 0; return false; }
    ++g_eintr_run;
    count("fault.eintr");
    return true;
}
static size_t benign_len(size_t n) {
    if (!g_armed || n < 2 || g_b.p_short <= 0 || !g_brng.chance(g_b.p_short)) return n;
    count("fault.short");
    return 1 + g_brng.below((uint32_t)(n - 1 > 0xffffff ? 0xffffff : n - 1));
}

// A call that either happens completely or fails (or the process dies before or after it).
template <typename F> static int do_call(IoOp op, F call) {
    if (const IoFault* f = decide(op)) {
        if (f->kill) { if (f->part >= 0.5) call(); end_run(99); }
        errno = f->err;
        return -1;
    }
    return call();
}

static int sys_open(const char* p, int fl, int mode) {
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
static int do_open(const char* p, int fl, int mode) {
    if (const IoFault* f = decide(IoOp::OPEN)) {
        if (f->kill) end_run(99);
        errno = f->err;
        return -1;
    }
    int fd = sys_open(p, fl, mode);
    if (fd >= 0 && fd < 1024) { g_tracked[fd] = true; ++g_open; }
    return fd;
}
static bool at_eof(int fd) {
    struct stat st;
    off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
    return fstat(fd, &st) == 0 && pos >= st.st_size;
}
static ssize_t do_read(int fd, void* b, size_t n) {
    if (const IoFault* f = decide(IoOp::READ)) {
        if (f->kill) end_run(99);
        if (!at_eof(fd)) g_c.withheld++;
        errno = f->err;
        return -1;
    }
    if (benign_eintr()) { errno = EINTR; return -1; }
    ssize_t r = syscall(SYS_read, fd, b, benign_len(n));
    if (r > 0) g_c.bytes_read += r;
    return r;
}
static ssize_t do_write(int fd, const void* b, size_t n) {
    if (const IoFault* f = decide(IoOp::WRITE)) {
        size_t k = (size_t)(f->part * n);
        if (k > n) k = n;
        if (f->kill) {
            if (k) { ssize_t r = syscall(SYS_write, fd, b, k); (void)r; }
            end_run(99);
        }
        if (k && k < n && !f->sticky) {          // some bytes go through, then the error on the next call
            IoFault* m = const_cast<IoFault*>(f);
            m->index++;
            m->part = 0;
            g_c.hard--;
            return syscall(SYS_write, fd, b, k);
        }
        errno = f->err;
        return -1;
    }
    if (benign_eintr()) { errno = EINTR; return -1; }
    ssize_t r = syscall(SYS_write, fd, b, benign_len(n));
    if (r > 0) g_c.bytes_written += r;
    return r;
}
static int do_close(int fd) {
    g_tracked[fd] = false;
    --g_open;
    if (const IoFault* f = decide(IoOp::CLOSE)) {
        syscall(SYS_close, fd);
        if (f->kill) end_run(99);
        errno = f->err;
        return -1;
    }
    return (int)syscall(SYS_close, fd);
}

// Directories: the order of the entries is the file system's choice, here the seed's.
struct Listing { std::vector<dirent> e; size_t at = 0; int fd = -1; };
static std::map<DIR*, Listing*>* g_dirs = nullptr;
static uint64_t g_dirseed = 1;
void io_dir_seed(uint64_t s) { g_dirseed = s; }
static DIR* list_dir(DIR* d, int fd) {
    static auto rd = (dirent* (*)(DIR*))dlsym(RTLD_NEXT, "readdir");
    if (!d) return d;
    Listing* l = new Listing;
    l->fd = fd;
    while (dirent* e = rd(d)) l->e.push_back(*e);
    std::sort(l->e.begin(), l->e.end(), [](const dirent& a, const dirent& b) { return strcmp(a.d_name, b.d_name) < 0; });
    Rng r((g_dirseed + 77 * l->e.size()) * 0x9E3779B97F4A7C15ull);
    for (size_t i = l->e.size(); i > 1; --i) {
        size_t j = r.below((uint32_t)i);
        dirent t = l->e[i - 1];
        l->e[i - 1] = l->e[j];
        l->e[j] = t;
    }
    if (!g_dirs) g_dirs = new std::map<DIR*, Listing*>;
    (*g_dirs)[d] = l;
    count("directories listed");
    return d;
}
static Listing* listing(DIR* d) {
    if (!me || !g_dirs) return nullptr;
    auto it = g_dirs->find(d);
    return it == g_dirs->end() ? nullptr : it->second;
}

// stdio streams opened by the library itself (image decoders)
struct Cookie { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read(((Cookie*)c)->fd, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
    ssize_t r = do_write(((Cookie*)c)->fd, b, n);
    return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* o, int w) {
    if (const IoFault* f = decide(IoOp::SEEK)) { errno = f->err; return -1; }
    off_t r = syscall(SYS_lseek, ((Cookie*)c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
extern "C" void __real_free(void*);
extern "C" void* __real_malloc(size_t);
static int ck_close(void* c) {
    int r = do_close(((Cookie*)c)->fd);
    __real_free(c);
    return r;
}
static int parse_mode(const char* m) {
    bool plus = strchr(m, '+');
    switch (m[0]) {
        case 'r': return plus ? O_RDWR : O_RDONLY;
        case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
        default: return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
}
static bool from_libstdcxx(void* pc) {
    Dl_info i;
    return dladdr(pc, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}
// stream buffers of libstdc++ use fopen only to open, and then the descriptor
static FILE* do_fopen(const char* p, const char* m, void* pc) {
    int fd = do_open(p, parse_mode(m), 0666);
    if (fd < 0) return nullptr;
    if (from_libstdcxx(pc)) {
        FILE* f = fdopen(fd, m);
        return f;
    }
    Cookie* c = (Cookie*)__real_malloc(sizeof(Cookie));
    c->fd = fd;
    cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
    return fopencookie(c, m, io);
}
} // namespace sim

using namespace sim;
template <typename F> static F next_sym(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen64(const char* p, const char* m) {
    if (me && ours(p)) return do_fopen(p, m, __builtin_return_address(0));
    static auto r = next_sym<FILE* (*)(const char*, const char*)>("fopen64");
    return r(p, m);
}
FILE* fopen(const char* p, const char* m) {
    if (me && ours(p)) return do_fopen(p, m, __builtin_return_address(0));
    static auto r = next_sym<FILE* (*)(const char*, const char*)>("fopen");
    return r(p, m);
}
int fclose(FILE* f) {
    static auto r = next_sym<int (*)(FILE*)>("fclose");
    if (!f) return r(f);
    int fd = fileno(f);
    if (me && fd >= 0 && tracked(fd)) {         // libstdc++ stream: the simulated close happens here
        g_tracked[fd] = false;
        --g_open;
        const IoFault* x = decide(IoOp::CLOSE);
        int e = r(f);
        if (x) { if (x->kill) end_run(99); errno = x->err; return EOF; }
        return e;
    }
    return r(f);
}
static int open_impl(const char* p, int fl, int mode) {
    if (me && ours(p)) return do_open(p, fl, mode);
    return sys_open(p, fl, mode);
}
int open(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return open_impl(p, fl, m);
}
int open64(const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return open_impl(p, fl, m);
}
ssize_t read(int fd, void* b, size_t n) {
    if (me && tracked(fd)) return do_read(fd, b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (me && tracked(fd)) return do_write(fd, b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (me && tracked(fd)) {
        // one simulated write over the concatenation
        std::vector<char>* all = new std::vector<char>();
        for (int i = 0; i < c; ++i) all->insert(all->end(), (char*)v[i].iov_base, (char*)v[i].iov_base + v[i].iov_len);
        ssize_t r = do_write(fd, all->data(), all->size());
        int e = errno;
        delete all;
        errno = e;
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}
static off64_t seek_impl(int fd, off64_t o, int w) {
    if (me && tracked(fd)) {
        if (const IoFault* f = decide(IoOp::SEEK)) { errno = f->err; return -1; }
    }
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) __THROW { return seek_impl(fd, o, w); }
off_t lseek(int fd, off_t o, int w) __THROW { return seek_impl(fd, o, w); }
int rename(const char* a, const char* b) __THROW {
    auto call = [&] { return (int)syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); };
    return me && (ours(a) || ours(b)) ? do_call(IoOp::RENAME, call) : call();
}
int renameat(int d, const char* a, int e, const char* b) __THROW {
    auto call = [&] { return (int)syscall(SYS_renameat2, d, a, e, b, 0); };
    return me && (ours(a) || ours(b)) ? do_call(IoOp::RENAME, call) : call();
}
int fsync(int fd) {
    auto call = [&] { return (int)syscall(SYS_fsync, fd); };
    return me && tracked(fd) ? do_call(IoOp::SYNC, call) : call();
}
int fdatasync(int fd) {
    auto call = [&] { return (int)syscall(SYS_fdatasync, fd); };
    return me && tracked(fd) ? do_call(IoOp::SYNC, call) : call();
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o) {
    if (me && tracked(fd)) {
        if (const IoFault* f = decide(IoOp::READ)) {
            if (f->kill) end_run(99);
            struct stat st;
            if (fstat(fd, &st) || o < st.st_size) g_c.withheld++;
            errno = f->err;
            return -1;
        }
        if (benign_eintr()) { errno = EINTR; return -1; }
        return syscall(SYS_pread64, fd, b, benign_len(n), o);
    }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int openat(int d, const char* p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    return me && ours(p) ? do_open(p, fl, m) : (int)syscall(SYS_openat, d, p, fl, m);
}
DIR* fdopendir(int fd) {
    static auto r = next_sym<DIR* (*)(int)>("fdopendir");
    DIR* d = r(fd);
    return me && tracked(fd) ? list_dir(d, fd) : d;
}
DIR* opendir(const char* p) {
    static auto r = next_sym<DIR* (*)(const char*)>("opendir");
    static auto rf = next_sym<DIR* (*)(int)>("fdopendir");
    if (!(me && ours(p))) return r(p);
    int fd = do_open(p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    return fd < 0 ? nullptr : list_dir(rf(fd), fd);
}
dirent* readdir(DIR* d) {
    static auto r = next_sym<dirent* (*)(DIR*)>("readdir");
    Listing* l = listing(d);
    if (!l) return r(d);
    if (const IoFault* f = decide(IoOp::READ)) {
        if (f->kill) end_run(99);
        if (l->at < l->e.size()) g_c.withheld++;
        errno = f->err;
        return nullptr;
    }
    return l->at < l->e.size() ? &l->e[l->at++] : nullptr;
}
int closedir(DIR* d) {
    static auto r = next_sym<int (*)(DIR*)>("closedir");
    if (Listing* l = listing(d)) {
        g_tracked[l->fd] = false;
        --g_open;
        delete l;
        g_dirs->erase(d);
    }
    return r(d);
}
int __openat_2(int d, const char* p, int fl) {        // fortified callers, as in libstdc++
    return me && ours(p) ? do_open(p, fl, 0) : (int)syscall(SYS_openat, d, p, fl, 0);
}
int creat(const char* p, mode_t m) { return open_impl(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
    if (me && tracked(fd)) return do_close(fd);
    return (int)syscall(SYS_close, fd);
}
}

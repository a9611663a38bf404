#define MLSE_REAL_RANDOM
// Native counterpart of the symbolic executor's harness interface: runs a
// harness, linked with the real code, on the inputs of one path.
//
// Exit status: 0 passed; 1 assertion violated; 3 an assumption does not hold;
// 4 deadlock; 5 the input file does not fit; sanitizers and abort() end the
// process in their own way.
#include <aws/core/Aws.h>
#include <fmt/format.h>
#include <fcntl.h>
#include <fnmatch.h>
#include <fts.h>
#include <iconv.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/wait.h>
#include <zlib.h>
#include <unistd.h>
#include <pthread.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <random>
#include <string>
#include <utility>
#include <vector>

#include "../harness/mlse.h"

namespace {

struct In {
    std::string name;
    std::vector<unsigned char> v;
};
// What has been taken stays: it must not count as memory given back.
struct Inputs {
    std::deque<In> all;
    std::size_t at = 0;
    bool empty() const { return at == all.size(); }
    In &front() { return all[at]; }
    void pop_front() { at++; }
    void push_back(In x) { all.push_back(std::move(x)); }
    In &back() { return all.back(); }
} inputs;
std::map<std::string, long> params;
std::vector<std::uint64_t> trace;
bool lax = false;

void quit(int rc)
{
    fflush(nullptr);
    _exit(rc);
}

struct Th {
    sem_t sem;
    void *(*fn)(void *);
    void *arg;
    const volatile std::uint32_t *addr = nullptr;
    std::uint32_t val = 0;
    bool waiting = false, done = false;
};
std::vector<Th *> th;
int cur = 0;
int preempt_bound = -1, preempts = 0;
bool unbounded = false;

bool enabled(size_t t)
{
    Th &x = *th[t];
    return !x.done && (!x.waiting || *x.addr == x.val);
}

void go(size_t t)
{
    th[t]->waiting = false;
    if (int(t) == cur)
        return;
    int me = cur;
    cur = int(t);
    sem_post(&th[t]->sem);
    if (!th[size_t(me)]->done)
        while (sem_wait(&th[size_t(me)]->sem)) {
        }
}

void schedule(bool yield_point)
{
    std::vector<size_t> en;
    bool all = true;
    for (size_t t = 0; t < th.size(); t++) {
        if (!th[t]->done)
            all = false;
        if (enabled(t))
            en.push_back(t);
    }
    if (en.empty()) {
        if (all)
            return;
        printf("VIOLATED deadlock\n");
        quit(4);
    }
    bool cur_en = false;
    for (auto t : en)
        cur_en |= int(t) == cur;
    if (cur_en && yield_point && preempt_bound >= 0 && preempts >= preempt_bound) {
        th[size_t(cur)]->waiting = false;
        return;
    }
    size_t next = en[0];
    if (en.size() > 1) {
        if (inputs.empty() || inputs.front().name != "sched") {
            if (!lax) {
                printf("schedule mismatch (next input %s)\n", inputs.empty() ? "none" : inputs.front().name.c_str());
                quit(5);
            }
            if (cur_en)
                next = size_t(cur);
        }
        else {
            next = inputs.front().v.at(0);
            inputs.pop_front();
            bool ok = false;
            for (auto t : en)
                ok |= t == next;
            if (!ok) {
                printf("schedule mismatch: thread %zu is not enabled\n", next);
                quit(5);
            }
        }
    }
    if (cur_en && yield_point && int(next) != cur)
        preempts++;
    go(next);
}

thread_local int self_id = 0;

void *start(void *p)
{
    auto id = reinterpret_cast<std::uintptr_t>(p);
    self_id = int(id);
    while (sem_wait(&th[id]->sem)) {
    }
    th[id]->fn(th[id]->arg);
    th[id]->done = true;
    schedule(false);
    return nullptr;
}

}  // namespace

extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __lsan_do_recoverable_leak_check();

extern "C" {
void mlse_symbolic(void *p, std::size_t n, const char *name)
{
    while (!inputs.empty() && inputs.front().name == "uninit")
        inputs.pop_front();
    if (lax)
        while (!inputs.empty() && inputs.front().name == "sched" && strcmp(name, "sched") != 0)
            inputs.pop_front();
    if (inputs.empty() || inputs.front().name != name || inputs.front().v.size() != n) {
        printf("input mismatch: %s[%zu] wanted, %s[%zu] next\n", name, n, inputs.empty() ? "nothing" : inputs.front().name.c_str(),
               inputs.empty() ? size_t(0) : inputs.front().v.size());
        quit(5);
    }
    if (n)
        memcpy(p, inputs.front().v.data(), n);
    inputs.pop_front();
}
void mlse_assume(bool c)
{
    if (!c) {
        printf("assumption does not hold\n");
        quit(3);
    }
}
void mlse_assert(bool c, const char *msg)
{
    if (!c) {
        printf("VIOLATED %s\n", msg);
        quit(1);
    }
}
void mlse_reach(const char *) {}
std::uint64_t mlse_concretize(std::uint64_t v) { return v; }
// Only good for comparisons with themselves; the first leaves out what the
// runtime keeps for itself, the second cannot be used with threads.
std::uint64_t mlse_live_heap()
{
    static int usable = -1;
    if (usable < 0) {
        // Looking for leaks might not be allowed here; find out in a child.
        fflush(stdout);
        const pid_t p = fork();
        if (p == 0) {
            const int fd = ::open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
            _exit(__lsan_do_recoverable_leak_check() != 0 ? 43 : 42);
        }
        int status = 0;
        usable = p > 0 && waitpid(p, &status, 0) == p && WIFEXITED(status) && WEXITSTATUS(status) == 42;
        return 0;
    }
    return usable != 0 && __lsan_do_recoverable_leak_check() != 0;
}
std::uint64_t mlse_live_bytes()
{
    trace.reserve(1U << 16);
    return __sanitizer_get_current_allocated_bytes();
}
// Room that is made for it must not count as memory in use.
void mlse_trace(std::uint64_t v) { trace.push_back(v); }
long mlse_param(const char *name, long def)
{
    auto it = params.find(name);
    return it == params.end() ? def : it->second;
}
int mlse_in_engine() { return 0; }
int mlse_is_symbolic(std::uint64_t) { return 0; }
int mlse_readable(const void *, std::size_t) { return 1; }
static void report()
{
    printf("TRACE ");
    for (auto v : trace)
        printf("%llx,", static_cast<unsigned long long>(v));
    printf("\n");
}
void mlse_end()
{
    report();
    quit(0);
}
void mlse_print(const char *msg, std::uint64_t v) { printf("%s %lld (0x%llx)\n", msg, static_cast<long long>(v), static_cast<unsigned long long>(v)); }
int mlse_thread_create(void *(*fn)(void *), void *arg)
{
    auto *t = new Th;
    sem_init(&t->sem, 0, 0);
    t->fn = fn;
    t->arg = arg;
    th.push_back(t);
    auto id = th.size() - 1;
    pthread_t p;
    if (pthread_create(&p, nullptr, start, reinterpret_cast<void *>(id)))
        abort();
    pthread_detach(p);
    return int(id);
}
void mlse_yield()
{
    if (th.size() > 1)
        schedule(true);
}
void mlse_await(const std::uint32_t *addr, std::uint32_t val)
{
    while (*static_cast<const volatile std::uint32_t *>(addr) != val) {
        Th &t = *th[size_t(cur)];
        t.addr = addr;
        t.val = val;
        t.waiting = true;
        schedule(false);
    }
}
int mlse_self() { return cur; }
int mlse_thread_done(int t) { return th[size_t(t)]->done; }
}

// The code under test calls these under other names, so that a harness can
// replace them; by default they are the real ones.
#define FWD(ret, name, params, args) \
    extern "C" __attribute__((weak)) ret mlse_sys_##name params { return ::name args; }
FWD(ssize_t, read, (int f, void *p, size_t n), (f, p, n))
FWD(int, open, (const char *p, int f, mode_t m), (p, f, m))
FWD(int, close, (int f), (f))
FWD(int, fstat, (int f, struct stat *s), (f, s))
FWD(off_t, lseek, (int f, off_t o, int w), (f, o, w))
FWD(void *, mmap, (void *a, size_t n, int p, int f, int d, off_t o), (a, n, p, f, d, o))
FWD(int, munmap, (void *a, size_t n), (a, n))
FWD(void *, mremap, (void *a, size_t o, size_t n, int f), (a, o, n, f))
FWD(int, posix_fadvise, (int d, off_t o, off_t n, int a), (d, o, n, a))
FWD(int, select, (int n, fd_set *r, fd_set *w, fd_set *e, timeval *t), (n, r, w, e, t))
FWD(int, unlink, (const char *p), (p))
FWD(int, mkstemp, (char *p), (p))
FWD(int, ftruncate, (int f, off_t n), (f, n))
FWD(int, inflate, (z_streamp z, int f), (z, f))
FWD(int, inflateInit2_, (z_streamp z, int b, const char *v, int s), (z, b, v, s))
FWD(int, inflateEnd, (z_streamp z), (z))
FWD(int, inflateReset, (z_streamp z), (z))
FWD(size_t, iconv, (iconv_t c, char **i, size_t *in, char **o, size_t *on), (c, i, in, o, on))
FWD(iconv_t, iconv_open, (const char *t, const char *f), (t, f))
FWD(int, iconv_close, (iconv_t c), (c))
FWD(FTS *, fts_open, (char *const *p, int o, int (*c)(const FTSENT **, const FTSENT **)), (p, o, c))
FWD(FTSENT *, fts_read, (FTS *f), (f))
FWD(int, fts_close, (FTS *f), (f))
FWD(int, fnmatch, (const char *p, const char *s, int f), (p, s, f))
FWD(int, sysinfo, (struct sysinfo *s), (s))
FWD(int, pthread_sigmask, (int h, const sigset_t *s, sigset_t *o), (h, s, o))
extern "C" __attribute__((weak)) int mlse_sys_nanosleep(const timespec *, timespec *)
{
    mlse_yield();
    return 0;
}

// A harness may replace the service.
namespace Aws::S3 {
#define S3(op) \
    __attribute__((weak)) Model::op##Outcome S3Client::op(const Model::op##Request &) const { return Client::AWSError<S3Errors>{}; }
S3(ListObjectsV2)
S3(GetObject)
S3(HeadObject)
}  // namespace Aws::S3

namespace std {
void random_device::_M_init(const string &) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sym<unsigned>("random_device"); }
}

int main(int argc, char **argv)
{
    const char *file = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--lax")
            lax = true;
        else if (a == "-p") {
            std::string kv = argv[++i];
            auto q = kv.find('=');
            params[kv.substr(0, q)] = std::stol(kv.substr(q + 1));
        }
        else if (a == "--preempt")
            preempt_bound = std::stoi(argv[++i]);
        else
            file = argv[i];
    }
    FILE *f = file ? fopen(file, "r") : nullptr;
    if (!f) {
        fprintf(stderr, "usage: replay [-p name=value] [--preempt n] INPUTS\n");
        return 2;
    }
    char *line = nullptr;
    size_t cap = 0;
    ssize_t len;
    while ((len = getline(&line, &cap, f)) > 0) {
        while (len && (line[len - 1] == '\n' || line[len - 1] == '\r'))
            line[--len] = 0;
        if (!len || line[0] == '#')
            continue;
        std::string s(line, size_t(len));
        auto q = s.rfind(' ');
        In in;
        in.name = q == std::string::npos ? s : s.substr(0, q);
        if (q != std::string::npos)
            for (size_t i = q + 1; i + 1 < s.size(); i += 2)
                in.v.push_back(static_cast<unsigned char>(std::stoi(s.substr(i, 2), nullptr, 16)));
        inputs.push_back(std::move(in));
    }
    fclose(f);
    free(line);
    th.push_back(new Th);
    sem_init(&th[0]->sem, 0, 0);
    mlse_main();
    report();
    fflush(nullptr);
    _exit(0);
}

#include "engine.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <stdio_ext.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <iostream>
#include <set>
#include <unordered_map>

namespace sim
{
// ------------------------------------------------------------------ utilities
std::string strf(const char *fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    return b;
}
uint64_t raw_now_ns()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return uint64_t(ts.tv_sec) * 1000000000ull + uint64_t(ts.tv_nsec);
}
[[noreturn]] static void raw_exit(int rc)
{
    syscall(SYS_exit_group, rc);
    __builtin_unreachable();
}
static std::map<std::string, uint64_t> g_counts;
static std::map<const void *, uint64_t *> g_count_ptr;
void count(const char *name, uint64_t n)
{
    uint64_t *&p = g_count_ptr[name];
    if (!p) p = &g_counts[name];
    *p += n;
}
const char *trap_name(int t)
{
    static const char *n[] = {"none", "abort", "assertion", "invalid-memory-access", "hang", "exit"};
    return n[t];
}

// -------------------------------------------------------------------- context
static std::vector<uint8_t> g_state_bits(size_t{1} << 19, 0);  // 2^22 bits
void Ctx::ev(const char *tag, int64_t x, int64_t y, int64_t z, int64_t w)
{
    for (const char *c = tag; *c; ++c) put(uint64_t(*c));
    put(uint64_t(x));
    put(uint64_t(y));
    put(uint64_t(z));
    put(uint64_t(w));
    if (verbose)
        printf("  [%d] %-16s %lld %lld %lld %lld\n", self_thread(), tag, (long long)x,
               (long long)y, (long long)z, (long long)w);
}
void Ctx::at_state(uint64_t h)
{
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    g_state_bits[(h >> 3) & ((size_t{1} << 19) - 1)] |= uint8_t(1u << (h & 7));
}
void Ctx::violate(const char *prop, const char *c, const std::string &d)
{
    if (stop && !(open && target == prop)) return;
    stop = true;
    open = target != prop;
    if (target == prop)
    {
        diverged = false;
        violated = true;
        cls = c;
        detail = d;
    }
    else
    {
        diverged = true;
        other = std::string(prop) + ":" + c + " " + d;
    }
    if (verbose) printf("  !! %s %s: %s\n", prop, c, d.c_str());
}
void Ctx::diverge(const std::string &why)
{
    open = false;
    if (stop) return;
    stop = true;
    diverged = true;
    other = why;
    if (verbose) printf("  ~~ run stopped: %s\n", why.c_str());
}

// -------------------------------------------------------------- trapped death
sigjmp_buf *g_jmp = nullptr;
uint64_t g_steps = 0, g_step_limit = ~0ull;
const char *g_trap_msg = "";
char g_trap_buf[512];
static bool g_in_engine = false;

[[noreturn]] static void trap(int t)
{
    g_step_limit = ~0ull;
    siglongjmp(*g_jmp, t);
}
static void on_signal(int sig, siginfo_t *, void *)
{
    if (g_jmp && !g_in_engine)
    {
        g_trap_msg = sig == SIGALRM ? "no progress" : sig == SIGABRT ? "SIGABRT" : "signal";
        sigjmp_buf *j = g_jmp;
        g_step_limit = ~0ull;
        siglongjmp(*j, sig == SIGALRM ? T_HANG : sig == SIGABRT ? T_ABORT : T_SEGV);
    }
    if (sig == SIGALRM) return;
    static const char m[] = "engine: fatal signal outside the code under test\n";
    (void)!write(2, m, sizeof m - 1);
    raw_exit(97);
}
static void install_signals()
{
    static unsigned char alt[65536];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGALRM, SIGABRT})
        sigaction(s, &sa, nullptr);
}
static void arm_watchdog(unsigned sec)
{
    struct itimerval it{};
    it.it_value.tv_sec = sec;
    setitimer(ITIMER_REAL, &it, nullptr);
}

// --------------------------------------------------------------------- stderr
std::string g_err;
ErrFaults g_err_faults;
bool g_sigabrt_ignored = false;
static ssize_t err_write(void *, const char *b, size_t n)
{
    ErrFaults &f = g_err_faults;
    ++f.writes;
    ++f.writes_by[size_t(self_thread() + 1)];
    if ((g_steps += 100) > g_step_limit && g_jmp)
    {
        g_trap_msg = "keeps writing to the error stream";
        trap(T_HANG);
    }
    if (f.eintr_every && f.writes % uint64_t(f.eintr_every) == 0)
    {
        ++f.injected;
        errno = EINTR;
        return 0;
    }
    size_t can = n;
    if (f.fail_at >= 0)
    {
        int64_t left = f.fail_at - int64_t(g_err.size());
        if (left <= 0)
        {
            ++f.injected;
            errno = f.err;
            return 0;
        }
        if (int64_t(can) > left)
        {
            can = size_t(left);
            ++f.injected;
        }
    }
    if (f.shorts && can > 3)
    {
        can = can / 2;
        ++f.injected;
    }
    g_err.append(b, can);
    if (g_err.size() > 65536) g_err.resize(65536);
    return ssize_t(can);
}
void capture_stderr()
{
    // a new stream for every run: nothing of an earlier one stays in it
    static FILE *f = nullptr;
    if (f)
    {
        __fpurge(f);
        fclose(f);
    }
    cookie_io_functions_t io{};
    io.write = err_write;
    f = fopencookie(nullptr, "w", io);
    setvbuf(f, nullptr, _IONBF, 0);
    static struct : std::streambuf
    {
        int overflow(int ch) override
        {
            char b = char(ch);
            return ch != EOF && err_write(nullptr, &b, 1) == 1 ? ch : EOF;
        }
        std::streamsize xsputn(const char *b, std::streamsize n) override
        {
            return err_write(nullptr, b, size_t(n));
        }
    } buf;
    std::cerr.rdbuf(&buf);
    std::cerr.clear();
    std::clog.rdbuf(&buf);
    std::clog.clear();
    stderr = f;
    g_err.clear();
    g_err_faults = ErrFaults{};
    g_sigabrt_ignored = false;
}

// ---------------------------------------------------------------------- arena
unsigned char *arena_base()
{
    static unsigned char *base = nullptr;
    if (!base)
    {
        void *want = reinterpret_cast<void *>(uintptr_t{1} << 45);
        void *p = mmap(want, kArenaSize, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != want)
        {
            static const char m[] = "engine: cannot map the arena\n";
            (void)!write(2, m, sizeof m - 1);
            raw_exit(98);
        }
        base = static_cast<unsigned char *>(p);
    }
    return base;
}
void arena_forget(const void *p, size_t n)
{
    const uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~uintptr_t(4095);
    madvise(reinterpret_cast<void *>(a), (reinterpret_cast<uintptr_t>(p) + n - a + 4095) & ~size_t(4095), MADV_DONTNEED);
}
// eight bytes at a time
static inline uint64_t pattern_next(uint64_t &k)
{
    k = k * 6364136223846793005ULL + 1442695040888963407ULL;
    return k ^ (k >> 29);
}
void fill_pattern(unsigned char *p, size_t n, uint64_t key)
{
    uint64_t k = key * 0x9e3779b97f4a7c15ULL + 0x1234567;
    for (size_t i = 0; i < n; i += 8)
    {
        const uint64_t v = pattern_next(k);
        if (n - i >= 8) memcpy(p + i, &v, 8);
        else memcpy(p + i, &v, n - i);
    }
}
long check_pattern(const unsigned char *p, size_t n, uint64_t key)
{
    uint64_t k = key * 0x9e3779b97f4a7c15ULL + 0x1234567;
    for (size_t i = 0; i < n; i += 8)
    {
        const uint64_t v = pattern_next(k);
        uint64_t w = v;
        if (n - i >= 8) memcpy(&w, p + i, 8);
        else memcpy(&w, p + i, n - i);
        if (w == v) continue;
        for (size_t j = 0; j < 8 && i + j < n; ++j)
            if (p[i + j] != static_cast<unsigned char>(v >> (8 * j))) return long(i + j);
    }
    return -1;
}
void fill_garbage(unsigned char *p, size_t n, uint64_t key) { fill_pattern(p, n, key ^ 0xabcdef); }

// ------------------------------------------------------------- simulated heap
Heap g_heap;
static constexpr size_t kGuard = 32;
static constexpr size_t kPatternMax = 4096;
void Heap::reset()
{
    blocks.clear();
    calls.clear();
    fail_mask.clear();
    serial = 0;
    if (bump > (size_t{1} << 24)) arena_forget(arena_base() + kHeapOff, bump + 2 * kGuard);
    bump = 4096;
    limit = 1 << 16;
    reuse = false;
    exact_align = true;
    spots.clear();
}
void *Heap::alloc(int owner, size_t size, size_t align)
{
    uint64_t &fm = fail_mask[owner];
    bool fail = fm & 1;
    if (size <= kImpossible) fm >>= 1;  // what cannot be served fails anyway
    Call c{owner, true, size, align, nullptr, false, "", self_thread()};
    if (!align || (align & (align - 1)))
    {
        c.bad = true;
        c.why = "alignment is not a power of two";
        fail = true;
    }
    if (fail) count("fault:allocation-failure");
    const bool full = size <= limit && bump + size + 4 * (size_t{1} << 20) > kArenaSize - kHeapOff;
    if (!fail && (size > limit || full || align > (1 << 20)))
    {
        fail = true;
        count("fault:out-of-memory");
    }
    if (!fail)
    {
        if (reuse)
        {
            for (auto &kv : blocks)
                if (!kv.second.live && kv.second.lo_guard && kv.second.hi_guard && kv.second.owner == owner && kv.second.size == size &&
                    kv.second.align == align)
                {
                    Block &b = kv.second;
                    b.live = true;
                    b.serial = ++serial;
                    fill_garbage(b.p, size < kPatternMax ? size : kPatternMax, b.serial);
                    forget_shadow(b.p, size);
                    c.p = b.p;
                    count("probe:heap-reuse");
                    break;
                }
        }
        for (Spot &s : spots)
        {
            const uintptr_t at = s.ends ? s.at - size : s.at;
            if (c.p || s.used || !size || size > kPatternMax || (at & (align - 1))) continue;
            for (auto it = blocks.begin(); it != blocks.end();)
            {
                const bool gone = !it->second.live && it->first < at + size && at < it->first + it->second.size;
                it = gone ? blocks.erase(it) : std::next(it);
            }
            Block b{reinterpret_cast<unsigned char *>(at), size, align, owner, true, ++serial, s.ends, !s.ends};
            if (s.ends) memset(b.p - kGuard, 0xA5, kGuard);
            else memset(b.p + size, 0xA5, kGuard);
            fill_garbage(b.p, size, b.serial);
            forget_shadow(b.p, size);
            blocks[at] = b;
            s.used = true;
            c.p = b.p;
            count(s.ends ? "probe:heap-block-right-before-a-buffer" : "probe:heap-block-right-after-a-buffer");
        }
        if (!c.p)
        {
            size_t a = align;
            uintptr_t base = reinterpret_cast<uintptr_t>(arena_base() + kHeapOff);
            uintptr_t at = base + bump + kGuard;
            at = (at + a - 1) & ~uintptr_t(a - 1);
            // Exactly as aligned as asked, no better: the least an allocator owes.
            if (exact_align && (at & (2 * a - 1)) == 0) at += a;
            bump = at - base + size + kGuard;
            Block b{reinterpret_cast<unsigned char *>(at), size, align, owner, true, ++serial};
            memset(b.p - kGuard, 0xA5, kGuard);
            fill_garbage(b.p, size < kPatternMax ? size : kPatternMax, b.serial);
            memset(b.p + size, 0xA5, kGuard);
            forget_shadow(b.p, size);
            blocks[at] = b;
            c.p = b.p;
        }
    }
    calls.push_back(c);
    return c.p;
}
bool Heap::free(int owner, void *p)
{
    Call c{owner, false, 0, 0, p, false, "", self_thread()};
    auto it = blocks.find(reinterpret_cast<uintptr_t>(p));
    if (it == blocks.end())
    {
        c.bad = true;
        c.why = "not a block of this allocator";
    }
    else if (it->second.owner != owner)
    {
        c.bad = true;
        c.why = "block belongs to another allocator";
    }
    else if (!it->second.live)
    {
        c.bad = true;
        c.why = "block already freed";
    }
    else
    {
        it->second.live = false;
        c.size = it->second.size;
        for (Spot &s : spots)
            if (s.ends ? it->first + c.size == s.at : it->first == s.at) s.used = false;
    }
    calls.push_back(c);
    return !c.bad;
}
size_t Heap::live_count(int owner) const
{
    size_t n = 0;
    for (auto &kv : blocks) n += kv.second.live && (owner == -2 || kv.second.owner == owner);
    return n;
}
bool Heap::guards_ok(std::string *why) const
{
    for (auto &kv : blocks)
    {
        const Block &b = kv.second;
        for (size_t i = 0; i < kGuard; ++i)
            if ((b.lo_guard && b.p[-long(i) - 1] != 0xA5) || (b.hi_guard && b.p[b.size + i] != 0xA5))
            {
                if (why) *why = strf("guard bytes around a %zu-byte block were overwritten", b.size);
                return false;
            }
    }
    return true;
}

// ------------------------------------------------------- threads (fibers)
constexpr int kMaxThr = 6;
constexpr size_t kStack = 128 * 1024;
struct ExitFn
{
    void (*f)(void *);
    void *arg;
};
struct Fiber
{
    ucontext_t uc{};
    std::function<void()> body;
    bool done = false;
    const void *blocked_on = nullptr;
    sigjmp_buf *jmp = nullptr;
    uint64_t step_limit = ~0ull;
    uint32_t vc[kMaxThr] = {};
    int prio = 0;
    void *eh_caught = nullptr;
    unsigned eh_uncaught = 0;
    std::vector<unsigned char> tls;
    std::vector<ExitFn> exits;  // destructors of its thread-local objects
};
static bool g_threads = false;
static int g_cur = -1, g_nthr = 0;
static Fiber g_f[kMaxThr];
static unsigned char *g_stacks = nullptr;
static ucontext_t g_main_uc;
static sigjmp_buf *g_main_jmp;
static uint64_t g_main_limit;
static const Plan *g_plan;
static Ctx *g_ctx;
static ThreadOpts g_opts;
static Rng g_srng(0);
static uint64_t g_sched_step;
static size_t g_sw_at;
static std::vector<uint64_t> g_pct_points;
static bool g_deadlock;

struct ByteShadow
{
    uint32_t wclk = 0;
    int8_t wthr = -1;
    uint8_t watomic = 0;
    uint8_t ratomic[kMaxThr] = {};
    uint32_t rclk[kMaxThr] = {};
};
struct Cell
{
    ByteShadow b[8];
};
static std::unordered_map<uintptr_t, Cell> g_shadow;
struct SyncClk
{
    uint32_t vc[kMaxThr] = {};
};
static std::unordered_map<uintptr_t, SyncClk> g_sync;
static std::string g_race;
std::string race_report() { return g_race; }

int self_thread() { return g_cur; }
uint64_t sched_step() { return g_sched_step; }

void forget_shadow(const void *p, size_t n)
{
    if (!g_threads || !g_opts.races) return;
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    if (n > (size_t{1} << 20))
    {
        for (auto &kv : g_shadow)
            for (size_t i = 0; i < 8; ++i)
                if (kv.first * 8 + i - a < n) kv.second.b[i] = ByteShadow{};
        return;
    }
    for (size_t i = 0; i < n; ++i)
    {
        auto it = g_shadow.find((a + i) >> 3);
        if (it != g_shadow.end()) it->second.b[(a + i) & 7] = ByteShadow{};
    }
}
void sync_release(const void *p)
{
    if (!g_threads || g_cur < 0) return;
    SyncClk &s = g_sync[reinterpret_cast<uintptr_t>(p)];
    for (int i = 0; i < g_nthr; ++i) s.vc[i] = std::max(s.vc[i], g_f[g_cur].vc[i]);
    ++g_f[g_cur].vc[g_cur];
}
void sync_acquire(const void *p)
{
    if (!g_threads || g_cur < 0) return;
    auto it = g_sync.find(reinterpret_cast<uintptr_t>(p));
    if (it == g_sync.end()) return;
    for (int i = 0; i < g_nthr; ++i)
        g_f[g_cur].vc[i] = std::max(g_f[g_cur].vc[i], it->second.vc[i]);
}
static void race(uintptr_t a, bool write, int other, const char *what)
{
    if (!g_race.empty()) return;
    (void)a;
    g_race = strf("data race: thread %d %s memory that thread %d %s without synchronisation", g_cur,
                  write ? "writes" : "reads", other, what);
}
static std::pair<unsigned char *, size_t> tls_range();
static void shadow_access(uintptr_t a, size_t n, bool write, bool atomic)
{
    if (!g_race.empty()) return;
    Fiber &me = g_f[g_cur];
    // own stack
    uintptr_t st = reinterpret_cast<uintptr_t>(g_stacks) + size_t(g_cur) * kStack;
    if (a >= st && a < st + kStack) return;
    // own thread-local variables
    uintptr_t tl = reinterpret_cast<uintptr_t>(tls_range().first);
    if (a >= tl && a < tl + tls_range().second) return;
    Cell *cell = nullptr;
    uintptr_t cellno = ~uintptr_t{0};
    for (size_t i = 0; i < n; ++i)
    {
        uintptr_t x = a + i;
        if ((x >> 3) != cellno)
        {
            cellno = x >> 3;
            cell = &g_shadow[cellno];
        }
        ByteShadow &b = cell->b[x & 7];
        if (b.wthr >= 0 && b.wthr != g_cur && b.wclk > me.vc[b.wthr] && !(b.watomic && atomic))
        {
            race(x, write, b.wthr, "wrote");
            return;
        }
        if (write)
        {
            for (int t = 0; t < g_nthr; ++t)
                if (t != g_cur && b.rclk[t] > me.vc[t] && !(b.ratomic[t] && atomic))
                {
                    race(x, true, t, "reads");
                    return;
                }
            b.wthr = int8_t(g_cur);
            b.wclk = me.vc[g_cur];
            b.watomic = atomic;
        }
        else
        {
            b.rclk[g_cur] = me.vc[g_cur];
            b.ratomic[g_cur] = atomic;
        }
    }
}

// What the C++ runtime keeps per thread: exceptions in flight and thread-local
// variables of the program.  Fibers swap them, so each has its own.
struct EhGlobals
{
    void *caught;
    unsigned uncaught;
};
static EhGlobals *eh_globals() { return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals()); }
void reset_exceptions() { *eh_globals() = EhGlobals{nullptr, 0}; }
static unsigned char *g_tls = nullptr;
static size_t g_tls_size = 0;
static std::vector<unsigned char> g_tls_init;
static int tls_phdr(struct dl_phdr_info *i, size_t, void *)
{
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data)
        {
            g_tls = static_cast<unsigned char *>(i->dlpi_tls_data);
            g_tls_size = i->dlpi_phdr[k].p_memsz;
            g_tls_init.assign(g_tls_size, 0);
            memcpy(g_tls_init.data(), reinterpret_cast<void *>(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr),
                   i->dlpi_phdr[k].p_filesz);
        }
    return 1;  // the executable only
}
static void find_tls()
{
    static bool done = false;
    if (!done) dl_iterate_phdr(tls_phdr, nullptr);
    done = true;
}
static std::pair<unsigned char *, size_t> tls_range() { return {g_tls, g_tls_size}; }
static EhGlobals g_main_eh;
static std::vector<unsigned char> g_main_tls;

// The main program as one of a few threads that hand its objects to each other.
static std::map<int, std::vector<unsigned char>> g_hand_tls;
static std::map<int, std::vector<ExitFn>> g_hand_exits;
static int g_hand;
static Ctx *g_run_ctx;
// The end of a thread: its thread-local objects are destroyed, last one first.
static void end_of_thread(std::vector<ExitFn> &exits)
{
    while (!exits.empty())
    {
        const ExitFn e = exits.back();
        exits.pop_back();
        count("sched:thread-local-destructors");
        if (guarded([&] { e.f(e.arg); }) != T_NONE && g_run_ctx)
            g_run_ctx->violate_any("died", strf("the end of a thread ended the process (%s)", g_trap_msg));
    }
}
void as_thread(int t)
{
    if (t >= 3)  // a new thread takes the place of the old one
    {
        t %= 3;
        as_thread(t);
        count("sched:thread-ended");
        end_of_thread(g_hand_exits[t]);
        if (g_tls_size) memcpy(g_tls, g_tls_init.data(), g_tls_size);
        return;
    }
    if (t == g_hand) return;
    count("sched:handed-over");
    if (g_tls_size)
    {
        g_hand_tls[g_hand].assign(g_tls, g_tls + g_tls_size);
        auto &n = g_hand_tls[t];
        memcpy(g_tls, (n.empty() ? g_tls_init : n).data(), g_tls_size);
    }
    g_hand = t;
}

static bool runnable(int t) { return !g_f[t].done && !g_f[t].blocked_on; }
static void switch_to(int t)
{
    int from = g_cur;
    if (t == from) return;
    if (from >= 0)
    {
        g_f[from].jmp = g_jmp;
        g_f[from].step_limit = g_step_limit == ~0ull ? ~0ull : g_step_limit - g_steps;
    }
    else
    {
        g_main_jmp = g_jmp;
        g_main_limit = g_step_limit;
    }
    {
        EhGlobals *e = eh_globals();
        if (from >= 0)
        {
            g_f[from].eh_caught = e->caught;
            g_f[from].eh_uncaught = e->uncaught;
            if (g_tls_size) g_f[from].tls.assign(g_tls, g_tls + g_tls_size);
        }
        else
        {
            g_main_eh = *e;
            if (g_tls_size) g_main_tls.assign(g_tls, g_tls + g_tls_size);
        }
        *e = t >= 0 ? EhGlobals{g_f[t].eh_caught, g_f[t].eh_uncaught} : g_main_eh;
        if (g_tls_size) memcpy(g_tls, (t >= 0 ? g_f[t].tls : g_main_tls).data(), g_tls_size);
    }
    g_cur = t;
    if (t >= 0)
    {
        g_jmp = g_f[t].jmp;
        g_step_limit = g_f[t].step_limit == ~0ull ? ~0ull : g_steps + g_f[t].step_limit;
    }
    else
    {
        g_jmp = g_main_jmp;
        g_step_limit = g_main_limit;
    }
    swapcontext(from >= 0 ? &g_f[from].uc : &g_main_uc, t >= 0 ? &g_f[t].uc : &g_main_uc);
}
// Picks who runs next. forced: the current thread cannot go on.
static void schedule(bool forced)
{
    ++g_sched_step;
    int choice = -1;
    int r[kMaxThr], n = 0;
    for (int t = 0; t < g_nthr; ++t)
        if (runnable(t)) r[n++] = t;
    if (n == 0)
    {
        switch_to(-1);
        return;
    }
    if (g_plan->free_sched)
    {
        if (g_opts.pct)
        {
            if (!forced)
                for (size_t i = 0; i < g_pct_points.size(); ++i)
                    if (g_pct_points[i] == g_sched_step) g_f[g_cur].prio = -int(i) - 1;
            int best = r[0];
            for (int i = 1; i < n; ++i)
                if (g_f[r[i]].prio > g_f[best].prio) best = r[i];
            choice = best;
        }
        else if (forced || g_srng.below(g_opts.den) < g_opts.num)
            choice = r[g_srng.below(uint64_t(n))];
        if (choice < 0) choice = g_cur;
        if (forced ? choice != r[0] : choice != g_cur)
            g_ctx->recorded.push_back({g_sched_step, choice});
    }
    else
    {
        while (g_sw_at < g_plan->sw.size() && g_plan->sw[g_sw_at].step < g_sched_step) ++g_sw_at;
        if (g_sw_at < g_plan->sw.size() && g_plan->sw[g_sw_at].step == g_sched_step)
        {
            int t = g_plan->sw[g_sw_at].to;
            ++g_sw_at;
            if (t >= 0 && t < g_nthr && runnable(t)) choice = t;
        }
        if (choice < 0) choice = forced ? r[0] : g_cur;
    }
    if (choice != g_cur)
    {
        g_ctx->put(g_sched_step);
        g_ctx->put(uint64_t(choice));
        if (!forced) count("sched:preemptions");
        switch_to(choice);
    }
}
void yield_point()
{
    if (!g_threads || g_cur < 0) return;
    schedule(false);
}
static void fiber_main()
{
    int me = g_cur;
    g_f[me].body();
    if (!g_f[me].exits.empty() && !g_ctx->stop) end_of_thread(g_f[me].exits);
    g_f[me].done = true;
    schedule(true);
}
static void block_until_woken(const void *what)
{
    g_f[g_cur].blocked_on = what;
    count("sched:blocked");
    schedule(true);
}
static void wake(const void *what)
{
    for (int t = 0; t < g_nthr; ++t)
        if (g_f[t].blocked_on == what) g_f[t].blocked_on = nullptr;
}
void run_threads(const Plan &plan, Ctx &ctx, std::vector<std::function<void()>> bodies,
                 const ThreadOpts &o)
{
    if (!g_stacks)
        g_stacks = static_cast<unsigned char *>(mmap(nullptr, kStack * kMaxThr,
                                                     PROT_READ | PROT_WRITE,
                                                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_plan = &plan;
    g_ctx = &ctx;
    g_opts = o;
    g_srng = Rng(mix(plan.seed, 0x5ced));
    g_sched_step = 0;
    g_sw_at = 0;
    g_nthr = int(bodies.size());
    g_shadow.clear();
    g_sync.clear();
    g_race.clear();
    g_deadlock = false;
    g_pct_points.clear();
    if (o.pct)
        for (int i = 0; i < 3; ++i) g_pct_points.push_back(1 + g_srng.below(600));
    for (int i = 0; i < g_nthr; ++i)
    {
        Fiber &f = g_f[i];
        f.body = bodies[size_t(i)];
        f.done = false;
        f.blocked_on = nullptr;
        f.jmp = nullptr;
        f.step_limit = ~0ull;
        find_tls();
        f.eh_caught = nullptr;
        f.eh_uncaught = 0;
        f.tls = g_tls_init;
        f.exits.clear();
        f.prio = int(g_srng.below(1000)) + 10;
        for (int j = 0; j < kMaxThr; ++j) f.vc[j] = 0;
        f.vc[i] = 1;
        getcontext(&f.uc);
        f.uc.uc_stack.ss_sp = g_stacks + size_t(i) * kStack;
        f.uc.uc_stack.ss_size = kStack;
        f.uc.uc_link = &g_main_uc;
        makecontext(&f.uc, fiber_main, 0);
    }
    g_threads = true;
    schedule(true);  // returns when nothing is runnable
    g_threads = false;
    g_cur = -1;
    bool all = true;
    for (int i = 0; i < g_nthr; ++i) all = all && g_f[i].done;
    if (!all) g_deadlock = true;
    ctx.put(g_sched_step);
}
bool deadlocked() { return g_deadlock; }

static std::set<const void *> g_guard_busy;
// What the code under test wants done at the end of the program.
static ExitFn g_exit_fns[256];
static int g_exit_n, g_exit_boot = -1;
// Every run starts with the static and thread-local storage of the code under
// test as it was when the program had just started.
static std::vector<unsigned char> g_data_image, g_bss_image;
void fresh_program()
{
    if (&g_data_end[0] < &g_data_begin[0] || &g_bss_end[0] < &g_bss_begin[0])
    {
        fprintf(stderr, "the static storage of the units under test is not contiguous\n");
        raw_exit(2);
    }
    const size_t nd = size_t(g_data_end - g_data_begin), nb = size_t(g_bss_end - g_bss_begin);
    if (g_data_image.empty())
    {
        g_data_image.assign(g_data_begin, g_data_begin + nd);
        g_bss_image.assign(g_bss_begin, g_bss_begin + nb);
        find_tls();
        g_main_tls.assign(g_tls, g_tls + g_tls_size);
    }
    memcpy(g_data_begin, g_data_image.data(), nd);
    memcpy(g_bss_begin, g_bss_image.data(), nb);
    if (g_tls_size) memcpy(g_tls, g_tls_init.data(), g_tls_size);
    g_hand_tls.clear();
    g_hand_exits.clear();
    g_hand = 0;
    g_guard_busy.clear();
    if (g_exit_boot < 0) g_exit_boot = g_exit_n;
    g_exit_n = g_exit_boot;
}
void program_exit()
{
    if (g_cur < 0)
    {
        as_thread(0);
        end_of_thread(g_hand_exits[0]);
    }
    while (g_exit_n > 0)
    {
        const ExitFn e = g_exit_fns[--g_exit_n];
        yield_point();
        e.f(e.arg);
    }
}
static std::map<const void *, int> g_mutex_owner;
}  // namespace sim

using namespace sim;

// ------------------------------------------ interposed process-level functions
extern "C" {
[[noreturn]] void abort()
{
    if (g_jmp)
    {
        yield_point();
        g_trap_msg = "abort()";
        trap(T_ABORT);
    }
    raw_exit(134);
}
// Only abort() itself ends a process that ignores or handles SIGABRT.
int raise(int sig) noexcept
{
    if (g_jmp && sig == SIGABRT)
    {
        yield_point();
        if (g_sigabrt_ignored) return 0;
        g_trap_msg = "SIGABRT";
        trap(T_ABORT);
    }
    return int(syscall(SYS_tgkill, getpid(), int(syscall(SYS_gettid)), sig));
}
int kill(pid_t pid, int sig) noexcept
{
    if (g_jmp && (pid == 0 || pid == getpid())) return raise(sig);
    return int(syscall(SYS_kill, pid, sig));
}
[[noreturn]] void __assert_fail(const char *a, const char *, unsigned, const char *fn) noexcept
{
    if (g_jmp)
    {
        snprintf(g_trap_buf, sizeof g_trap_buf, "assertion `%s' in %s", a, fn);
        g_trap_msg = g_trap_buf;
        trap(T_ASSERT);
    }
    raw_exit(135);
}
[[noreturn]] void exit(int rc)
{
    if (g_jmp)
    {
        g_trap_msg = "exit()";
        trap(T_EXIT);
    }
    fflush(nullptr);
    raw_exit(rc);
}
[[noreturn]] void _exit(int rc)
{
    if (g_jmp)
    {
        g_trap_msg = "_exit()";
        trap(T_EXIT);
    }
    raw_exit(rc);
}
[[noreturn]] void _Exit(int rc) { _exit(rc); }
[[noreturn]] void quick_exit(int rc) { _exit(rc); }

ssize_t write(int fd, const void *b, size_t n)
{
    if (fd == 2 && g_jmp)
    {
        const uint64_t before = g_err_faults.injected;
        const ssize_t k = err_write(nullptr, static_cast<const char *>(b), n);
        return k == 0 && n && g_err_faults.injected != before ? -1 : k;
    }
    return syscall(SYS_write, fd, b, n);
}

// sysops seam
int sim_posix_memalign(void **out, size_t align, size_t size)
{
    yield_point();
    if (align < sizeof(void *) || (align & (align - 1)) || align % sizeof(void *))
    {
        Call c{-1, true, size, align, nullptr, true,
               "posix_memalign alignment must be a power of two multiple of the pointer size",
               self_thread()};
        g_heap.calls.push_back(c);
        *out = reinterpret_cast<void *>(uintptr_t{0xdeadbeef0});
        return EINVAL;
    }
    void *p = g_heap.alloc(-1, size, align);
    yield_point();
    if (!p)
    {
        *out = reinterpret_cast<void *>(uintptr_t{0xdeadbeef0});  // unspecified on failure
        return ENOMEM;
    }
    *out = p;
    return 0;
}
void *sim_aligned_alloc(size_t align, size_t size)
{
    yield_point();
    return g_heap.alloc(-1, size, align);
}
void *sim_malloc(size_t size)
{
    yield_point();
    return g_heap.alloc(-1, size, 16);
}
void sim_free(void *p)
{
    yield_point();
    if (p) g_heap.free(-1, p);
}
// simulated upstream resources
void *sim_up_alloc(int owner, size_t size, size_t align)
{
    yield_point();
    void *p = g_heap.alloc(owner, size, align);
    yield_point();
    return p;
}
void sim_up_free(int owner, void *p)
{
    yield_point();
    g_heap.free(owner, p);
}

int __cxa_atexit(void (*f)(void *), void *arg, void *dso) noexcept
{
    auto *p = static_cast<unsigned char *>(arg);
    if ((p >= g_data_begin && p < g_data_end) || (p >= g_bss_begin && p < g_bss_end))
    {
        if (g_exit_n < int(sizeof g_exit_fns / sizeof *g_exit_fns)) g_exit_fns[g_exit_n++] = {f, arg};
        return 0;
    }
    static auto real = reinterpret_cast<int (*)(void (*)(void *), void *, void *)>(dlsym(RTLD_NEXT, "__cxa_atexit"));
    return real(f, arg, dso);
}
int __cxa_thread_atexit(void (*f)(void *), void *arg, void *) noexcept
{
    auto *p = static_cast<unsigned char *>(arg);
    if (!g_tls || p < g_tls || p >= g_tls + g_tls_size) return 0;
    if (g_cur >= 0) g_f[g_cur].exits.push_back({f, arg});
    else g_hand_exits[g_hand].push_back({f, arg});
    return 0;
}
// static-local guards of the code under test
int __cxa_guard_acquire(int64_t *g)
{
    uint8_t *b = reinterpret_cast<uint8_t *>(g);
    if (!g_threads) return b[0] ? 0 : 1;
    while (g_guard_busy.count(g)) block_until_woken(g);
    if (b[0])
    {
        sync_acquire(g);
        return 0;
    }
    g_guard_busy.insert(g);
    yield_point();
    return 1;
}
void __cxa_guard_release(int64_t *g)
{
    reinterpret_cast<uint8_t *>(g)[0] = 1;
    if (!g_threads) return;
    sync_release(g);
    g_guard_busy.erase(g);
    wake(g);
}
void __cxa_guard_abort(int64_t *g)
{
    if (!g_threads) return;
    g_guard_busy.erase(g);
    wake(g);
}
// Who asks: std::this_thread::get_id() of the code under test.
pthread_t pthread_self() noexcept
{
    if (g_jmp && g_cur >= 0) return pthread_t(0x70000000 + (g_cur + 16) * 0x1000);
    if (g_jmp) return pthread_t(0x70000000 + g_hand * 0x1000);
    pthread_t t;
    asm("mov %%fs:0x10, %0" : "=r"(t));
    return t;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
    if (g_threads && g_cur >= 0)
    {
        yield_point();
        while (g_mutex_owner.count(m)) block_until_woken(m);
        g_mutex_owner[m] = g_cur;
        sync_acquire(m);
        return 0;
    }
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
{
    if (g_threads && g_cur >= 0)
    {
        yield_point();
        if (g_mutex_owner.count(m)) return EBUSY;
        g_mutex_owner[m] = g_cur;
        sync_acquire(m);
        return 0;
    }
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
    return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
    if (g_threads && g_cur >= 0)
    {
        sync_release(m);
        g_mutex_owner.erase(m);
        wake(m);
        yield_point();
        return 0;
    }
    static auto real = reinterpret_cast<int (*)(pthread_mutex_t *)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    return real(m);
}

// -------------------------------------------- instrumentation callbacks (SUT)
static inline void tick()
{
    if (++g_steps > g_step_limit && g_jmp)
    {
        g_trap_msg = "no progress within the step budget";
        trap(T_HANG);
    }
}
static inline void mem_access(void *p, size_t n, bool w)
{
    tick();
    if (g_threads && g_cur >= 0)
    {
        schedule(false);
        if (g_opts.races) shadow_access(reinterpret_cast<uintptr_t>(p), n, w, false);
    }
}
#define RW(n)                                                        \
    void __tsan_read##n(void *p) { mem_access(p, n, false); }            \
    void __tsan_write##n(void *p) { mem_access(p, n, true); }            \
    void __tsan_volatile_read##n(void *p) { mem_access(p, n, false); }   \
    void __tsan_volatile_write##n(void *p) { mem_access(p, n, true); }   \
    void __tsan_unaligned_read##n(void *p) { mem_access(p, n, false); }  \
    void __tsan_unaligned_write##n(void *p) { mem_access(p, n, true); }  \
    void __tsan_unaligned_volatile_read##n(void *p) { mem_access(p, n, false); } \
    void __tsan_unaligned_volatile_write##n(void *p) { mem_access(p, n, true); } \
    void __tsan_read_write##n(void *p) { mem_access(p, n, true); }       \
    void __tsan_unaligned_read_write##n(void *p) { mem_access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { mem_access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { mem_access(p, n, true); }
void __tsan_init() {}
void __tsan_func_entry(void *) { tick(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
// Always a write: what the word held before depends on earlier runs.
void __tsan_vptr_update(void **p, void *) { mem_access(p, 8, true); }
void __tsan_vptr_read(void **p) { mem_access(p, 8, false); }
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    tick();
    if (n)
    {
        mem_access(const_cast<void *>(s), n, false);
        mem_access(d, n, true);
    }
    return memmove(d, s, n);
}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    auto *const to = static_cast<volatile unsigned char *>(d);
    auto *const from = static_cast<const volatile unsigned char *>(s);
    if (to == from || to >= from + n || from >= to + n) return __tsan_memmove(d, s, n);
    // undefined: the direction that does harm
    tick();
    mem_access(const_cast<void *>(s), n, false);
    mem_access(d, n, true);
    if (to > from)
        for (size_t i = 0; i < n; ++i) to[i] = from[i];
    else
        for (size_t i = n; i-- > 0;) to[i] = from[i];
    return d;
}
void *__tsan_memset(void *d, int c, size_t n)
{
    tick();
    if (n) mem_access(d, n, true);
    return memset(d, c, n);
}
}  // extern "C"

static void at_pre(const void *p, size_t n, bool w)
{
    tick();
    if (g_threads && g_cur >= 0)
    {
        schedule(false);
        if (g_opts.races) shadow_access(reinterpret_cast<uintptr_t>(p), n, w, true);
    }
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_load(const void *p, int mo)
{
    if (acq(mo)) sync_acquire(p);
}
static void at_store(const void *p, int mo)
{
    if (!g_threads || g_cur < 0) return;
    g_sync.erase(reinterpret_cast<uintptr_t>(p));
    if (rel(mo)) sync_release(p);
}
static void at_rmw(const void *p, int mo)
{
    if (acq(mo)) sync_acquire(p);
    if (rel(mo)) sync_release(p);
}
extern "C" {
#define ATOMIC(bits, T)                                                                    \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)                              \
    {                                                                                      \
        at_pre(const_cast<T *>(a), sizeof(T), false);                                      \
        at_load(const_cast<T *>(a), mo);                                                   \
        return *a;                                                                         \
    }                                                                                      \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)                           \
    {                                                                                      \
        at_pre(const_cast<T *>(a), sizeof(T), true);                                       \
        at_store(const_cast<T *>(a), mo);                                                  \
        *a = v;                                                                            \
    }                                                                                      \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo)                           \
    {                                                                                      \
        at_pre(const_cast<T *>(a), sizeof(T), true);                                       \
        at_rmw(const_cast<T *>(a), mo);                                                    \
        T o = *a;                                                                          \
        *a = v;                                                                            \
        return o;                                                                          \
    }                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo,    \
                                                      int fmo)                             \
    {                                                                                      \
        at_pre(const_cast<T *>(a), sizeof(T), true);                                       \
        if (*a == *c)                                                                      \
        {                                                                                  \
            at_rmw(const_cast<T *>(a), mo);                                                \
            *a = v;                                                                        \
            return 1;                                                                      \
        }                                                                                  \
        at_load(const_cast<T *>(a), fmo);                                                  \
        *c = *a;                                                                           \
        return 0;                                                                          \
    }                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo,      \
                                                    int fmo)                               \
    {                                                                                      \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);            \
    }                                                                                      \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) \
    {                                                                                      \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                  \
        return c;                                                                          \
    }
#define ATOMIC_OP(bits, T, name, expr)                            \
    T __tsan_atomic##bits##_##name(volatile T *a, T v, int mo)    \
    {                                                             \
        at_pre(const_cast<T *>(a), sizeof(T), true);              \
        at_rmw(const_cast<T *>(a), mo);                           \
        T o = *a;                                                 \
        *a = T(expr);                                             \
        return o;                                                 \
    }
#define ATOMIC_ALL(bits, T)                      \
    ATOMIC(bits, T)                              \
    ATOMIC_OP(bits, T, fetch_add, o + v)         \
    ATOMIC_OP(bits, T, fetch_sub, o - v)         \
    ATOMIC_OP(bits, T, fetch_and, o & v)         \
    ATOMIC_OP(bits, T, fetch_or, o | v)          \
    ATOMIC_OP(bits, T, fetch_xor, o ^ v)         \
    ATOMIC_OP(bits, T, fetch_nand, ~(o & v))
ATOMIC_ALL(8, uint8_t)
ATOMIC_ALL(16, uint16_t)
ATOMIC_ALL(32, uint32_t)
ATOMIC_ALL(64, uint64_t)
static char g_fence;
void __tsan_atomic_thread_fence(int)
{
    yield_point();
    sync_acquire(&g_fence);
    sync_release(&g_fence);
}
void __tsan_atomic_signal_fence(int) {}
}

// --------------------------------------------------------------- plan storage
static std::string plan_text(const Plan &p)
{
    std::string s = strf("seed %llu\ncfg", (unsigned long long)p.seed);
    for (auto c : p.cfg) s += strf(" %lld", (long long)c);
    s += "\n";
    for (auto &o : p.ops)
    {
        s += strf("op %d %s", o.thr, o.kind < g_world.n_ops ? g_world.op_names[o.kind] : "?");
        for (auto a : o.a) s += strf(" %lld", (long long)a);
        s += "\n";
    }
    s += "schedule\n";
    for (auto &w : p.sw) s += strf("switch %llu %d\n", (unsigned long long)w.step, w.to);
    return s;
}
static bool plan_parse(FILE *f, Plan &p, std::map<std::string, std::string> &head)
{
    char line[4096];
    p.free_sched = false;
    while (fgets(line, sizeof line, f))
    {
        std::vector<std::string> w;
        char *sv = nullptr;
        for (char *t = strtok_r(line, " \n", &sv); t; t = strtok_r(nullptr, " \n", &sv)) w.push_back(t);
        if (w.empty() || w[0][0] == '#') continue;
        if (w[0] == "seed") p.seed = strtoull(w[1].c_str(), nullptr, 10);
        else if (w[0] == "cfg")
            for (size_t i = 1; i < w.size(); ++i) p.cfg.push_back(strtoll(w[i].c_str(), nullptr, 10));
        else if (w[0] == "op")
        {
            Op o;
            o.thr = atoi(w[1].c_str());
            o.kind = -1;
            for (int k = 0; k < g_world.n_ops; ++k)
                if (w[2] == g_world.op_names[k]) o.kind = k;
            if (o.kind < 0) return false;
            for (size_t i = 0; i < kArgs && 3 + i < w.size(); ++i)
                o.a[i] = strtoll(w[3 + i].c_str(), nullptr, 10);
            p.ops.push_back(o);
        }
        else if (w[0] == "switch")
            p.sw.push_back({strtoull(w[1].c_str(), nullptr, 10), atoi(w[2].c_str())});
        else if (w.size() > 1) head[w[0]] = w[1];
    }
    return true;
}

static Ctx run_plan(const Plan &p, const std::string &prop, bool verbose)
{
    Ctx c;
    c.target = prop;
    c.verbose = verbose;
    g_steps = 0;
    g_step_limit = ~0ull;
    g_jmp = nullptr;
    g_heap.reset();
    capture_stderr();
    g_mutex_owner.clear();
    fresh_program();
    arm_watchdog(20);
    g_run_ctx = &c;
    g_world.exec(p, c);
    arm_watchdog(0);
    return c;
}

// Runs one plan in a child process; the child's fate is part of the outcome.
struct Fate
{
    bool violated = false;
    std::string cls;
    uint64_t hash = 0;
    std::string detail;
    std::vector<Switch> recorded;
};
static Fate run_isolated(const Plan &p, const std::string &prop)
{
    int fd[2];
    Fate r;
    if (pipe(fd)) return r;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        Ctx c = run_plan(p, prop, false);
        std::string s = strf("%d\n%s\n%llu\n", c.violated, c.cls.c_str(), (unsigned long long)c.hash);
        for (auto &w : c.recorded) s += strf("%llu %d ", (unsigned long long)w.step, w.to);
        s += "\n" + c.detail + "\n";
        const char *b = s.data();
        size_t n = s.size();
        while (n)
        {
            ssize_t k = write(fd[1], b, n);
            if (k <= 0) break;
            b += k;
            n -= size_t(k);
        }
        raw_exit(0);
    }
    close(fd[1]);
    std::string s;
    char buf[4096];
    ssize_t k;
    while ((k = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, size_t(k));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::vector<std::string> l;
    size_t at = 0;
    while (at < s.size())
    {
        size_t e = s.find('\n', at);
        if (e == std::string::npos) e = s.size();
        l.push_back(s.substr(at, e - at));
        at = e + 1;
    }
    if (l.size() < 4)
    {
        r.violated = true;
        r.cls = "process-death";
        r.detail = strf("the simulated process died (wait status %d)", st);
        return r;
    }
    r.violated = l[0] == "1";
    r.cls = l[1];
    r.hash = strtoull(l[2].c_str(), nullptr, 10);
    const char *q = l[3].c_str();
    while (*q)
    {
        char *e;
        uint64_t step = strtoull(q, &e, 10);
        if (e == q) break;
        int to = int(strtol(e, &e, 10));
        r.recorded.push_back({step, to});
        q = e;
        while (*q == ' ') ++q;
    }
    if (l.size() > 4) r.detail = l[4];
    return r;
}

static Plan minimise(Plan p, const std::string &prop, const std::string &cls, uint64_t deadline)
{
    auto still = [&](const Plan &c)
    {
        if (raw_now_ns() > deadline) return false;
        Fate f = run_isolated(c, prop);
        return f.violated && f.cls == cls;
    };
    // drop operations and preemptions in halving chunks, then shrink arguments
    for (int round = 0; round < 4; ++round)
    {
        bool any = false;
        for (size_t chunk = std::max<size_t>(p.sw.size() / 2, 1); p.sw.size(); chunk /= 2)
        {
            for (size_t i = 0; i < p.sw.size();)
            {
                Plan c = p;
                size_t e = std::min(i + chunk, c.sw.size());
                c.sw.erase(c.sw.begin() + long(i), c.sw.begin() + long(e));
                if (still(c))
                {
                    p = c;
                    any = true;
                }
                else
                    i = e;
            }
            if (chunk <= 1) break;
        }
        for (size_t chunk = std::max<size_t>(p.ops.size() / 2, 1); p.ops.size(); chunk /= 2)
        {
            for (size_t i = 0; i < p.ops.size();)
            {
                Plan c = p;
                size_t e = std::min(i + chunk, c.ops.size());
                c.ops.erase(c.ops.begin() + long(i), c.ops.begin() + long(e));
                if (still(c))
                {
                    p = c;
                    any = true;
                }
                else
                    i = e;
            }
            if (chunk <= 1) break;
        }
        for (size_t i = 0; i < p.ops.size(); ++i)
            if (p.ops[i].thr)
            {
                Plan c = p;
                c.ops[i].thr = 0;
                if (still(c)) p = c;
            }
        for (size_t i = 0; i < p.ops.size(); ++i)
            for (int k = 0; k < kArgs; ++k)
                for (int64_t cand : {int64_t{0}, int64_t{1}, p.ops[i].a[k] / 2})
                {
                    if (p.ops[i].a[k] == cand || (cand == 1 && p.ops[i].a[k] == 0)) continue;
                    Plan c = p;
                    c.ops[i].a[k] = cand;
                    if (still(c))
                    {
                        p = c;
                        any = true;
                        break;
                    }
                }
        if (!any) break;
    }
    return p;
}

static std::string json_str(const std::string &s)
{
    std::string o = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\') (o += '\\') += c;
        else if (c == '\n') o += "\\n";
        else if (static_cast<unsigned char>(c) < 32) o += ' ';
        else o += c;
    }
    return o + "\"";
}

struct Shared
{
    std::atomic<uint64_t> cur[64];  // seed index each worker is executing
    uint64_t hash_acc[64];
};

int main(int argc, char **argv)
{
    // The same address space layout in every process.
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC"))
    {
        if (personality(unsigned(pers) | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::map<std::string, std::string> opt;
    for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    install_signals();
    arena_base();
    FILE *real_err = stderr;

    if (opt.count("--replay"))
    {
        Plan p;
        std::map<std::string, std::string> head;
        FILE *f = fopen(opt["--replay"].c_str(), "r");
        if (!f || !plan_parse(f, p, head))
        {
            fprintf(real_err, "cannot read replay file\n");
            raw_exit(2);
        }
        fclose(f);
        bool quiet = opt.count("--quiet");
        std::string prop = head["property"];
        Fate fate = run_isolated(p, prop);
        if (!quiet && fate.cls != "process-death") run_plan(p, prop, true);
        printf("replay property=%s violated=%d class=%s hash=%llu\ndetail: %s\n", prop.c_str(),
               fate.violated, fate.cls.c_str(), (unsigned long long)fate.hash, fate.detail.c_str());
        fflush(stdout);
        raw_exit(fate.violated ? 1 : 0);
    }

    const std::string prop = opt["--property"];
    const uint64_t base_seed = strtoull(opt["--seed"].c_str(), nullptr, 10);
    const uint64_t runs = strtoull(opt["--runs"].c_str(), nullptr, 10);
    const int workers = opt.count("--workers") ? atoi(opt["--workers"].c_str()) : 8;
    const double cap_s = opt.count("--cap") ? atof(opt["--cap"].c_str()) : 60;
    const std::string flavour = opt["--flavour"];
    const std::string salt = prop + "/" + g_world.name;
    uint64_t salt_h = 1469598103934665603ull;
    for (char c : salt) salt_h = (salt_h ^ uint64_t(uint8_t(c))) * 1099511628211ull;
    auto seed_of = [&](uint64_t i) { return mix(mix(base_seed, salt_h), i) | 1; };

    Shared *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                            MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const uint64_t t0 = raw_now_ns();
    const uint64_t deadline = t0 + uint64_t(cap_s * 1e9);
    std::vector<int> fds;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w)
    {
        sh->cur[w] = ~0ull;
        int fd[2];
        if (pipe(fd)) raw_exit(2);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            uint64_t done = 0, nontriv = 0, diverged = 0, sim_ns = 0, acc = 0, vio_i = ~0ull, nops = 0;
            std::vector<uint64_t> hashes;
            std::string vio_cls, div_why, nd;
            std::map<std::string, uint64_t> div_kinds;
            for (uint64_t i = uint64_t(w); i < runs; i += uint64_t(workers))
            {
                if ((done & 31) == 0 && raw_now_ns() > deadline) break;
                sh->cur[w] = i;
                Plan p = g_world.gen(seed_of(i), prop);
                p.seed = seed_of(i);
                Ctx c = run_plan(p, prop, false);
                ++done;
                nops += p.ops.size();
                sim_ns += c.sim_ns;
                acc ^= mix(c.hash, i);
                if (c.nontrivial)
                {
                    ++nontriv;
                    hashes.push_back(c.hash);
                }
                if (c.diverged)
                {
                    ++diverged;
                    if (div_why.empty()) div_why = strf("run %llu: ", (unsigned long long)i) + c.other;
                }
                if (c.violated)
                {
                    vio_i = i;
                    vio_cls = c.cls;
                    break;
                }
                // determinism sample: the same seed again must leave the same trace
                if (i % 64 == 5)
                {
                    Ctx c2 = run_plan(p, prop, false);
                    count("determinism:reruns");
                    if (c2.hash != c.hash || c2.violated != c.violated)
                    {
                        nd = strf("run %llu", (unsigned long long)i);
                        break;
                    }
                }
            }
            sh->cur[w] = ~0ull;
            FILE *o = fdopen(fd[1], "w");
            fprintf(o, "S %llu %llu %llu %llu %llu %llu\n", (unsigned long long)done,
                    (unsigned long long)nontriv, (unsigned long long)diverged,
                    (unsigned long long)sim_ns, (unsigned long long)acc, (unsigned long long)nops);
            if (vio_i != ~0ull) fprintf(o, "V %llu %s\n", (unsigned long long)vio_i, vio_cls.c_str());
            if (!div_why.empty())
            {
                for (char &ch : div_why)
                    if (ch == '\n') ch = ' ';
                fprintf(o, "D %s\n", div_why.c_str());
            }
            if (!nd.empty()) fprintf(o, "N %s\n", nd.c_str());
            for (auto &kv : g_counts) fprintf(o, "C %llu %s\n", (unsigned long long)kv.second, kv.first.c_str());
            std::sort(hashes.begin(), hashes.end());
            hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
            for (auto h : hashes) fprintf(o, "H %llx\n", (unsigned long long)h);
            for (size_t k = 0; k < g_state_bits.size(); ++k)
                if (g_state_bits[k]) fprintf(o, "B %zx %x\n", k, g_state_bits[k]);
            fflush(o);
            raw_exit(0);
        }
        close(fd[1]);
        fds.push_back(fd[0]);
        pids.push_back(pid);
    }
    uint64_t done = 0, nontriv = 0, diverged = 0, sim_ns = 0, acc = 0, vio_i = ~0ull, nops = 0;
    std::string vio_cls, div_why, nd;
    std::map<std::string, uint64_t> counts;
    std::vector<uint64_t> hashes;
    // read all pipes concurrently
    std::vector<std::string> bufs(fds.size());
    {
        std::vector<pollfd> pf;
        for (int f : fds) pf.push_back({f, POLLIN, 0});
        size_t open = fds.size();
        static char b[1 << 16];
        while (open)
        {
            poll(pf.data(), pf.size(), -1);
            for (size_t i = 0; i < pf.size(); ++i)
                if (pf[i].fd >= 0 && (pf[i].revents & (POLLIN | POLLHUP | POLLERR)))
                {
                    ssize_t k = read(pf[i].fd, b, sizeof b);
                    if (k > 0)
                        bufs[i].append(b, size_t(k));
                    else if (k == 0 || errno != EINTR)
                    {
                        close(pf[i].fd);
                        pf[i].fd = -1;
                        --open;
                    }
                }
        }
    }
    for (size_t w = 0; w < bufs.size(); ++w)
    {
        int st;
        waitpid(pids[w], &st, 0);
        const uint64_t cur = sh->cur[w].load();
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && cur != ~0ull && cur < vio_i)
        {
            vio_i = cur;  // the worker died inside this run
            vio_cls = "process-death";
        }
        size_t at = 0;
        const std::string &s = bufs[w];
        while (at < s.size())
        {
            size_t e = s.find('\n', at);
            if (e == std::string::npos) break;
            const char *l = s.c_str() + at;
            if (l[0] == 'S')
            {
                unsigned long long a, b2, c, d, h, n;
                sscanf(l + 2, "%llu %llu %llu %llu %llu %llu", &a, &b2, &c, &d, &h, &n);
                done += a;
                nontriv += b2;
                diverged += c;
                sim_ns += d;
                acc ^= h;
                nops += n;
            }
            else if (l[0] == 'V')
            {
                unsigned long long i;
                char cls[256];
                sscanf(l + 2, "%llu %255s", &i, cls);
                if (i < vio_i)
                {
                    vio_i = i;
                    vio_cls = cls;
                }
            }
            else if (l[0] == 'D')
            {
                if (div_why.empty()) div_why = s.substr(at + 2, e - at - 2);
            }
            else if (l[0] == 'N') nd = s.substr(at + 2, e - at - 2);
            else if (l[0] == 'C')
            {
                char *q;
                unsigned long long n = strtoull(l + 2, &q, 10);
                counts[s.substr(size_t(q + 1 - s.c_str()), e - size_t(q + 1 - s.c_str()))] += n;
            }
            else if (l[0] == 'H') hashes.push_back(strtoull(l + 2, nullptr, 16));
            else if (l[0] == 'B')
            {
                char *q;
                size_t k = strtoull(l + 2, &q, 16);
                g_state_bits[k] |= uint8_t(strtoul(q, nullptr, 16));
            }
            at = e + 1;
        }
    }
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
    uint64_t states = 0;
    for (uint8_t b : g_state_bits) states += uint64_t(__builtin_popcount(b));
    const double wall = double(raw_now_ns() - t0) / 1e9;

    std::string vio_detail;
    bool gate_failed = false;
    std::string gate_why;
    if (vio_i != ~0ull)
    {
        Plan p = g_world.gen(seed_of(vio_i), prop);
        p.seed = seed_of(vio_i);
        Fate a = run_isolated(p, prop);
        Fate b = run_isolated(p, prop);
        if (!a.violated || !b.violated || a.hash != b.hash || a.cls != b.cls)
        {
            gate_failed = true;
            gate_why = strf("seed index %llu does not fail the same way twice (%s/%s)",
                            (unsigned long long)vio_i, a.cls.c_str(), b.cls.c_str());
        }
        else
        {
            Plan q = p;
            q.free_sched = false;
            q.sw = a.recorded;
            Fate c = run_isolated(q, prop);
            if (!c.violated || c.cls != a.cls)
            {
                gate_failed = true;
                gate_why = "recorded schedule does not reproduce the violation";
            }
            else
            {
                const size_t n0 = q.ops.size(), s0 = q.sw.size();
                Plan m = minimise(q, prop, a.cls, raw_now_ns() + 20000000000ull);
                Fate f1 = run_isolated(m, prop), f2 = run_isolated(m, prop);
                if (!f1.violated || f1.hash != f2.hash || f1.cls != a.cls)
                {
                    m = q;
                    f1 = c;
                }
                vio_cls = f1.cls;
                vio_detail = f1.detail;
                FILE *o = fopen(opt["--replay-out"].c_str(), "w");
                if (!o) raw_exit(2);
                fprintf(o, "# minimised from %zu operations and %zu context switches\n", n0, s0);
                fprintf(o, "# %s\n", vio_detail.c_str());
                fprintf(o, "property %s\nworld %s\nflavour %s\nclass %s\nhash %llu\nrun %llu\n",
                        prop.c_str(), g_world.name, flavour.c_str(), vio_cls.c_str(),
                        (unsigned long long)f1.hash, (unsigned long long)vio_i);
                fputs(plan_text(m).c_str(), o);
                fclose(o);
            }
        }
    }
    // sample plans, written out
    std::string samples;
    for (uint64_t i = 0; i < 2 && i < runs; ++i)
    {
        Plan p = g_world.gen(seed_of(i), prop);
        p.seed = seed_of(i);
        if (p.ops.size() > 14) p.ops.resize(14);
        samples += (i ? "," : "") + json_str(plan_text(p));
    }
    FILE *o = opt.count("--out") ? fopen(opt["--out"].c_str(), "w") : stdout;
    fprintf(o,
            "{\"world\":%s,\"flavour\":%s,\"runs\":%llu,\"requested\":%llu,\"nontrivial\":%llu,"
            "\"distinct\":%zu,\"states\":%llu,\"diverged\":%llu,\"sim_ns\":%llu,\"ops\":%llu,\"wall_s\":%.3f,"
            "\"acc\":\"%llx\",\"first_divergence\":%s,\"nondeterminism\":%s,",
            json_str(g_world.name).c_str(), json_str(flavour).c_str(), (unsigned long long)done,
            (unsigned long long)runs, (unsigned long long)nontriv, hashes.size(),
            (unsigned long long)states, (unsigned long long)diverged, (unsigned long long)sim_ns,
            (unsigned long long)nops, wall, (unsigned long long)acc, json_str(div_why).c_str(), json_str(nd).c_str());
    fprintf(o, "\"counts\":{");
    bool first = true;
    for (auto &kv : counts)
    {
        fprintf(o, "%s%s:%llu", first ? "" : ",", json_str(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(o, "},\"samples\":[%s],\"violation\":", samples.c_str());
    if (vio_i != ~0ull)
        fprintf(o, "{\"run\":%llu,\"class\":%s,\"detail\":%s,\"gate_failed\":%s,\"gate_why\":%s}",
                (unsigned long long)vio_i, json_str(vio_cls).c_str(), json_str(vio_detail).c_str(),
                gate_failed ? "true" : "false", json_str(gate_why).c_str());
    else
        fprintf(o, "null");
    fprintf(o, "}\n");
    fflush(o);
    raw_exit(0);
}

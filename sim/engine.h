// Deterministic simulation engine: seeded plans, trapped process death,
// simulated heap, cooperative threads with a seeded scheduler, race detection,
// minimisation and replay.
#pragma once
#include <setjmp.h>

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- randomness
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1)));
    }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T, size_t N>
    T pick(const T (&a)[N])
    {
        return a[below(N)];
    }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0x9e3779b97f4a7c15ULL));
    r.next();
    return r.next();
}

// ---------------------------------------------------------------------- plans
constexpr int kArgs = 5;
struct Op
{
    int thr = 0;
    int kind = 0;
    int64_t a[kArgs] = {0, 0, 0, 0, 0};
};
struct Switch
{
    uint64_t step;
    int to;
};
struct Plan
{
    uint64_t seed = 0;
    std::vector<int64_t> cfg;
    std::vector<Op> ops;
    bool free_sched = true;  // true: schedule drawn from seed; false: `sw` only
    std::vector<Switch> sw;
};

// -------------------------------------------------------------------- context
enum Trap
{
    T_NONE = 0,
    T_ABORT = 1,
    T_ASSERT = 2,
    T_SEGV = 3,
    T_HANG = 4,
    T_EXIT = 5
};
const char *trap_name(int t);

struct Ctx
{
    std::string target;     // property under check
    bool verbose = false;   // print the event trace
    bool stop = false;      // the run is over
    bool violated = false;  // the target property is broken
    bool diverged = false;  // something outside the target property broke
    bool open = false;      // ... just now: a verdict on the target may follow
    std::string cls, detail, other;
    uint64_t hash = 0xcbf29ce484222325ULL;
    uint64_t state = 0;
    bool nontrivial = false;
    uint64_t sim_ns = 0;
    std::vector<Switch> recorded;

    bool on(const char *p) const { return target == p; }
    void put(uint64_t v)
    {
        hash = (hash ^ v) * 0x100000001b3ULL;
        hash ^= hash >> 29;
    }
    // One observed event: part of the determinism hash, printed on replay.
    void ev(const char *tag, int64_t x = 0, int64_t y = 0, int64_t z = 0,
            int64_t w = 0);
    // Distinct abstract states reached (coverage measure).
    void at_state(uint64_t h);
    void violate(const char *prop, const char *cls, const std::string &detail);
    void violate_any(const char *cls, const std::string &detail)
    {
        violate(target.c_str(), cls, detail);
    }
    // A verdict that leaves the run intact: other targets go on with it.
    void note(const char *prop, const char *c, const std::string &d)
    {
        if (on(prop)) violate(prop, c, d);
    }
    void diverge(const std::string &why);
};

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);  // fault / probe counters

// ---------------------------------------------------------------------- world
struct World
{
    const char *name;
    const char *const *op_names;
    int n_ops;
    Plan (*gen)(uint64_t seed, const std::string &prop);
    void (*exec)(const Plan &, Ctx &);
};
extern const World g_world;  // defined by each world

// ------------------------------------------------------------- guarded calls
extern sigjmp_buf *g_jmp;
extern uint64_t g_steps, g_step_limit;
extern const char *g_trap_msg;
extern char g_trap_buf[512];
constexpr uint64_t kStepBudget = 100000000;

void reset_exceptions();  // after an exception was abandoned half-way

template <class F>
int guarded(F &&f, uint64_t budget = kStepBudget)
{
    sigjmp_buf *volatile prev = g_jmp;
    sigjmp_buf jb;
    int r = sigsetjmp(jb, 0);
    if (r == 0)
    {
        g_trap_msg = "";
        g_jmp = &jb;
        g_step_limit = g_steps + budget;
        f();
        g_jmp = prev;
        return T_NONE;
    }
    g_jmp = prev;
    reset_exceptions();
    return r;
}

// -------------------------------------------------------------------- memory
// A fixed-address arena: addresses, and so alignments, are the simulator's
// choice and the same in every process.
unsigned char *arena_base();  // aligned to 2^44
void arena_forget(const void *p, size_t n);  // give the pages back to the system
constexpr size_t kArenaSize = size_t{1} << 36;
constexpr size_t kHeapOff = size_t{1} << 35;  // simulated heap lives here
constexpr size_t kObjOff = size_t{7} << 32;   // objects under test live here

struct Block
{
    unsigned char *p;
    size_t size, align;
    int owner;  // upstream id, or -1 for the system allocator
    bool live;
    uint64_t serial;
    bool lo_guard = true, hi_guard = true;
};
struct Call
{
    int owner;
    bool alloc;
    size_t size, align;
    void *p;
    bool bad;  // invalid free / invalid request
    const char *why;
    int thr;
};
// Simulated allocators: owner -1 is the system allocator (sysops seam), other
// owners are simulated upstream resources.
constexpr size_t kImpossible = size_t{1} << 40;  // no request above this can be served
struct Heap
{
    std::map<uintptr_t, Block> blocks;
    std::vector<Call> calls;
    std::map<int, uint64_t> fail_mask;  // per owner: bit i set = call i fails
    uint64_t serial = 0;
    size_t bump = 0;
    size_t limit = 1 << 16;  // larger requests fail, as on a small machine
    bool reuse = false;
    bool exact_align = true;
    // Addresses next to somebody's buffer. A block that can start (or end)
    // exactly there does, as memory next to a buffer may well be the heap's.
    struct Spot
    {
        uintptr_t at;
        bool ends;
        bool used;
    };
    std::vector<Spot> spots;
    void reset();
    void *alloc(int owner, size_t size, size_t align);
    bool free(int owner, void *p);  // false: invalid
    size_t live_count(int owner) const;
    bool guards_ok(std::string *why) const;
};
extern Heap g_heap;

void fill_pattern(unsigned char *p, size_t n, uint64_t key);
// index of the first wrong byte, or -1
long check_pattern(const unsigned char *p, size_t n, uint64_t key);
void fill_garbage(unsigned char *p, size_t n, uint64_t key);

// ------------------------------------------------- simulated threads (fibers)
struct ThreadOpts
{
    bool races = false;
    unsigned num = 1, den = 4;  // preemption probability at each point
    bool pct = false;           // priority-based schedule
};
// Runs the bodies as cooperative threads; every instrumented memory access and
// every seam call is a preemption point.
void run_threads(const Plan &, Ctx &, std::vector<std::function<void()>> bodies,
                 const ThreadOpts &);
int self_thread();       // -1 outside run_threads
void yield_point();      // explicit seam point
uint64_t sched_step();   // global event sequence number
void sync_release(const void *);  // happens-before edges for seams
void sync_acquire(const void *);
void forget_shadow(const void *, size_t);
// Static storage of the code under test (see mark_begin.cpp).
void as_thread(int t);  // from here on the main program is thread t
void program_exit();   // destroys the static objects of the code under test
void fresh_program();  // as it was when the program had just started
extern unsigned char g_data_begin[], g_data_end[], g_bss_begin[], g_bss_end[];
uint64_t raw_now_ns();

// stderr of the code under test
extern std::string g_err;
void capture_stderr();
struct ErrFaults
{
    int64_t fail_at = -1;   // first byte offset that cannot be written
    int err = 0;
    bool shorts = false;    // short writes
    int64_t eintr_every = 0;
    uint64_t injected = 0;
    uint64_t writes = 0;
    uint64_t writes_by[10] = {};  // by thread + 1
};
extern ErrFaults g_err_faults;
extern bool g_sigabrt_ignored;  // raising SIGABRT has no effect
}  // namespace sim
namespace sim
{
std::string race_report();  // of the last run_threads, empty if none
bool deadlocked();
}

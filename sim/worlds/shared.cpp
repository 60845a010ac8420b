// World: threads that look at the same objects at the same time.  The objects
// are set up first; then the threads only read, compare and copy them, and
// each must see what it sees when nobody else is there.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    CHANGE,  // before the threads start: a0 object, a1.. what
    LOOK,    // by a thread: a0 object, a1 how, a2, a3 which
    kKinds
};
const char *const kNames[] = {"change", "look"};
enum What
{
    W_BLOCK,
    W_MONO,
    W_ALLOC,
    W_TIMER,
    W_PIMPL,
    kWhats
};
enum Cfg
{
    THREADS,
    OBJECTS,
    DEN,
    PCT,
    CELLS,  // then 4 numbers per object: what, variant, size, upstream
};
constexpr int kMaxThreads = 4, kMaxObjects = 3, kCellNums = 4;

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    const int nt = int(r.range(2, kMaxThreads)), no = int(r.range(1, kMaxObjects));
    static const int dens[] = {2, 3, 5, 9, 20, 60};
    p.cfg = {nt, no, r.pick(dens), r.chance(1, 4)};
    const int what = int(r.below(kWhats));
    const bool uniform = r.chance(3, 4);
    for (int i = 0; i < no; ++i)
    {
        p.cfg.push_back(uniform ? what : int64_t(r.below(kWhats)));
        p.cfg.push_back(int64_t(r.below(1000)));
        p.cfg.push_back(r.chance(1, 12) ? 0 : r.range(1, 400));
        p.cfg.push_back(int64_t(r.below(6)));
    }
    auto add = [&](int t, int kind) {
        Op o;
        o.thr = t;
        o.kind = kind;
        o.a[0] = int64_t(r.below(uint64_t(no)));
        for (int i = 1; i < 4; ++i) o.a[i] = r.range(0, 9999);
        o.a[4] = r.range(0, 5000);
        p.ops.push_back(o);
    };
    for (int i = int(r.below(uint64_t(8 * no))); i > 0; --i) add(0, CHANGE);
    const int n = int(r.range(1, 8));
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < n; ++i) add(t, LOOK);
    over_and_over(p, r, 400);
    return p;
}

struct Cell
{
    int what = 0, variant = 0, id = 0, up = 0;
    size_t size = 0;
    unsigned char *mem = nullptr, *buf = nullptr, *upmem = nullptr;
    size_t stride = 0;
    Res *res = nullptr;
    std::vector<void *> got;
    bool lives[2] = {false, false};
    int64_t now = 0;
};
struct Log
{
    std::vector<int64_t> v;
    int64_t now = 0;
    void note(int tag, int64_t x)
    {
        v.push_back(tag);
        v.push_back(x);
    }
};
Log *g_log[kMaxThreads + 2];
Log *log_here() { return g_log[self_thread() + 1]; }

struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt, no;
    Cell cell[kMaxObjects];
    Log setup, logs[kMaxThreads];
    Res *handle[3] = {};  // the first two are of one resource
    bool dead = false;

    static const BlockApi &bl(const Cell &k) { return layout(k.variant % kSmallLayouts); }
    static const AllocApi &al(const Cell &k) { return kAlloc[k.variant % kElems]; }
    static const TimerApi &ti(const Cell &k) { return kTimer[1 + k.variant % (kTimers - 1)]; }
    static const PimplApi &pi(const Cell &k) { return kWrapped[k.variant % kPimpls]; }
    unsigned char *own(int t, int i) const { return arena_base() + kObjOff + (size_t{3} << 22) + size_t(t * 2 + i) * 8192; }

    Run(const Plan &p, Ctx &x)
        : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), kMaxThreads))),
          no(int(std::min<int64_t>(std::max<int64_t>(p.cfg[OBJECTS], 1), kMaxObjects)))
    {
        unsigned char *at = arena_base() + kObjOff + 4096;
        for (int i = 0; i < no; ++i)
        {
            Cell &k = cell[i];
            const size_t b = size_t(CELLS) + size_t(i) * kCellNums;
            auto cfg = [&](size_t j) { return b + j < p.cfg.size() ? p.cfg[b + j] : 0; };
            k.id = i;
            k.what = int(uint64_t(cfg(0)) % kWhats);
            k.variant = int(uint64_t(cfg(1)) % 1000);
            k.size = size_t(uint64_t(cfg(2)) % 512);
            k.up = int(uint64_t(cfg(3)) % 6);
            const size_t os = k.what == W_BLOCK ? bl(k).obj_size : k.what == W_MONO ? kMono.obj_size : k.what == W_ALLOC ? al(k).obj_size : k.what == W_TIMER ? ti(k).obj_size : pi(k).size;
            at = reinterpret_cast<unsigned char *>(align_up(ad(at), 64));
            k.mem = at;
            k.stride = (os + 63) & ~size_t{63};
            at += 2 * k.stride;
            k.buf = arena_base() + kObjOff + (size_t{1} << 22) + size_t(i) * 1024 + size_t(k.variant % 32);
            k.upmem = arena_base() + kObjOff + (size_t{2} << 22) + size_t(i) * 64;
        }
    }
    unsigned char *slot(const Cell &k, int s) const { return k.mem + k.stride * size_t(s); }
    Res *upstream(Cell &k)
    {
        switch (k.up)
        {
            case 0: return unit_a().system();
            case 1: return unit_b().system();
            case 2: return unit_a().null();
            case 3: return k.what == W_ALLOC ? unit_b().null() : nullptr;
            case 5: return handle[k.variant % 3];
            default: return sim_resource_make(k.upmem, 10 + k.id);
        }
    }
    template <class F>
    bool call(F &&f)
    {
        if (dead) return false;
        const int trap = guarded(f);
        if (!trap) return true;
        if (Log *l = log_here()) l->note(900, trap);
        if (self_thread() < 0) dead = true;
        return false;
    }
    void build(Cell &k)
    {
        k.res = nullptr;
        k.got.clear();
        k.lives[0] = k.lives[1] = false;
        k.now = 100000 + k.id;
        switch (k.what)
        {
            case W_BLOCK: call([&] { k.res = bl(k).construct(k.mem, k.size ? k.buf : nullptr, k.size, k.up == 1 ? PTR_DEFAULT : PTR_UP, upstream(k)); }); break;
            case W_MONO: call([&] { k.res = kMono.construct(k.mem, k.buf, k.size, k.up == 1 ? PTR_DEFAULT : PTR_UP, upstream(k)); }); break;
            case W_ALLOC: call([&] { k.up == 1 ? al(k).make_default(k.mem) : al(k).make(k.mem, upstream(k)); }); break;
            default: break;
        }
        if (k.what < W_TIMER) return;
        for (int s = 0; s < 2; ++s) start(k, s, k.variant + s);
    }
    void start(Cell &k, int s, int v)
    {
        if (k.what == W_TIMER)
        {
            const int kind = v % (ti(k).owners ? int(kCallables) : int(C_OWNER));
            if (call([&] { ti(k).start(slot(k, s), kind, kind <= C_FN_PTR_TMP ? -1 - v % kFns : 1 + v % 1000); })) k.lives[s] = true;
        }
        else
        {
            int r = 3, after = 0;
            for (int how : {int(P_FWD_INT), int(P_FWD_NONE), int(P_FWD_TWO)})
                if (r && !call([&] { r = pi(k).make(how, slot(k, s), nullptr, v, &after); })) return;
            k.lives[s] = r == 0;
        }
    }
    void change(Cell &k, const Op &o)
    {
        log_here()->now = k.now += o.a[4] < 0 ? 0 : o.a[4];
        const int s = int(o.a[1] & 1);
        switch (k.what)
        {
            case W_BLOCK:
            case W_MONO:
                if (o.a[1] % 3 == 0 && !k.got.empty())
                {
                    const size_t i = size_t(o.a[2]) % k.got.size();
                    void *p = k.got[i];
                    k.got.erase(k.got.begin() + long(i));
                    call([&] { res_dealloc(k.res, p); });
                }
                else if (o.a[1] % 16 == 1)
                {
                    while (!k.got.empty())
                    {
                        void *p = k.got.back();
                        k.got.pop_back();
                        call([&] { res_dealloc(k.res, p); });
                    }
                    call([&] { k.what == W_BLOCK ? bl(k).release(k.mem) : kMono.release(k.mem); });
                }
                else
                {
                    void *p = nullptr;
                    if (call([&] { p = res_alloc(k.res, 1 + size_t(o.a[2] % 90), size_t{1} << (o.a[3] % 6)); }) && p) k.got.push_back(p);
                }
                break;
            case W_ALLOC: break;
            case W_TIMER:
                if (!k.lives[s]) break;
                if (o.a[2] % 3 == 0) call([&] { ti(k).reset(slot(k, s)); });
                else if (o.a[2] % 3 == 1)
                {
                    k.lives[s] = false;
                    if (call([&] { ti(k).destroy(slot(k, s)); })) start(k, s, int(o.a[3]));
                }
                else if (k.lives[!s]) call([&] { ti(k).swap(slot(k, s), slot(k, !s)); });
                break;
            default:
                if (!k.lives[s]) break;
                if (k.lives[!s] && o.a[2] % 4 == 0)
                {
                    bool self = false;
                    call([&] { pi(k).assign(PA_COPY, slot(k, s), slot(k, !s), 0, &self); });
                }
                else call([&] { pi(k).set(slot(k, s), int(o.a[3]), o.a[2] & 1); });
                break;
        }
    }
    int64_t which(const Res *p) const
    {
        if (!p) return -1;
        if (p == unit_a().null()) return -2;
        if (p == unit_a().system()) return -3;
        for (int i = 0; i < no; ++i)
            if (static_cast<const unsigned char *>(p) == cell[i].upmem) return i;
        for (int i = 0; i < 3; ++i)
            if (p == handle[i]) return 10 + i;
        return 99;
    }
    Res *some_resource(Cell &k, int n)
    {
        for (int i = 0; i < no; ++i)
        {
            Cell &q = cell[(k.id + n + i) % no];
            if (q.res && n % 3) return q.res;
        }
        return n & 1 ? unit_a().null() : n & 2 ? unit_b().system() : k.res;
    }
    void look(Cell &k, const Op &o, int t)
    {
        Log &l = *log_here();
        l.now = k.now + 777;  // the same for everybody: no time passes
        l.note(1, o.a[1]);
        const int s = int(o.a[2] & 1);
        int64_t x = 0;
        if (o.a[3] % 4 == 0)
        {
            Res *p = handle[o.a[2] % 3], *q = handle[o.a[2] / 3 % 3];
            call([&] { x = res_eq(p, q) + 2 * res_ne(q, p) + 4 * res_is_equal(p, q); });
            l.note(3, x);
            x = 0;
        }
        switch (k.what)
        {
            case W_BLOCK:
            {
                call([&] {
                    const size_t have = bl(k).size(k.mem) / bl(k).block;
                    switch (o.a[1] % 8)
                    {
                        case 0: x = int64_t(bl(k).free_count(k.mem)); break;
                        case 1: x = int64_t(bl(k).busy_count(k.mem)); break;
                        case 2: x = int64_t(have); break;
                        case 3: x = k.buf - static_cast<const unsigned char *>(bl(k).data(k.mem)); break;
                        case 4: x = res_eq(k.res, some_resource(k, int(o.a[2]))); break;
                        case 5: x = res_is_equal(some_resource(k, int(o.a[2])), k.res) * 2 + res_ne(k.res, some_resource(k, int(o.a[3]))); break;
                        default:
                        {
                            // a walk over the regions, up to a few of them
                            size_t at = 0;
                            for (int j = 0; j < 6 && at < have; ++j)
                            {
                                x = x * 7 + bl(k).in_use(k.mem, at) + int64_t(bl(k).block_size(k.mem, at)) * 2 + int64_t(bl(k).block_bytes(k.mem, at)) * 3 + int64_t(bl(k).prev(k.mem, at));
                                at = o.a[1] & 8 ? bl(k).next(k.mem, at) : at + bl(k).block_size(k.mem, at);
                            }
                            break;
                        }
                    }
                });
                if (o.a[1] % 8 == 3 && !k.size) x = 0;
                break;
            }
            case W_MONO:
                call([&] {
                    switch (o.a[1] % 4)
                    {
                        case 0: x = int64_t(kMono.size(k.mem)); break;
                        case 1: x = k.buf - static_cast<const unsigned char *>(kMono.data(k.mem)); break;
                        case 2: x = res_eq(k.res, some_resource(k, int(o.a[2]))); break;
                        default: x = res_is_equal(some_resource(k, int(o.a[2])), k.res) * 2 + res_ne(k.res, some_resource(k, int(o.a[3]))); break;
                    }
                });
                break;
            case W_ALLOC:
            {
                const int ty = k.variant % kElems, ty2 = int(o.a[2] % kElems);
                unsigned char *mine = own(t, 0), *other = own(t, 1);
                call([&] {
                    switch (o.a[1] % 5)
                    {
                        case 0: x = which(al(k).resource(k.mem)); break;
                        case 1:
                            al(k).copy(mine, k.mem, 6);
                            x = which(al(k).resource(mine)) * 2 + al(k).eq(k.mem, ty, mine);
                            al(k).destroy(mine);
                            break;
                        case 2:
                            kAlloc[ty2].convert(mine, ty, k.mem, 6);
                            x = which(kAlloc[ty2].resource(mine)) * 4 + kAlloc[ty2].ne(mine, ty, k.mem) * 2 + al(k).eq(k.mem, ty2, mine);
                            kAlloc[ty2].destroy(mine);
                            break;
                        case 3:
                            for (int j = 0; j < no; ++j)
                                if (cell[j].what == W_ALLOC) x = x * 2 + al(k).eq(k.mem, cell[j].variant % kElems, cell[j].mem);
                            break;
                        default:
                            // copies of an allocator over the system, or over nothing, work side by side
                            if (k.up > 2) break;
                            al(k).copy(mine, k.mem, 6);
                            kAlloc[ty2].convert(other, ty, mine, int(o.a[2] % 8));
                            void *q = kAlloc[ty2].allocate(other, 1 + size_t(o.a[3] % 6));
                            x = q != nullptr;
                            if (q) al(k).free_bytes(mine, q);
                            kAlloc[ty2].destroy(other);
                            al(k).destroy(mine);
                            break;
                    }
                });
                break;
            }
            case W_TIMER:
                if (k.lives[s]) call([&] { ti(k).read(slot(k, s), int(o.a[1] % kTimerValues)); });
                break;
            default:
                if (!k.lives[s]) break;
                call([&] {
                    switch (o.a[1] % 3)
                    {
                        case 0: x = pi(k).value(slot(k, s)); break;
                        case 1: x = static_cast<const unsigned char *>(pi(k).address(slot(k, s))) - slot(k, s); break;
                        default:
                        {
                            if (!pi(k).copyable) break;
                            int after = 0;
                            x = pi(k).make(P_COPY, own(t, 0), slot(k, s), 0, &after);
                            if (x) break;
                            x = 10 + pi(k).value(own(t, 0));
                            pi(k).destroy(own(t, 0));
                            break;
                        }
                    }
                });
                break;
        }
        l.note(2, x);
    }
    void prepare()
    {
        fresh_program();
        g_heap.reset();
        fill_garbage(arena_base() + kObjOff, 4096 + 65536, 5);
        fill_garbage(arena_base() + kObjOff + (size_t{1} << 22), 4096, 6);
        g_log[0] = &setup;
        setup.v.clear();
        unsigned char *hm = arena_base() + kObjOff + (size_t{2} << 22) + 1024;
        handle[0] = sim_resource_make(hm, 20);
        handle[1] = sim_resource_make_same(hm + 256, 20, handle[0]);
        handle[2] = sim_resource_make(hm + 512, 21);
        for (int i = 0; i < no; ++i)
        {
            setup.now = 100000 + i;
            build(cell[i]);
        }
        for (auto &o : plan.ops)
            if (o.kind == CHANGE)
            {
                as_thread(o.a[4] % 3 ? 0 : int(o.a[4] % nt));
                change(cell[uint64_t(o.a[0]) % uint64_t(no)], o);
            }
        as_thread(0);
    }
    void thread(int t)
    {
        for (auto &o : plan.ops)
            if (o.kind == LOOK && o.thr == t) look(cell[uint64_t(o.a[0]) % uint64_t(no)], o, t);
    }
    void go()
    {
        std::vector<std::vector<int64_t>> alone;
        prepare();
        for (int t = 0; t < nt && !dead; ++t)
        {
            logs[t].v.clear();
            g_log[0] = &logs[t];
            thread(t);
            alone.push_back(logs[t].v);
        }
        if (dead) return c.diverge("an object fails on its own");
        prepare();
        if (dead) return c.diverge("an object fails on its own");
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t)
        {
            logs[t].v.clear();
            g_log[t + 1] = &logs[t];
            bodies.push_back([this, t] { thread(t); });
        }
        ThreadOpts to;
        to.races = true;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        for (auto &l : g_log) l = nullptr;
        static const char *const names[] = {"block resource", "monotonic resource", "allocator", "timer", "wrapped object"};
        if (!race_report().empty()) return c.violate("C05", "race", race_report());
        if (deadlocked()) return c.violate("C05", "stuck", "threads that only look at an object wait for each other for ever");
        for (int t = 0; t < nt; ++t)
        {
            const auto &a = alone[size_t(t)], &b = logs[t].v;
            for (int64_t v : b) c.put(uint64_t(v));
            if (c.verbose)
            {
                std::string s;
                for (size_t j = 0; j < b.size(); j += 2) s += strf(" %lld:%lld", (long long)b[j], (long long)b[j + 1]);
                printf("  thread %d:%s\n", t, s.c_str());
            }
            count("probe:threads-compared");
            if (a == b) continue;
            size_t j = 0;
            while (j < a.size() && j < b.size() && a[j] == b[j]) ++j;
            j &= ~size_t{1};
            int n = -1, at = 0;
            for (size_t q = 0; q <= j && q < a.size(); q += 2) n += a[q] == 1;
            for (auto &o : plan.ops)
                if (o.kind == LOOK && o.thr == t && at++ == n)
                    return c.violate("C05", "disturbed",
                                     strf("thread %d saw something else of a %s, at which others looked too, than on its own (observation %lld:%lld, alone %lld:%lld)", t,
                                          names[cell[uint64_t(o.a[0]) % uint64_t(no)].what], j < b.size() ? (long long)b[j] : -1,
                                          j < b.size() ? (long long)b[j + 1] : -1, j < a.size() ? (long long)a[j] : -1, j < a.size() ? (long long)a[j + 1] : -1));
            return c.violate("C05", "disturbed", strf("thread %d saw something else than on its own", t));
        }
        c.nontrivial = c.recorded.size() > 1 || !plan.free_sched;
        uint64_t h = 0;
        for (auto &s : c.recorded) h = mix(h, s.step * 8 + uint64_t(s.to));
        c.at_state(h);
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < CELLS) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    for (auto &l : g_log) l = nullptr;
}
}  // namespace

extern "C" {
void sim_built(void *, int, int, int) {}
void sim_destroyed(void *, int, int) {}
int64_t sim_clock_now(int)
{
    Log *l = log_here();
    yield_point();
    return l ? l->now : 0;
}
void sim_compares(int) { yield_point(); }
void sim_clock_mark() {}
void sim_timer_value(int which, int64_t v)
{
    if (Log *l = log_here())
    {
        l->note(310, which);
        l->note(311, v);
    }
}
void sim_timer_fired(int token, const void *)
{
    if (Log *l = log_here()) l->note(312, token);
}
void sim_fn_event(int, const void *, int) {}
int sim_obj(int what, const void *, const void *, int64_t value, int)
{
    if (Log *l = log_here())
    {
        l->note(330, what);
        l->note(331, value);
    }
    yield_point();
    return 0;
}
}
namespace sim
{
const World g_world = {"shared", kNames, kKinds, gen, exec};
}

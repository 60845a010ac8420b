// World: threads that use the system, null and default resources, and objects
// that are bound to the default resource while it is being replaced.
#include <set>

#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    SET,      // a0 what (0 fresh, 1 system, 2 null, 3 what was last obtained, 4 none at all), a1 unit, a2 use what it replaced?
    GET,      // a0 unit, a1 use it?
    IDENTITY, // a0 which, a1 unit
    ALLOC,    // a0 size mode, a1 size, a2 log2 align, a3 unit, a4 api
    FREE,     // a0 which block (of any thread), a1 unit
    FREE_NULL,
    NULL_ALLOC, // a0 size, a1 log2 align, a2 unit
    BUILD,    // a0 slot, a1 what, a2 explicit upstream
    DRAIN,    // a0 slot, a1 size
    GIVE_BACK, // a0 slot, a1 which
    RELEASE,  // a0 slot
    DESTROY,  // a0 slot
    FAIL,     // a0 mask
    ASSIGN,   // a0 which one is assigned to which, a1 how
    EXIT,     // the program's static objects are destroyed; what runs then goes on
    kKinds
};
const char *const kNames[] = {"set", "get", "identity", "alloc", "free", "free_null", "null_alloc",
                              "build", "drain", "give_back", "release", "destroy", "allocator_failures", "assign", "exit"};
enum Cfg
{
    THREADS,
    DEN,     // preemption probability 1/DEN at each access
    PCT,
    GUARDS,  // the threads are the first to use the null resource
    REUSE,
    LIMIT,  // log2 of the largest block of the system allocator
    PAST,   // how often these were used before the threads started
    kCfg
};
constexpr int kSlots = 3;
constexpr int kMaxThreads = 4;
constexpr int kFresh = 20;
enum Build
{
    B_BLOCK_DEF,
    B_BLOCK_ARRAY_DEF,
    B_MONO_DEF,
    B_MONO_ARRAY_DEF,
    B_ALLOC_DEF,
    B_BLOCK_UP,
    B_BLOCK_ARRAY_UP,
    B_MONO_UP,
    B_MONO_ARRAY_UP,
    B_ALLOC_UP,
    kBuilds
};

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    const bool c01 = prop == "C01", c03 = prop == "C03";
    const bool none = r.chance(1, 5);  // the register may hold no resource; nothing is built then
    const int nt = c01 ? int(r.range(1, 4)) : int(r.range(2, 4));
    static const int dens[] = {2, 3, 4, 8, 16, 40, 100000};
    p.cfg = {nt, r.pick(dens), r.chance(1, 4), r.chance(1, 2), r.chance(1, 3), c01 && r.chance(1, 4) ? r.range(17, 34) : 16, 0};
    if (r.chance(1, 250)) p.cfg[PAST] = many_times(r);
    const int per = c01 ? int(r.range(3, 14)) : int(r.range(2, 6));
    for (int t = 0; t < nt; ++t)
    {
        const bool setter = c03 && t > 0 && r.chance(1, 2);
        for (int i = 0; i < per; ++i)
        {
            Op o;
            unsigned w = unsigned(r.below(20));
            if (c01)
            {
                if (w < 9) o = {t, ALLOC, {int64_t(r.below(8)), r.range(0, 300), r.chance(1, 6) ? r.range(0, 63) : r.range(0, 9), int64_t(r.below(2)), int64_t(r.below(4))}};
                else if (w < 16) o = {t, FREE, {int64_t(r.below(32)), int64_t(r.below(2)), 0, 0, 0}};
                else if (w == 16) o = {t, FREE_NULL, {int64_t(r.below(2)), int64_t(r.below(2)), 0, 0, 0}};
                else if (w == 17) o = {t, NULL_ALLOC, {r.range(0, 300), r.range(0, 12), int64_t(r.below(2)), 0, 0}};
                else if (w == 18) o = {t, FAIL, {int64_t(r.next() & r.next() & 0xff), 0, 0, 0, 0}};
                else o = {t, IDENTITY, {int64_t(r.below(2)), int64_t(r.below(2)), 0, 0, 0}};
            }
            else if (setter)
            {
                if (w < 16) o = {t, SET, {int64_t(r.chance(1, 2) ? 0 : r.below(4)), int64_t(r.below(2)), 0, 0, 0}};
                else o = {t, GET, {int64_t(r.below(2)), 1, 0, 0, 0}};
            }
            else if (c03)
            {
                if (w < 8) o = {t, BUILD, {int64_t(r.below(kSlots)), r.chance(3, 4) ? int64_t(r.below(5)) : int64_t(r.below(kBuilds)), int64_t(r.below(4)), 0, 0}};
                else if (w < 12) o = {t, DRAIN, {int64_t(r.below(kSlots)), r.range(1, 300), 0, 0, 0}};
                else if (w < 14) o = {t, GIVE_BACK, {int64_t(r.below(kSlots)), int64_t(r.below(4)), 0, 0, 0}};
                else if (w == 14) o = {t, RELEASE, {int64_t(r.below(kSlots)), 0, 0, 0, 0}};
                else if (w == 15) o = {t, DESTROY, {int64_t(r.below(kSlots)), 0, 0, 0, 0}};
                else if (w < 19) o = {t, SET, {int64_t(r.chance(1, 2) ? 0 : r.below(4)), int64_t(r.below(2)), 0, 0, 0}};
                else o = {t, FAIL, {int64_t(r.next() & r.next() & 0xf), 0, 0, 0, 0}};
            }
            else
            {
                if (w < 8) o = {t, SET, {none && r.chance(1, 4) ? 4 : int64_t(r.chance(1, 2) ? 0 : r.below(4)), int64_t(r.below(2)), r.chance(1, 2), 0, 0}};
                else if (w < 15) o = {t, GET, {int64_t(r.below(2)), r.chance(2, 3), 0, 0, 0}};
                else if (w < 18 || none) o = {t, IDENTITY, {int64_t(r.below(2)), int64_t(r.below(2)), 0, 0, 0}};
                else o = {t, BUILD, {int64_t(r.below(kSlots)), int64_t(r.below(5)), 0, 0, 0}};
            }
            p.ops.push_back(o);
        }
    }
    if (c01 && nt == 1 && r.chance(1, 6))
        p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), Op{0, ASSIGN, {int64_t(r.below(2)), int64_t(r.below(2)), 0, 0, 0}});
    if (r.chance(1, 6)) p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), Op{int(r.below(uint64_t(nt))), EXIT, {0, 0, 0, 0, 0}});
    return p;
}

struct Hist
{
    int thr;
    bool write;
    bool build;
    int arg, result;
    uint64_t inv, ret;
};
// Is the history that of one register that starts at `start`?
bool linearizable(const std::vector<Hist> &h, int start)
{
    std::set<std::pair<uint64_t, int>> seen;
    struct Frame
    {
        uint64_t done;
        int value;
    };
    std::vector<Frame> todo{{0, start}};
    const uint64_t all = h.size() == 64 ? ~0ull : (1ull << h.size()) - 1;
    while (!todo.empty())
    {
        Frame f = todo.back();
        todo.pop_back();
        if (f.done == all) return true;
        if (!seen.insert({f.done, f.value}).second) continue;
        uint64_t first_ret = ~0ull;
        for (size_t i = 0; i < h.size(); ++i)
            if (!(f.done >> i & 1)) first_ret = std::min(first_ret, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i)
        {
            if (f.done >> i & 1) continue;
            if (h[i].inv > first_ret) continue;
            if (h[i].result != f.value) continue;
            todo.push_back({f.done | 1ull << i, h[i].write ? h[i].arg : f.value});
        }
    }
    return false;
}

struct SysBlock
{
    Live l;
    bool freeing;
};
struct Obj
{
    int what = -1;
    unsigned char *mem = nullptr, *buf = nullptr;
    size_t buf_size = 0;
    Res *res = nullptr;     // as a resource; the allocator's own for allocators
    int bound = -2;         // value number, -2 nothing, -1 none
    std::vector<void *> upstream;
    int layout = 0, elem = 0;
};
constexpr int V_SYSTEM = 0, V_NULL = 1, V_FIRST = 2, V_NONE = -1, V_NOBODY = -3;

struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt;
    std::vector<Hist> hist;
    uint64_t seq = 0;
    std::vector<Res *> fresh;     // value number V_FIRST + index
    Res *last[kMaxThreads] = {};
    std::vector<SysBlock> blocks;
    Obj obj[kMaxThreads][kSlots];
    uint64_t key = 1;
    Res *sys = nullptr, *nul = nullptr;
    std::string trace;

    Run(const Plan &p, Ctx &x) : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), kMaxThreads)))
    {
        for (int t = 0; t < kMaxThreads; ++t)
            for (int s = 0; s < kSlots; ++s)
            {
                obj[t][s].mem = arena_base() + kObjOff + (size_t(t * kSlots + s) << 20);
                obj[t][s].buf = arena_base() + kObjOff + (size_t(64 + t * kSlots + s) << 20);
            }
        g_heap.reuse = p.cfg[REUSE];
        g_heap.limit = size_t{1} << (uint64_t(p.cfg[LIMIT]) % 36);
    }
    const Defaults &unit(int64_t a) const { return a & 1 ? unit_b() : unit_a(); }
    int value_of(Res *r) const
    {
        if (!r) return V_NONE;
        if (r == sys) return V_SYSTEM;
        if (nul && r == nul) return V_NULL;
        for (size_t i = 0; i < fresh.size(); ++i)
            if (fresh[i] == r) return V_FIRST + int(i);
        return V_NOBODY;
    }
    int owner_of(int value) const { return value == V_SYSTEM ? -1 : value >= V_FIRST ? 10 + value - V_FIRST : -100; }
    int value_of_owner(int owner) const { return owner == -1 ? V_SYSTEM : owner - 10 + V_FIRST; }
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        c.violate_any("died", strf("%s ended in %s (%s)", what, trap_name(trap), g_trap_msg));
        return false;
    }
    Res *make_fresh()
    {
        const int k = int(fresh.size());
        if (k >= kFresh) return sys;
        unsigned char *m = arena_base() + kObjOff + (size_t{100} << 20) + size_t(k) * 4096;
        // taken before the constructor runs, which may be preempted
        fresh.push_back(nullptr);
        Res *r = sim_resource_make(m, 10 + k);
        fresh[size_t(k)] = r;
        return r;
    }
    // this thread's calls since the mark
    std::vector<Call> calls_since(size_t mark, int thr) const
    {
        std::vector<Call> v;
        for (size_t i = mark; i < g_heap.calls.size(); ++i)
            if (g_heap.calls[i].thr == thr) v.push_back(g_heap.calls[i]);
        return v;
    }
    void use(Res *r, int thr)
    {
        // An ordinary use: memory comes and goes.
        void *p = nullptr;
        if (!ok(guarded([&] { p = res_alloc(r, 24, 8); }), "use of an obtained resource")) return;
        if (p && !c.stop) ok(guarded([&] { res_dealloc(r, p); }), "use of an obtained resource");
        c.ev("use", thr, value_of(r), p != nullptr);
    }
    void known(Res *r, const char *what)
    {
        if (value_of(r) != V_NOBODY) return;
        c.violate("C02", "unknown-resource", strf("%s answered a resource nobody ever set", what));
        c.diverge("unknown resource");
    }
    void set(const Op &o, int t)
    {
        Res *r = nullptr, *old = nullptr;
        switch (uint64_t(o.a[0]) % 5)
        {
            case 0: r = make_fresh(); break;
            case 1: r = sys; break;
            case 2: r = nul; break;
            case 4: r = nullptr; break;
            default: r = last[t] ? last[t] : sys; break;
        }
        Hist h{t, true, false, value_of(r), 0, ++seq, 0};
        if (!ok(guarded([&] { old = unit(o.a[1]).set(r); }), "set_default_resource")) return;
        h.ret = ++seq;
        h.result = value_of(old);
        hist.push_back(h);
        last[t] = old;
        c.ev("set", t, h.arg, h.result);
        known(old, "set_default_resource");
        if ((o.a[2] & 1) && !c.stop && h.result >= V_FIRST) use(old, t);
    }
    void get(const Op &o, int t)
    {
        Res *r = nullptr;
        Hist h{t, false, false, 0, 0, ++seq, 0};
        if (!ok(guarded([&] { r = unit(o.a[0]).get(); }), "get_default_resource")) return;
        h.ret = ++seq;
        h.result = value_of(r);
        hist.push_back(h);
        last[t] = r;
        c.ev("get", t, h.result);
        known(r, "get_default_resource");
        if ((o.a[1] & 1) && !c.stop && r) use(r, t);
    }
    void identity(const Op &o, int t)
    {
        Res *r = nullptr;
        const bool n = o.a[0] & 1;
        if (!ok(guarded([&] { r = n ? unit(o.a[1]).null() : unit(o.a[1]).system(); }), "naming a resource")) return;
        c.ev("identity", t, n, o.a[1] & 1);
        if (r != (n ? nul : sys))
        {
            c.violate("C02", "identity", strf("translation unit %d sees another %s resource", int(o.a[1] & 1), n ? "null" : "system"));
            c.diverge("identity");
        }
        bool same = false;
        if (c.stop || !ok(guarded([&] {
                same = res_eq(r, n ? nul : sys) && !res_ne(r, n ? nul : sys) && !res_eq(r, n ? sys : nul);
            }), "comparing the system and null resources"))
            return;
        if (!same) c.violate("C02", "identity", "the system and null resources do not compare as themselves");
    }
    void alloc(const Op &o, int t)
    {
        size_t size = size_t(o.a[1] < 0 ? 0 : o.a[1]), align = size_t{1} << (uint64_t(o.a[2]) & 63);
        int ty = 0;
        switch (uint64_t(o.a[0]) % 8)
        {
            case 0: size = 0; break;
            case 1: size = SIZE_MAX - size; break;
            case 2: size = (size_t{1} << 16) + size; break;
            case 3: size = size_t(1) << (size % 64); break;
            case 4: size = (size_t{1} << (31 + size % 3)) + size - 150; break;
            default: break;
        }
        const int api = int(uint64_t(o.a[4]) % 4);
        if (api == 1) align = alignof(std::max_align_t);
        if (api == 2)
        {
            ty = int(size % kTypes);
            size = kTypeSize[ty];
            align = kTypeAlign[ty];
        }
        const size_t mark = g_heap.calls.size();
        void *p = nullptr;
        const int tr = guarded([&] {
            p = api == 1 ? res_alloc_default(sys, size) : api == 2 ? res_alloc_type(sys, ty) : unit(o.a[3]).alloc(sys, size, align);
        });
        if (!ok(tr, strf("system resource: allocate(%zu, %zu)", size, align).c_str())) return;
        auto cs = calls_since(mark, t);
        c.ev("alloc", t, int64_t(size), int64_t(align), p ? 1 : 0);
        count(p ? "result:memory" : "result:null");
        if (!c.on("C01")) return;
        {
            size_t live = 0, lg = 0;
            for (auto &b : blocks) live += !b.freeing;
            while (lg < 64 && size >> lg) ++lg;
            c.at_state(mix(live, mix(lg, mix(align, uint64_t(api) * 2 + (p != nullptr)))));
        }
        size_t n_alloc = 0;
        for (auto &k : cs)
        {
            if (k.bad) return c.violate("C01", "invalid-request", strf("allocate(%zu, %zu): invalid call to the system allocator: %s", size, align, k.why));
            n_alloc += k.alloc && k.owner == -1;
        }
        if (cs.size() != 1 || n_alloc != 1) return c.violate("C01", "requests", strf("allocate(%zu, %zu) made %zu calls to the system allocator", size, align, cs.size()));
        if (cs[0].size < size || cs[0].align < align)
            return c.violate("C01", "too-little", strf("allocate(%zu, %zu) asked the system allocator for %zu bytes aligned to %zu", size, align, cs[0].size, cs[0].align));
        if (p != cs[0].p)
            return c.violate("C01", "answer", cs[0].p ? "the system allocator's memory was not returned" : "the system allocator failed, but the answer was not null");
        if (p)
        {
            if (ad(p) & (align - 1)) return c.violate("C01", "misaligned", strf("memory for alignment %zu is misaligned", align));
            SysBlock b{{static_cast<unsigned char *>(p), size, align, true, key += 2}, false};
            store(b.l);
            blocks.push_back(b);
        }
        c.nontrivial = true;
    }
    void free_block(size_t i, int64_t u, int t)
    {
        Live l = blocks[i].l;
        blocks[i].freeing = true;
        if (!intact(l)) return c.violate("C01", "corrupted", "bytes of a live block changed");
        const size_t mark = g_heap.calls.size();
        if (!ok(guarded([&] { unit(u).dealloc(sys, l.p); }), "system resource: deallocate")) return;
        auto cs = calls_since(mark, t);
        c.ev("free", t, int64_t(l.size));
        if (cs.size() != 1 || cs[0].alloc || cs[0].bad || cs[0].p != l.p)
            return c.violate("C01", "free", strf("deallocating a block made %zu calls to the system allocator%s%s", cs.size(), cs.size() ? ": " : "",
                                                 cs.size() ? (cs[0].bad ? cs[0].why : "not the freeing of that block") : ""));
    }
    void build(const Op &o, int t)
    {
        Obj &x = obj[t][uint64_t(o.a[0]) % kSlots];
        if (x.what >= 0) destroy(x, t);
        if (c.stop) return;
        const int what = int(uint64_t(o.a[1]) % kBuilds);
        const bool dflt = what < B_BLOCK_UP;
        static const int lay[] = {0, 1, 2, 3};
        x.layout = lay[uint64_t(o.a[2]) % 4];
        x.elem = int(uint64_t(o.a[2]) % kElems);
        const BlockApi &ba = sut::layout(x.layout);
        fill_garbage(x.mem, 4096, uint64_t(t));
        x.buf_size = 64;
        Res *up = nullptr;
        int upv = -1;
        if (!dflt)
        {
            switch (uint64_t(o.a[2]) % 4)
            {
                case 0: break;
                case 1: up = nul; upv = V_NULL; break;
                case 2: up = sys; upv = V_SYSTEM; break;
                default:
                    up = make_fresh();
                    upv = value_of(up);
                    break;
            }
            if (what == B_ALLOC_UP && !up)
            {
                up = nul;
                upv = V_NULL;
            }
        }
        Hist h{t, false, true, 0, 0, ++seq, 0};
        const size_t mark = g_heap.calls.size();
        const int tr = guarded([&] {
            switch (what)
            {
                case B_BLOCK_DEF: x.res = ba.construct(x.mem, x.buf, x.buf_size, PTR_DEFAULT, nullptr); break;
                case B_BLOCK_ARRAY_DEF: x.res = ba.construct(x.mem, x.buf, x.buf_size, ARRAY_DEFAULT, nullptr); break;
                case B_MONO_DEF: x.res = kMono.construct(x.mem, x.buf, x.buf_size, PTR_DEFAULT, nullptr); break;
                case B_MONO_ARRAY_DEF: x.res = kMono.construct(x.mem, x.buf, x.buf_size, ARRAY_DEFAULT, nullptr); break;
                case B_ALLOC_DEF: kAlloc[x.elem].make_default(x.mem); break;
                case B_BLOCK_UP: x.res = ba.construct(x.mem, x.buf, x.buf_size, PTR_UP, up); break;
                case B_BLOCK_ARRAY_UP: x.res = ba.construct(x.mem, x.buf, x.buf_size, ARRAY_UP, up); break;
                case B_MONO_UP: x.res = kMono.construct(x.mem, x.buf, x.buf_size, PTR_UP, up); break;
                case B_MONO_ARRAY_UP: x.res = kMono.construct(x.mem, x.buf, x.buf_size, ARRAY_UP, up); break;
                default: kAlloc[x.elem].make(x.mem, up); break;
            }
        });
        h.ret = ++seq;
        if (!ok(tr, "construction")) return;
        x.what = what;
        x.upstream.clear();
        x.bound = upv;
        if (!calls_since(mark, t).empty()) return c.violate("C03", "construction-calls", "constructing called a memory resource");
        if (dflt)
        {
            x.bound = -2;  // to be learnt from its first use
            drain(x, 100, t);
            if (c.stop) return;
            h.result = x.bound;
            hist.push_back(h);
        }
        c.ev("build", t, what, x.bound);
    }
    bool is_alloc(const Obj &x) const { return x.what == B_ALLOC_DEF || x.what == B_ALLOC_UP; }
    bool is_block(const Obj &x) const { return x.what == B_BLOCK_DEF || x.what == B_BLOCK_ARRAY_DEF || x.what == B_BLOCK_UP || x.what == B_BLOCK_ARRAY_UP; }
    // a request its buffer cannot serve
    void drain(Obj &x, size_t size, int t)
    {
        void *p = nullptr;
        const size_t mark = g_heap.calls.size();
        if (!ok(guarded([&] {
                p = is_alloc(x) ? kAlloc[x.elem].bytes(x.mem, size + x.buf_size, 16) : res_alloc(x.res, size + x.buf_size, 16);
            }), "allocation"))
            return;
        auto cs = calls_since(mark, t);
        if (p) x.upstream.push_back(p);
        if (cs.size() > 1) return c.violate("C03", "several", strf("one request caused %zu upstream requests", cs.size()));
        const int got = cs.empty() ? (x.bound == -1 ? -1 : V_NULL) : value_of_owner(cs[0].owner);
        c.ev("drain", t, got, p != nullptr);
        if (x.bound == -2) x.bound = got;
        if (is_alloc(x))
        {
            Res *r = kAlloc[x.elem].resource(x.mem);
            if (value_of(r) != x.bound) return c.violate("C03", "named", "an allocator names another resource than it uses");
        }
        if (got != x.bound)
            return c.violate("C03", x.what < B_BLOCK_UP ? "rebound" : "not-explicit",
                             strf("an object of kind %d bound to resource %d used resource %d", x.what, x.bound, got));
        if (cs.empty() && p) return c.violate("C03", "from-nowhere", "memory came from no upstream");
    }
    void give_back(Obj &x, size_t i, int t)
    {
        void *p = x.upstream[i];
        x.upstream.erase(x.upstream.begin() + long(i));
        const size_t mark = g_heap.calls.size();
        if (!ok(guarded([&] {
                if (is_alloc(x)) kAlloc[x.elem].free_bytes(x.mem, p);
                else res_dealloc(x.res, p);
            }), "deallocation"))
            return;
        auto cs = calls_since(mark, t);
        c.ev("give_back", t, x.bound);
        if (cs.size() != 1 || cs[0].alloc || cs[0].bad || value_of_owner(cs[0].owner) != x.bound)
            return c.violate("C03", "returned-elsewhere", strf("memory from resource %d was returned to %s", x.bound,
                                                               cs.empty() ? "nobody" : strf("resource %d (%s)", value_of_owner(cs[0].owner), cs[0].why).c_str()));
    }
    void release(Obj &x, int t)
    {
        if (is_alloc(x)) return;
        const size_t mark = g_heap.calls.size();
        if (!ok(guarded([&] { is_block(x) ? sut::layout(x.layout).release(x.mem) : kMono.release(x.mem); }), "release")) return;
        if (!calls_since(mark, t).empty()) c.violate("C03", "release-calls", "release called a memory resource");
    }
    void destroy(Obj &x, int t)
    {
        while (!x.upstream.empty() && !c.stop) give_back(x, x.upstream.size() - 1, t);
        if (c.stop) return;
        release(x, t);
        if (c.stop) return;
        ok(guarded([&] {
            if (is_alloc(x)) kAlloc[x.elem].destroy(x.mem);
            else if (is_block(x)) sut::layout(x.layout).destroy(x.mem);
            else kMono.destroy(x.mem);
        }), "destruction");
        x.what = -1;
    }
    void step(const Op &o, int t)
    {
        Obj &x = obj[t][uint64_t(o.a[0]) % kSlots];
        switch (o.kind)
        {
            case SET: set(o, t); break;
            case GET: get(o, t); break;
            case IDENTITY: identity(o, t); break;
            case ALLOC: alloc(o, t); break;
            case FREE:
            {
                std::vector<size_t> can;
                for (size_t i = 0; i < blocks.size(); ++i)
                    if (!blocks[i].freeing) can.push_back(i);
                if (!can.empty()) free_block(can[uint64_t(o.a[0]) % can.size()], o.a[1], t);
                break;
            }
            case FREE_NULL:
            {
                const size_t mark = g_heap.calls.size();
                Res *r = o.a[0] & 1 ? nul : sys;
                if (!ok(guarded([&] { unit(o.a[1]).dealloc(r, nullptr); }), "deallocating null")) return;
                if (!calls_since(mark, t).empty()) c.violate("C01", "free", "deallocating null freed something");
                break;
            }
            case NULL_ALLOC:
            {
                const size_t mark = g_heap.calls.size();
                void *p = nullptr;
                if (!ok(guarded([&] {
                        p = unit(o.a[2]).alloc(nul, size_t(o.a[0]), size_t{1} << (uint64_t(o.a[1]) & 63));
                        unit(o.a[2]).dealloc(nul, blocks.empty() ? static_cast<void *>(arena_base()) : blocks[0].l.p);
                    }), "the null resource"))
                    return;
                if (p) c.violate("C01", "null-answer", "the null resource answered memory");
                if (!calls_since(mark, t).empty()) c.violate("C01", "null-calls", "the null resource called the system allocator");
                break;
            }
            case BUILD: build(o, t); break;
            case DRAIN:
                if (x.what >= 0) drain(x, size_t(uint64_t(o.a[1]) % 400), t);
                break;
            case GIVE_BACK:
                if (x.what >= 0 && !x.upstream.empty()) give_back(x, uint64_t(o.a[1]) % x.upstream.size(), t);
                break;
            case RELEASE:
                if (x.what >= 0) release(x, t);
                break;
            case DESTROY:
                if (x.what >= 0) destroy(x, t);
                break;
            case ASSIGN:
            {
                bool done = false;
                if (!ok(guarded([&] { done = o.a[0] & 1 ? res_assign(sys, nul, int(o.a[1])) : res_assign(nul, sys, int(o.a[1])); }), "assigning resources")) return;
                c.ev("assign", t, done);
                break;
            }
            case EXIT:
                count("fault:program-exit");
                c.ev("exit", t);
                ok(guarded([&] { program_exit(); }), "the end of the program");
                break;
            case FAIL:
                g_heap.fail_mask[-1] = uint64_t(o.a[0]);
                if (!fresh.empty()) g_heap.fail_mask[10 + int(fresh.size()) - 1] = uint64_t(o.a[0]) >> 2;
                break;
        }
    }
    void body(int t)
    {
        // A dead thread is a dead process.
        for (auto &o : plan.ops)
        {
            if (c.stop) return;
            if (o.thr == t) step(o, t);
        }
        for (auto &x : obj[t])
            if (x.what >= 0 && !c.stop) destroy(x, t);
    }
    std::string show() const
    {
        std::string s;
        auto name = [](int v) { return v == V_SYSTEM ? std::string("system") : v == V_NULL ? std::string("null") : v == V_NONE ? std::string("none") : v == V_NOBODY ? std::string("unknown") : strf("r%d", v - V_FIRST); };
        for (auto &h : hist)
            s += strf("%s[%llu-%llu] thread %d %s%s -> %s", s.empty() ? "" : "; ", (unsigned long long)h.inv, (unsigned long long)h.ret, h.thr,
                      h.write ? "set " : h.build ? "built" : "get", h.write ? name(h.arg).c_str() : "", name(h.result).c_str());
        return s.substr(0, 1500);
    }
    // A long time before all this, on one thread.
    void past()
    {
        const int64_t n = std::min<int64_t>(plan.cfg[PAST], 70000);
        if (n <= 0) return;
        count("op:repeated", uint64_t(n));
        if (c.on("C01"))
        {
            std::vector<void *> held;
            for (int64_t i = 0; i < n + 300 && !c.stop; ++i)
            {
                void *p = nullptr;
                const size_t mark = g_heap.calls.size();
                const bool take = i < 300 || (i - 300) % 2 == 0;
                const size_t at = held.empty() ? 0 : size_t(i * 7) % held.size();
                if (!take)
                {
                    p = held[at];
                    held.erase(held.begin() + long(at));
                }
                if (!ok(guarded([&] { take ? void(p = res_alloc(sys, size_t(i % 90) + 1, 16)) : res_dealloc(sys, p); }), "the system resource, over and over")) return;
                if (g_heap.calls.size() != mark + 1 || g_heap.calls.back().bad || g_heap.calls.back().alloc != take || g_heap.calls.back().p != p)
                    return c.violate("C01", "requests", strf("step %lld of the same: not exactly one right call to the system allocator", (long long)i));
                g_heap.calls.clear();
                if (take && p) held.push_back(p);
            }
            for (void *p : held)
                if (!ok(guarded([&] { res_dealloc(sys, p); }), "system resource: deallocate")) return;
            for (auto &k : g_heap.calls)
                if (k.bad) return c.violate("C01", "free", strf("invalid call to the system allocator: %s", k.why));
            g_heap.calls.clear();
            return;
        }
        Res *other = make_fresh(), *was = sys;
        for (int64_t i = 0; i <= n && !c.stop; ++i)
        {
            Res *next = i == n ? sys : i % 2 ? sys : other, *old = nullptr, *got = nullptr;
            if (!ok(guarded([&] { old = unit(i / 3).set(next); got = unit(i / 2).get(); }), "replacing the default resource over and over")) return;
            if (old != was || got != next)
            {
                c.violate("C02", "over-and-over", strf("replacement %lld: answered the wrong resource", (long long)i));
                return c.diverge("wrong default");
            }
            was = next;
        }
    }
    void go()
    {
        sys = unit_a().system();
        if (!plan.cfg[GUARDS]) nul = unit_a().null();
        const bool early_ok = unit_a().early_default() == unit_a().early_system() && unit_b().early_default() == unit_a().early_system() &&
                                     unit_b().early_system() == unit_a().early_system() && unit_a().early_system() == unit_a().system();
        if (!early_ok && c.on("C02"))
            return c.violate("C02", "initial", "before any replacement the default resource of some translation unit is not the one system resource");
        if (unit_a().get() != sys || unit_b().get() != sys)
        {
            c.violate("C02", "identity", "translation units do not share one default resource");
            return c.diverge("no shared default");
        }
        past();
        if (c.stop) return;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t)
            bodies.push_back([this, t] {
                if (plan.cfg[GUARDS] && !c.stop)
                {
                    // each thread's first use of the null resource: none inherits it from another
                    Res *n = nullptr;
                    if (!ok(guarded([&] { n = unit(t).null(); }), "first use of the null resource")) return;
                    if (nul && n != nul)
                    {
                        c.violate("C02", "identity", "two threads saw different null resources");
                        c.diverge("identity");
                        return;
                    }
                    nul = n;
                }
                body(t);
            });
        ThreadOpts to;
        to.races = true;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        if (!c.stop && !race_report().empty())
        {
            const char *P = c.on("C01") ? "C01" : "C02";
            c.violate(P, "race", race_report());
            c.diverge("race");
        }
        if (!c.stop && deadlocked()) c.violate_any("stuck", "threads wait for each other for ever");
        if (c.stop) return;
        // the end, on one thread
        for (size_t i = 0; i < blocks.size() && !c.stop; ++i)
            if (!blocks[i].freeing) free_block(i, 0, -1);
        if (c.stop) return;
        std::string why;
        if (!g_heap.guards_ok(&why)) return c.violate("C01", "outside-write", why);
        if (g_heap.live_count(-1)) c.violate("C01", "leak", strf("%zu blocks never went back to the system allocator", g_heap.live_count(-1)));
        Hist h{-1, false, false, 0, value_of(unit_a().get()), ++seq, 0};
        h.ret = ++seq;
        hist.push_back(h);
        std::vector<Hist> reg;
        for (auto &e : hist)
            if (!e.build) reg.push_back(e);
        uint64_t st = 1;
        std::vector<Hist> byret = hist;
        std::sort(byret.begin(), byret.end(), [](const Hist &x, const Hist &y) { return x.inv < y.inv; });
        for (auto &e : byret) st = mix(st, mix(uint64_t(e.thr + 1), mix(uint64_t(e.write), uint64_t(e.result + 5))));
        c.at_state(st);
        c.nontrivial = c.nontrivial || hist.size() > 2;
        if (hist.size() > 60) return;
        if (!c.on("C02") && !c.on("C03")) return;
        if (!linearizable(reg, V_SYSTEM))
        {
            c.violate("C02", "not-linearizable", "no order of these calls explains their results: " + show());
            return c.diverge("not linearizable");
        }
        if (reg.size() != hist.size())
        {
            count("probe:default-bound-construction", hist.size() - reg.size());
            if (!linearizable(hist, V_SYSTEM))
                c.violate("C03", "not-the-default", "an object is bound to a resource that was not the default during its construction: " + show());
        }
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    c.put(g_heap.calls.size());
}
}  // namespace
extern "C" void sim_built(void *, int, int, int) {}
extern "C" void sim_destroyed(void *, int, int) {}
namespace sim
{
const World g_world = {"default", kNames, kKinds, gen, exec};
}

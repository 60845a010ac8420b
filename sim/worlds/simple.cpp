// World: one block resource over a chosen buffer and a faulty upstream.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    ALLOC,
    DEALLOC,
    DEALLOC_NULL,
    RELEASE,
    FREE_ALL,
    FAIL,
    RECREATE,
    MISUSE,
    FILL,        // a0 count, a1 bytes, a2 log2 align, a4 stop at the first upstream answer
    FREE_EVERY,  // a0 stride, a1 phase: every a0-th live range
    TWIN,        // a0 how, a1 size, a2 further requests
    CHURN,       // a0 times, a1 bytes, a2 log2 align, a3 what: the same over and over
    CROWD,       // a0 count (0: all blocks), a1 then: regions of one block each, made from the back
    kKinds
};
const char *const kNames[] = {"alloc", "dealloc", "dealloc_null", "release",
                              "free_all", "upstream_failures", "recreate", "misuse", "fill", "free_every", "twin", "churn", "crowd"};
const char *const kMisuse[] = {"misuse:double-free", "misuse:interior-pointer", "misuse:misaligned-pointer",
                               "misuse:free-block", "misuse:foreign-pointer", "misuse:destroy-while-busy"};
enum Cfg
{
    LAYOUT,
    ALIGN,    // log2 of the buffer's alignment
    SHIFT,    // added to the aligned address
    BYTES,    // buffer size
    CTOR,
    UPSTREAM,  // 0 none, 1 simulated, 2 null resource, 3 system resource
    GARBAGE,
    REUSE,
    NULLBUF,
    NEAR,  // which sides of the buffer the heap may use
    LIMIT,  // log2 of the largest upstream block
    kCfg
};
// ALLOC: a0 size mode, a1 value, a2 log2 align, a3 api (0 size+align, 1 size, 2 typed)
enum SizeMode
{
    S_LITERAL,
    S_BLOCKS,    // value blocks + a4
    S_RUN,       // exactly the k-th free run, + a4 bytes
    S_CAPACITY,  // everything + a4 bytes
    S_HUGE,      // SIZE_MAX - value
    S_WRAP,      // so large that address + size wraps to just past the buffer
    S_POWER,     // a4 / 2 a power of two, in bytes or (odd a4) in blocks, + value
    kSizeModes
};

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    const bool misuse_heavy = prop == "A06";
    const bool huge_heavy = prop == "A07";
    p.cfg.assign(kCfg, 0);
    int layout;
    static const int small[] = {0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 11};
    layout = r.pick(small);
    if (r.chance(1, 12)) layout = 8 + int(r.below(3));
    if (r.chance(1, 60)) layout = 12;
    if (r.chance(1, 150)) layout = 13;
    if (r.chance(1, 25)) layout = 14 + int(r.below(2));
    const BlockApi &a = sut::layout(layout);
    p.cfg[LAYOUT] = layout;
    const int blog = __builtin_ctzll(a.block);
    switch (r.below(5))
    {
        case 0: p.cfg[ALIGN] = r.range(0, blog + 8); break;
        case 1: p.cfg[ALIGN] = r.range(0, blog); break;
        case 2: p.cfg[ALIGN] = r.range(blog, blog + 3); break;
        case 3: p.cfg[ALIGN] = r.range(26, 34); break;
        default: p.cfg[ALIGN] = blog; break;
    }
    if (p.cfg[ALIGN] > 34) p.cfg[ALIGN] = 34;
    if (layout >= 14 && p.cfg[ALIGN] > 33) p.cfg[ALIGN] = 33;
    if (r.chance(1, 4)) p.cfg[SHIFT] = r.range(1, int64_t(a.block) * 2);
    const int64_t full = int64_t(a.max_blocks * a.block);
    switch (r.below(6))
    {
        case 0: p.cfg[BYTES] = r.range(0, int64_t(a.block) * 3); break;
        case 1: p.cfg[BYTES] = full + r.range(0, int64_t(a.block) * 3); break;
        case 2: p.cfg[BYTES] = full; break;
        case 3: p.cfg[BYTES] = r.range(0, full); break;
        case 4: p.cfg[BYTES] = int64_t(a.block) * r.range(1, std::min<int64_t>(int64_t(a.max_blocks), 8)); break;
        default: p.cfg[BYTES] = full + int64_t(a.block); break;
    }
    if (r.chance(1, 40) && layout < 14)  // much more than it can use
    {
        const int64_t room = int64_t{5} << 31;
        p.cfg[BYTES] = (int64_t{1} << (r.chance(1, 2) ? 32 : 31)) * (r.chance(2, 3) ? int64_t(a.block) : 1) + r.range(-1, int64_t(a.block) * 3);
        if (p.cfg[BYTES] > room) p.cfg[BYTES] = (int64_t{1} << 32) + r.range(-1, int64_t(a.block) * 3);
        if (r.chance(1, 4)) p.cfg[BYTES] = r.range(int64_t{1} << 31, room);
    }
    p.cfg[CTOR] = int64_t(r.below(kCtorKinds));
    if (p.cfg[CTOR] >= ARRAY_UP) p.cfg[BYTES] = int64_t(r.pick(kArraySizes));
    if (r.chance(1, 10) && p.cfg[BYTES] > 0)  // on both sides of a large power of two
    {
        const int64_t most = std::min<int64_t>(p.cfg[BYTES], int64_t{1} << 30);
        int64_t before = r.chance(1, 3) ? most : r.range(1, most);
        if (r.chance(1, 2) && before > int64_t(a.block)) before -= before % int64_t(a.block);
        p.cfg[ALIGN] = r.range(31, 33);
        p.cfg[SHIFT] = -before;
    }
    static const int ups[] = {0, 1, 1, 1, 2, 3};
    p.cfg[UPSTREAM] = r.pick(ups);
    p.cfg[GARBAGE] = int64_t(r.below(1000));
    p.cfg[REUSE] = r.chance(1, 3);
    p.cfg[NULLBUF] = r.chance(1, 40);
    if (r.chance(1, 3)) p.cfg[NEAR] = r.range(1, 3);
    p.cfg[LIMIT] = r.chance(1, 8) ? r.range(17, 34) : 16;
    const bool many = a.max_blocks >= 250 && r.chance(1, 4);
    if (many && a.max_blocks < 1000 && p.cfg[CTOR] < ARRAY_UP) p.cfg[BYTES] = full + r.range(0, int64_t(a.block) * 3);

    int n = int(r.range(3, r.chance(1, 4) ? 70 : 30));
    if (a.max_blocks >= 250 && p.cfg[CTOR] < ARRAY_UP && r.chance(1, a.max_blocks < 1000 ? 10 : 300))
    {
        p.cfg[BYTES] = full + r.range(0, int64_t(a.block) * 3);
        p.cfg[SHIFT] = r.chance(1, 2) ? 0 : p.cfg[SHIFT];
        if (p.cfg[SHIFT]) p.cfg[BYTES] += int64_t(a.block);
        p.cfg[NULLBUF] = 0;
        Op o;
        o.kind = CROWD;
        static const int64_t counts[] = {0, 0, 127, 128, 255, 256, 32767, 32768, 65535};
        do o.a[0] = r.pick(counts);
        while (o.a[0] > int64_t(a.max_blocks));
        o.a[1] = r.range(0, 1000);
        p.ops.push_back(o);
        n = int(r.range(1, 6));
    }
    const unsigned dealloc_bias = unsigned(r.range(2, 6));
    for (int i = 0; i < n; ++i)
    {
        Op o;
        if (many && r.chance(1, 6))
        {
            o.kind = r.chance(1, 2) ? FILL : FREE_EVERY;
            if (o.kind == FILL)
            {
                static const int counts[] = {20, 100, 254, 255, 256, 257, 300};
                o.a[0] = int64_t(r.pick(counts));
                o.a[1] = r.chance(3, 4) ? r.range(1, int64_t(a.block)) : r.range(1, int64_t(a.block) * 2);
                o.a[2] = r.chance(3, 4) ? r.range(0, blog) : blog + 1;
                o.a[4] = r.chance(3, 4);
            }
            else
            {
                o.a[0] = r.range(1, 4);
                o.a[1] = r.range(0, 3);
            }
            p.ops.push_back(o);
            continue;
        }
        const unsigned w = unsigned(r.below(20));
        if (w < 10)
        {
            o.kind = ALLOC;
            switch (r.below(huge_heavy ? 15 : 11))
            {
                case 0: case 1:
                    o.a[0] = S_LITERAL;
                    o.a[1] = r.range(0, int64_t(a.block) * 2 + 1);
                    break;
                case 2: case 3: case 4: case 5:
                    o.a[0] = S_BLOCKS;
                    o.a[1] = r.range(1, std::min<int64_t>(int64_t(a.max_blocks), r.chance(1, 2) ? 3 : r.chance(1, 2) ? 8 : 64));
                    o.a[4] = r.range(-1, 1);
                    break;
                case 6: case 7:
                    o.a[0] = S_RUN;
                    o.a[1] = int64_t(r.below(8));
                    o.a[4] = r.range(-1, 1);
                    break;
                case 8:
                    o.a[0] = S_CAPACITY;
                    o.a[4] = r.chance(1, 2) ? 0 : r.range(-1, 1);
                    break;
                case 10: case 11: case 12:
                    o.a[0] = S_POWER;
                    o.a[4] = r.chance(1, 2) ? r.range(14, 18) : r.chance(1, 2) ? r.range(62, 67) : r.range(0, 127);
                    o.a[1] = r.chance(1, 2) ? r.range(-2, 2) : r.range(0, int64_t(a.block) * 4);
                    break;
                case 9: case 13:
                    o.a[0] = S_HUGE;
                    o.a[1] = r.chance(1, 2) ? r.range(0, 64) : r.range(0, int64_t(a.block) * 40);
                    break;
                default:
                    o.a[0] = S_WRAP;
                    o.a[1] = r.range(-64, int64_t(a.block) * 8);
                    break;
            }
            switch (r.below(8))
            {
                case 0: case 1: case 2: o.a[2] = r.range(0, blog); break;
                case 3: case 4: o.a[2] = r.range(blog, blog + 4); break;
                case 5: o.a[2] = std::max<int64_t>(0, p.cfg[ALIGN] + r.range(-1, 1)); break;
                case 6: o.a[2] = blog; break;
                default: o.a[2] = r.range(0, 63); break;
            }
            if (r.chance(1, 10)) o.a[3] = 1;
            if (r.chance(1, 10))
            {
                o.a[3] = 2;
                o.a[1] = int64_t(r.below(kTypes));
            }
        }
        else if (w < 10 + dealloc_bias)
        {
            o.kind = DEALLOC;
            o.a[0] = r.chance(1, 3) ? -1 : int64_t(r.below(64));
        }
        else if (w == 16)
        {
            o.kind = r.chance(1, 2) ? RELEASE : FREE_ALL;
            o.a[0] = int64_t(r.below(1000));
            if (r.chance(1, 3)) o.kind = DEALLOC_NULL;
        }
        else if (w == 17)
        {
            o.kind = FAIL;
            o.a[0] = int64_t(r.next() & r.next() & 0xff);
        }
        else if (w == 18 && r.chance(1, 4))
        {
            o.kind = RECREATE;
        }
        else if (w == 19 && (misuse_heavy || r.chance(1, 60)))
        {
            o.kind = MISUSE;
            o.a[0] = int64_t(r.below(6));
            o.a[1] = int64_t(r.below(64));
            o.a[2] = r.range(1, 70);
        }
        else
        {
            o.kind = DEALLOC;
            o.a[0] = int64_t(r.below(64));
        }
        p.ops.push_back(o);
        if (o.kind == MISUSE) break;
    }
    if (misuse_heavy && (p.ops.empty() || p.ops.back().kind != MISUSE) && r.chance(3, 4))
    {
        Op o;
        o.kind = MISUSE;
        o.a[0] = int64_t(r.below(6));
        o.a[1] = int64_t(r.below(64));
        o.a[2] = r.range(1, 70);
        p.ops.push_back(o);
    }
    if (r.chance(1, 200))
    {
        Op o;
        o.kind = CHURN;
        o.a[0] = many_times(r);
        o.a[1] = r.chance(1, 2) ? r.range(1, int64_t(a.block) * 2) : 1;
        o.a[2] = r.range(0, blog);
        o.a[3] = int64_t(r.below(6));
        size_t at = r.below(p.ops.size() + 1);
        while (at > 0 && p.ops[at - 1].kind == MISUSE) --at;
        p.ops.insert(p.ops.begin() + long(at), o);
    }
    if (prop == "A01" && r.chance(1, 60))
    {
        Op o;
        o.kind = TWIN;
        o.a[0] = int64_t(r.below(5));
        o.a[1] = r.range(0, int64_t(a.block));
        o.a[2] = r.range(0, 5);
        p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), o);
    }
    hand_over(p, r);
    return p;
}

struct Run
{
    const Plan &plan;
    Ctx &c;
    const BlockApi &a;
    unsigned char *obj;
    unsigned char *buf = nullptr;
    size_t bytes = 0;
    unsigned char *data = nullptr;  // first whole aligned block
    size_t cap = 0;                 // whole blocks
    size_t cut = 0;                 // alignments up to here are guaranteed
    int ctor = 0;
    int up_kind = 0, owner = 0;
    Res *up = nullptr, *res = nullptr, *decoy = nullptr;
    std::vector<Live> live;     // buffer and upstream
    std::vector<uintptr_t> freed;  // buffer pointers freed since construction
    uint64_t key = 1, last_state = 0;
    size_t calls_seen = 0;
    bool usable = true;

    bool two = false, impossible = false, saw_impossible = false, skip_impossible = false;
    std::vector<uint64_t> answers;

    Run(const Plan &p, Ctx &x) : plan(p), c(x), a(sut::layout(int(p.cfg[LAYOUT]) % kLayouts))
    {
        obj = arena_base() + kObjOff;
        ctor = int(p.cfg[CTOR]) % kCtorKinds;
        bytes = size_t(p.cfg[BYTES] < 0 ? 0 : p.cfg[BYTES]);
        if (ctor >= ARRAY_UP)
        {
            bool ok = false;
            for (size_t s : kArraySizes) ok = ok || s == bytes;
            if (!ok) bytes = 64;
        }
        if (!(p.cfg[NULLBUF] && ctor < ARRAY_UP))
        {
            buf = aligned_spot(int(p.cfg[ALIGN])) + p.cfg[SHIFT];
            put_guards(buf, bytes);
            put_spots(buf, bytes, p.cfg[NEAR]);
            fill_garbage(buf, bytes < 65536 ? bytes : 65536, 7);
            uintptr_t d = align_up(ad(buf), a.block);
            if (bytes && d - ad(buf) < bytes)
            {
                cap = std::min((bytes - (d - ad(buf))) / a.block, a.max_blocks);
                if (cap) data = reinterpret_cast<unsigned char *>(d);
            }
        }
        if (cap)
        {
            size_t al = size_t{1} << __builtin_ctzll(ad(data));
            cut = std::max(al, cap * a.block);
        }
        up_kind = int(p.cfg[UPSTREAM]) % 4;
        if (up_kind == 1)
        {
            owner = 1;
            up = sim_resource_make(up_res_mem(1), 1);
        }
        else if (up_kind == 2)
            up = unit_a().null();
        else if (up_kind == 3)
        {
            owner = -1;
            up = unit_a().system();
        }
        decoy = sim_resource_make(up_res_mem(9), 9);
        g_heap.reuse = p.cfg[REUSE];
        g_heap.limit = size_t{1} << (uint64_t(p.cfg[LIMIT]) % 36);
    }
    ~Run()
    {
        if (buf && bytes > 65536) arena_forget(buf - 4096, bytes + 8192);
    }
    bool in_buf(const void *p) const { return buf && ad(p) >= ad(buf) && ad(p) < ad(buf) + bytes; }
    // Any way of dying in an operation that is correct use.
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        usable = false;
        c.violate_any("died", strf("%s ended in %s (%s) although it is correct use: %s", what,
                                   trap_name(trap), g_trap_msg, g_err.substr(0, 200).c_str()));
        return false;
    }
    size_t n_new_calls() const { return g_heap.calls.size() - calls_seen; }

    bool construct()
    {
        fill_garbage(obj, a.obj_size, uint64_t(plan.cfg[GARBAGE]));
        const bool dflt = ctor == PTR_DEFAULT || ctor == ARRAY_DEFAULT;
        unit_a().set(dflt && up ? up : dflt ? unit_a().null() : decoy);
        if (dflt && !up)
        {
            up = unit_a().null();
            up_kind = 2;
        }
        int t = guarded([&] { res = a.construct(obj, buf, bytes, ctor, up); });
        unit_a().set(decoy);
        return ok(t, "construction");
    }
    // free runs of blocks, from the live ranges alone
    std::vector<std::pair<size_t, size_t>> free_runs() const
    {
        std::vector<std::pair<size_t, size_t>> busy, out;
        for (auto &l : live)
            if (!l.upstream)
            {
                // (memory outside the whole blocks is another property's verdict)
                if (!data || ad(l.p) + l.size <= ad(data) || ad(l.p) >= ad(data) + cap * a.block) continue;
                size_t f = ad(l.p) < ad(data) ? 0 : (ad(l.p) - ad(data)) / a.block;
                size_t e = (ad(l.p) + l.size - 1 - ad(data)) / a.block + 1;
                busy.push_back({f, std::min(e, cap)});
            }
        std::sort(busy.begin(), busy.end());
        size_t at = 0;
        for (auto &b : busy)
        {
            if (b.first > at) out.push_back({at, b.first});
            at = std::max(at, b.second);
        }
        if (at < cap) out.push_back({at, cap});
        return out;
    }
    bool fits(size_t size, size_t align) const
    {
        for (auto &r : free_runs())
        {
            uintptr_t s = ad(data) + r.first * a.block, e = ad(data) + r.second * a.block;
            uintptr_t at = align_up(s, align);
            if (at < s || at > e) continue;
            if (size <= e - at) return true;
        }
        return false;
    }
    uint64_t reported_state() const
    {
        uint64_t h = 17;
        auto add = [&](uint64_t v) { h = mix(h, v); };
        add(a.size(obj));
        if (!cap)
        {
            add(a.free_count(obj));
            add(a.busy_count(obj));
            return h;
        }
        add(a.free_count(obj));
        add(a.busy_count(obj));
        size_t i = 0, n = 0;
        do
        {
            add(i);
            add(a.in_use(obj, i));
            size_t nx = a.next(obj, i);
            if (nx && nx <= i) break;
            i = nx;
        } while (i && i < cap && ++n <= cap);
        return h;
    }
    void check_regions()
    {
        if (!c.on("A02") && !c.on("A05")) return;
        const char *P = c.target.c_str();
        size_t nlive = 0;
        for (auto &l : live) nlive += !l.upstream;
        size_t fc = a.free_count(obj), bc = a.busy_count(obj);
        if (!cap)
        {
            if (fc || bc)
                c.violate(P, "counts-empty",
                          strf("a resource without any block reports %zu free and %zu busy regions", fc, bc));
            return;
        }
        if (c.on("A05")) return;  // exact state after release is checked there
        std::vector<std::pair<size_t, size_t>> busy;
        for (auto &l : live)
            if (!l.upstream)
                busy.push_back({(ad(l.p) - ad(data)) / a.block,
                                (ad(l.p) + l.size - 1 - ad(data)) / a.block + 1});
        std::sort(busy.begin(), busy.end());
        size_t i = 0, prev = 0, nf = 0, nb = 0, bi = 0;
        bool first = true, prev_free = false;
        for (;;)
        {
            size_t nx = a.next(obj, i), pv = a.prev(obj, i);
            bool use = a.in_use(obj, i);
            size_t sz = a.block_size(obj, i), by = a.block_bytes(obj, i);
            size_t end = nx ? nx : cap;
            if (nx && (nx <= i || nx >= cap))
                return c.violate(P, "links", strf("region at block %zu links to block %zu", i, nx));
            if (sz != end - i || by != sz * a.block)
                return c.violate(P, "region-size",
                                 strf("region at block %zu reports %zu blocks, %zu bytes; it spans %zu blocks", i, sz, by, end - i));
            if (pv != (first ? 0 : prev))
                return c.violate(P, "prev-link",
                                 strf("region at block %zu reports previous region %zu, it is %zu", i, pv, first ? 0 : prev));
            if (use)
            {
                ++nb;
                if (bi >= busy.size() || busy[bi].first != i || busy[bi].second != end)
                    return c.violate(P, "busy-region",
                                     strf("blocks [%zu,%zu) are reported in use; the next live allocation covers [%zu,%zu)", i,
                                          end, bi < busy.size() ? busy[bi].first : 0, bi < busy.size() ? busy[bi].second : 0));
                ++bi;
            }
            else
            {
                ++nf;
                if (!first && prev_free)
                    return c.violate(P, "not-merged", strf("two neighbouring free regions meet at block %zu", i));
            }
            prev_free = !use;
            prev = i;
            first = false;
            if (!nx) break;
            i = nx;
        }
        if (bi != busy.size())
            return c.violate(P, "missing-region", strf("%zu live allocations, %zu regions in use", busy.size(), bi));
        if (fc != nf || bc != nb)
            return c.violate(P, "counts",
                             strf("reports %zu free and %zu busy regions; there are %zu and %zu", fc, bc, nf, nb));
    }
    void check_bytes()
    {
        if (!c.on("A01")) return;
        if (buf && !guards_intact(buf, bytes, plan.cfg[NEAR]))
            return c.violate("A01", "outside-write", "bytes next to the caller's buffer were overwritten");
        std::string why;
        if (!g_heap.guards_ok(&why)) return c.violate("A01", "outside-write", why);
        for (auto &l : live)
            if (!intact(l)) return c.violate("A01", "corrupted", strf("bytes of a live %zu-byte range changed", l.size));
    }
    void after()
    {
        if (c.stop) return;
        calls_seen = g_heap.calls.size();
        int t = guarded([&] {
            check_regions();
            if (!c.stop)
            {
                uint64_t st = last_state = reported_state();
                if (!impossible) answers.push_back(st);
                c.put(st);
                c.at_state(mix(st, uint64_t(plan.cfg[LAYOUT])));
            }
        });
        if (!ok(t, "reading the reported state")) return;
        check_bytes();
    }
    // Did the operation stay away from every allocator?
    void no_upstream(const char *what)
    {
        if (n_new_calls())
            c.note("A04", "stray-upstream-call", strf("%s made %zu upstream call(s)", what, n_new_calls()));
    }
    void alloc(const Op &o)
    {
        request(o);
        impossible = false;
    }
    void request(const Op &o)
    {
        size_t size = 0, align = size_t{1} << (uint64_t(o.a[2]) & 63);
        int api = int(o.a[3]) % 3;
        switch (o.a[0] % kSizeModes)
        {
            case S_LITERAL: size = size_t(o.a[1]); break;
            case S_BLOCKS: size = size_t(o.a[1]) * a.block + size_t(o.a[4]); break;
            case S_RUN:
            {
                auto r = free_runs();
                if (r.empty()) { size = a.block; break; }
                auto &x = r[size_t(o.a[1]) % r.size()];
                size = (x.second - x.first) * a.block + size_t(o.a[4]);
                break;
            }
            case S_CAPACITY: size = cap * a.block + size_t(o.a[4]); break;
            case S_HUGE: size = SIZE_MAX - size_t(o.a[1]); break;
            case S_POWER: size = (size_t{1} << (uint64_t(o.a[4]) / 2 % 64)) * (o.a[4] & 1 ? a.block : 1) + size_t(o.a[1]); break;
            default: size = size_t(0) - ad(data ? data : arena_base()) + size_t(o.a[1]); break;
        }
        if (api == 1) align = alignof(std::max_align_t);
        int ty = 0;
        if (api == 2)
        {
            ty = int(uint64_t(o.a[1]) % kTypes);
            size = kTypeSize[ty];
            align = kTypeAlign[ty];
        }
        const bool huge = size > kImpossible;
        if (huge) count("probe:huge-request");
        impossible = huge || !size;
        if (impossible)
        {
            saw_impossible = true;
            if (skip_impossible) return;
        }
        const uint64_t before = last_state;  // read after the operation before this one
        const bool can = size && cap && fits(size, align);
        void *vp = nullptr;
        int t = guarded([&] {
            vp = api == 0 ? res_alloc(res, size, align)
                          : api == 1 ? res_alloc_default(res, size) : res_alloc_type(res, ty);
        });
        if (!ok(t, strf("allocate(%zu, %zu)", size, align).c_str())) return;
        unsigned char *p = static_cast<unsigned char *>(vp);
        // The calls the upstream saw during this request.
        std::vector<Call> calls(g_heap.calls.begin() + long(calls_seen), g_heap.calls.end());
        const bool from_buf = p && in_buf(p);
        c.ev("alloc", int64_t(size), int64_t(align), p ? (from_buf ? int64_t(ad(p) - ad(buf)) : -1) : -2,
             int64_t(calls.size()));
        count(p ? (from_buf ? "result:buffer" : "result:upstream") : "result:null");
        if (!impossible) answers.push_back(p ? (from_buf ? ad(p) - ad(buf) : SIZE_MAX - 1) : SIZE_MAX);
        if (!size)
        {
            if (p || !calls.empty())
            {
                c.violate("A07", "zero-size", strf("a zero-byte request returned %s and made %zu upstream calls",
                                                   p ? "memory" : "null", calls.size()));
                usable = false;
                c.diverge("zero-size request answered");
                return;
            }
            int t2 = guarded([&] {
                if (reported_state() != before) c.violate("A07", "zero-size-state", "a zero-byte request changed the state");
            });
            if (!ok(t2, "reading the reported state")) return;
            return after();
        }
        int t3 = guarded([&] {
            if (!from_buf && reported_state() != before)
            {
                if (c.on("A04")) c.violate("A04", "state-changed", "a request not served from the buffer changed the reported state");
                if (c.on("A07") && huge) c.violate("A07", "state-changed", "an impossible request changed the reported state");
            }
        });
        if (!ok(t3, "reading the reported state")) return;
        if (p && align > 1 && (ad(p) & (align - 1)) && c.on("A01"))
            return c.violate("A01", "misaligned", strf("asked for alignment %zu, got an address ending in %#zx", align,
                                                       size_t(ad(p) & (2 * align - 1))));
        if (from_buf)
        {
            size_t room = ad(buf) + bytes - ad(p);
            if (size > room)
            {
                c.violate("A07", "too-little", strf("a request for %zu bytes got a pointer to %zu bytes", size, room));
                c.violate("A01", "past-the-end", strf("%zu bytes were handed out %zu bytes before the end of the buffer", size, room));
                usable = false;
                return;
            }
            if (data && (ad(p) < ad(data) || ad(p) + size > ad(data) + cap * a.block))
            {
                // inside the caller's buffer but outside the capacity
                c.note("A03", "capacity", "memory was handed out outside the whole blocks of the buffer");
                if (!c.on("A01"))  // it is memory the caller gave, still
                {
                    c.diverge("memory outside the whole blocks");
                    usable = false;
                    return;
                }
            }
            for (auto &l : live)
                if (!l.upstream && ad(p) < ad(l.p) + l.size && ad(l.p) < ad(p) + size)
                {
                    c.violate("A01", "overlap", strf("a new %zu-byte range overlaps a live %zu-byte range", size, l.size));
                    c.violate("A02", "overlap", "blocks of a region in use were handed out again");
                    c.diverge("overlapping ranges");
                    usable = false;
                    return;
                }
            if (!calls.empty())
                c.note("A04", "stray-upstream-call", strf("a request served from the buffer made %zu upstream call(s)", calls.size()));
            Live l{p, size, align, false, key += 2};
            store(l);
            live.push_back(l);
        }
        else
        {
            if (can && align <= cut)
            {
                c.note("A03", "space-lost",
                          strf("a request for %zu bytes aligned to %zu was not served although a run of free blocks can hold it", size, align));
            }
            // exactly one honest upstream request
            const bool sim_up = up_kind == 1 || up_kind == 3;
            const char *P = huge && c.on("A07") ? "A07" : "A04";
            if (c.on(P))
            {
                if (sim_up)
                {
                    if (calls.size() != 1 || !calls[0].alloc || calls[0].owner != owner)
                        return c.violate(P, "upstream-calls", strf("a request the buffer cannot serve made %zu upstream call(s)", calls.size()));
                    if (calls[0].size < size || calls[0].align < align)
                        return c.violate(P, "upstream-request", strf("asked the upstream for %zu bytes aligned to %zu instead of %zu and %zu",
                                                                     calls[0].size, calls[0].align, size, align));
                    if (calls[0].p != p)
                        return c.violate(P, "upstream-answer", "the upstream's answer was not returned unchanged");
                }
                else if (p || !calls.empty())
                    return c.violate(P, "no-upstream", strf("without an upstream the answer must be null (%zu calls)", calls.size()));
            }
            if (p)
            {
                const Block *b = nullptr;
                auto it = g_heap.blocks.find(ad(p));
                if (it != g_heap.blocks.end() && it->second.live) b = &it->second;
                if (!b || b->size < size)
                {
                    c.violate("A07", "too-little", strf("a request for %zu bytes got memory nobody provided for it", size));
                    c.violate("A01", "foreign", "the returned memory is neither in the buffer nor a block of the upstream");
                    c.diverge("foreign pointer");
                    usable = false;
                    return;
                }
                Live l{p, size, align, true, key += 2};
                store(l);
                live.push_back(l);
            }
        }
        if (c.stop) return;
        c.nontrivial = true;
        after();
    }
    void dealloc(size_t i)
    {
        Live l = live[i];
        live.erase(live.begin() + long(i));
        if (c.on("A01") && !intact(l))
            return c.violate("A01", "corrupted", strf("bytes of a live %zu-byte range changed", l.size));
        int t = guarded([&] { res_dealloc(res, l.p); });
        if (!ok(t, l.upstream ? "deallocating an upstream block" : "deallocating a buffer block")) return;
        c.ev("dealloc", l.upstream ? -1 : int64_t(ad(l.p) - ad(buf)), int64_t(l.size), int64_t(n_new_calls()));
        if (l.upstream)
        {
            const auto &cs = g_heap.calls;
            bool good = n_new_calls() == 1 && !cs.back().alloc && cs.back().owner == owner && cs.back().p == l.p && !cs.back().bad;
            if (!good)
                c.note("A04", "upstream-return", strf("an upstream block was not returned to the upstream exactly once (%zu calls%s%s)",
                                                         n_new_calls(), n_new_calls() ? ", " : "", n_new_calls() ? cs.back().why : ""));
        }
        else
        {
            freed.push_back(ad(l.p));
            if (n_new_calls()) c.note("A04", "buffer-pointer-upstream", "a deallocation of buffer memory reached the upstream");
        }
        after();
    }
    void release()
    {
        int t = guarded([&] { a.release(obj); });
        if (!ok(t, "release")) return;
        size_t n = 0;
        std::vector<Live> keep;
        for (auto &l : live)
        {
            if (l.upstream) keep.push_back(l);
            else
            {
                ++n;
                freed.push_back(ad(l.p));
            }
        }
        live.swap(keep);
        c.ev("release", int64_t(n), int64_t(live.size()), int64_t(n_new_calls()));
        if (c.on("A05"))
        {
            if (n_new_calls()) return c.violate("A05", "upstream-call", "release called the upstream");
            int t2 = guarded([&] {
                size_t fc = a.free_count(obj), bc = a.busy_count(obj);
                if (fc != (cap ? 1u : 0u) || bc != 0)
                    return c.violate("A05", "counts", strf("after release %zu free and %zu busy regions are reported", fc, bc));
                if (cap && (a.in_use(obj, 0) || a.next(obj, 0) || a.block_size(obj, 0) != cap))
                    return c.violate("A05", "region", strf("after release the first region is %s and has %zu of %zu blocks",
                                                           a.in_use(obj, 0) ? "in use" : "free", a.block_size(obj, 0), cap));
                for (size_t i = 0; cap && i < (cap < 512 ? cap : 512); ++i)
                    if (a.in_use(obj, i)) return c.violate("A05", "in-use-left", strf("after release block %zu is still in use", i));
            });
            if (!ok(t2, "reading the reported state")) return;
            if (c.stop) return;
            // the whole capacity, in one piece, for a moment
            if (cap && (plan.seed & 1))
            {
                void *p = nullptr;
                int t3 = guarded([&] { p = res_alloc(res, cap * a.block, 1); });
                if (!ok(t3, "allocating everything after release")) return;
                if (p != data) return c.violate("A05", "whole", "the whole capacity cannot be allocated after release");
                int t4 = guarded([&] { res_dealloc(res, p); });
                if (!ok(t4, "deallocating everything after release")) return;
            }
            for (auto &l : live)
                if (!intact(l)) return c.violate("A05", "upstream-memory", "release damaged memory obtained from the upstream");
        }
        else
            no_upstream("release");
        after();
    }
    bool release_all_live(uint64_t order)
    {
        Rng r(order);
        while (!live.empty() && !c.stop) dealloc(r.below(live.size()));
        return !c.stop;
    }
    // As many regions in use as there can be.  Every one is allocated behind
    // a region that takes all the blocks before it: two steps of the search.
    void crowd(const Op &o)
    {
        size_t n = o.a[0] > 0 ? std::min(size_t(o.a[0]), cap) : cap;
        for (auto &l : live)
            if (!l.upstream) return;
        if (n < 2 || cap > 70000) return;
        uintptr_t lo = ad(data), hi = lo + cap * a.block;  // the blocks still free
        const uint64_t began = g_steps;
        size_t i = 0;
        for (; i < n && !c.stop; ++i)
        {
            // A search that looks at every region takes too long for so many.
            if (g_steps - began > 600000000) break;
            void *before = nullptr, *p = nullptr;
            const size_t k = (hi - lo) / a.block - 1;
            int t = guarded(
                [&]
                {
                    if (k) before = res_alloc(res, k * a.block, 1);
                    p = res_alloc(res, a.block, 1);
                    if (k && before) res_dealloc(res, before);
                });
            if (!ok(t, strf("making region %zu of one block", i).c_str())) return;
            // whichever end it is put at
            const bool back = ad(p) == hi - a.block && (!k || ad(before) == lo);
            if (!back && !(ad(p) == lo && ad(before) == lo + a.block))
            {
                if (!in_buf(p) || (k && !in_buf(before)))
                    c.note("A03", "space-lost", strf("%zu free blocks were not served as %zu and 1", k + 1, k));
                for (void *x : {p, before})
                    if (in_buf(x) && (ad(x) < lo || ad(x) >= hi)) c.note("A01", "overlap", "a block in use was handed out again");
                c.diverge("no crowd");
                usable = false;
                return;
            }
            if (back) hi -= a.block;
            else lo += a.block;
            Live l{static_cast<unsigned char *>(p), a.block, 1, false, key += 2};
            store(l);
            live.push_back(l);
        }
        c.ev("crowd", int64_t(i), int64_t(cap));
        count("op:one-block-regions", i);
        c.nontrivial = true;
        if (n_new_calls()) c.note("A04", "stray-upstream-call", strf("requests served from the buffer made %zu upstream call(s)", n_new_calls()));
        after();
        Rng r(uint64_t(o.a[1]));
        for (int i = int(r.below(4)); i > 0 && !c.stop && usable; --i) dealloc(r.chance(1, 2) ? r.below(live.size()) : r.chance(1, 2) ? 0 : live.size() - 1);
        if (c.stop || !usable) return;
        if (c.on("A06") && r.chance(2, 3))
        {
            Op w;
            w.kind = MISUSE;
            w.a[0] = r.chance(1, 2) ? 5 : int64_t(r.below(6));
            w.a[1] = int64_t(r.below(64));
            w.a[2] = r.range(1, 70);
            misuse(w);
        }
        if (c.stop || !usable) return;
        if (cap > 1000 || r.chance(1, 2)) release();
    }
    // Many releases with nothing in between.
    void releases(int64_t n)
    {
        release();
        if (c.stop || !usable) return;
        c.ev("releases", n);
        count("op:repeated", uint64_t(n));
        c.nontrivial = true;
        const uint64_t want = last_state;
        bool same = true;
        int64_t i = 0;
        const bool filled = cap && cap * a.block < (size_t{1} << 40);
        int t = guarded([&] {
            if (filled) res_alloc(res, cap * a.block, 1);
            for (; i < n && same; ++i)
            {
                a.release(obj);
                same = reported_state() == want;
            }
        });
        if (!ok(t, "release over and over")) return;
        if (!same) c.note("A05", "state-changed", strf("release %lld of an empty resource changed what it reports", (long long)i + 1));
        if (c.stop) return;
        if (filled)
        {
            void *p = nullptr;
            if (!ok(guarded([&] { p = res_alloc(res, cap * a.block, 1); }), "allocating everything after release")) return;
            if (p != data)
            {
                c.note("A03", "space-lost", strf("after %lld releases the whole capacity cannot be allocated", (long long)i));
                usable = false;
                return c.diverge("capacity lost");
            }
            if (!ok(guarded([&] { res_dealloc(res, p); }), "deallocating everything after release")) return;
        }
        after();
    }
    void churn(const Op &o)
    {
        const size_t size = size_t(o.a[1] < 1 ? 1 : o.a[1]), align = size_t{1} << (uint64_t(o.a[2]) % 40);
        const int what = int(uint64_t(o.a[3]) % 6);
        if (what == 5) return releases(std::max<int64_t>(1, std::min<int64_t>(o.a[0], 70000)));
        bool idle = true;
        for (auto &l : live) idle = idle && l.upstream;
        if (what == 1 && !idle) return;
        const bool must = fits(size, align) && align <= cut;
        if (what < 3 && !must) return;
        int64_t n = std::min<int64_t>(o.a[0], what == 3 ? 1000 : 70000);
        c.ev("churn", n, what, int64_t(size), int64_t(align));
        count("op:repeated", uint64_t(n));
        c.nontrivial = true;
        for (int64_t i = 0; i < n && !c.stop && usable; ++i)
        {
            void *p = nullptr, *q = nullptr;
            const uint64_t before = last_state;
            int t = guarded(
                [&]
                {
                    if (what == 3) return res_dealloc(res, nullptr);
                    if (what == 4)
                    {
                        p = res_alloc(res, SIZE_MAX - size, align);
                        return;
                    }
                    p = res_alloc(res, size, align);
                    if (what == 2) q = res_alloc(res, 1, 1);
                });
            if (!ok(t, strf("round %lld of the same", (long long)i).c_str())) return;
            if (what == 4 && p) return c.violate("A07", "too-little", "a request for nearly all memory was answered");
            if (what < 3 && !in_buf(p))
            {
                c.note("A03", "space-lost", strf("round %lld: %zu bytes aligned to %zu fit, and did before, but were not served", (long long)i, size, align));
                if (p || c.stop)
                {
                    c.diverge("not served from the buffer");
                    usable = false;
                    return;
                }
            }
            for (void *x : {p, q})
                if (x && in_buf(x))
                    for (auto &l : live)
                        if (!l.upstream && ad(x) < ad(l.p) + l.size && ad(l.p) < ad(x) + (x == p ? size : 1))
                        {
                            c.violate("A01", "overlap", strf("round %lld: a new range overlaps a live one", (long long)i));
                            usable = false;
                            return c.diverge("overlapping ranges");
                        }
            if (p && q && ad(q) >= ad(p) && ad(q) < ad(p) + size) c.violate("A01", "overlap", "two new ranges overlap");
            if (p && (ad(p) & (align - 1))) c.violate("A01", "misaligned", strf("round %lld: misaligned for %zu", (long long)i, align));
            t = guarded(
                [&]
                {
                    if (what == 1) a.release(obj);
                    else
                    {
                        if (p) res_dealloc(res, p);
                        if (q) res_dealloc(res, q);
                    }
                    if (i % 64 == 0 && reported_state() != before && what >= 3) c.note("A07", "state-changed", "an operation without effect changed the state");
                });
            if (!ok(t, strf("round %lld of the same", (long long)i).c_str())) return;
            if (what < 3 && p) freed.assign(1, ad(p));
        }
        if (what < 3 && n_new_calls() && !g_heap.calls.empty() && what != 2) c.note("A04", "stray-upstream-call", "requests served from the buffer made upstream calls");
        if (c.stop || !usable) return;
        after();
    }
    // A resource made from this one, where the library lets one be made: what
    // either hands out from now on must still be nobody else's.
    void twin(const Op &o)
    {
        unsigned char *mem = obj + align_up(a.obj_size, 4096) + 4096;
        Res *other = nullptr;
        int t = guarded([&] { other = a.twin(mem, obj, int(uint64_t(o.a[0]) % 5)); });
        if (t == T_NONE && !other) return;
        if (!ok(t, "making a resource from another")) return;
        c.ev("twin", o.a[0], int64_t(live.size()));
        count("op:twin");
        c.nontrivial = true;
        size_t n = 0;
        for (int64_t i = 0; i < 2 + o.a[2] && !c.stop; ++i)
        {
            const size_t size = 1 + size_t(o.a[1]) % 64;
            void *p = nullptr;
            int t2 = guarded([&] { p = res_alloc((i ^ o.a[2]) & 1 ? res : other, size, 1); });
            if (!ok(t2, "allocating from one of two resources")) return;
            if (!p) continue;
            ++n;
            for (auto &l : live)
                if (ad(p) < ad(l.p) + l.size && ad(l.p) < ad(p) + size)
                    c.violate("A01", "two-owners", strf("a resource made from another hands out memory that is in use: a %zu-byte range and a new %zu-byte range", l.size, size));
            live.push_back({static_cast<unsigned char *>(p), size, 1, !in_buf(p), 0});
        }
        two = true;
    }
    void misuse(const Op &o)
    {
        std::vector<Live> bufl;
        for (auto &l : live)
            if (!l.upstream) bufl.push_back(l);
        const char *what = "";
        uintptr_t victim = 0;
        bool destroy = false;
        switch (o.a[0] % 6)
        {
            case 0:  // double free: a pointer once valid, not live now
            {
                std::vector<uintptr_t> cand;
                for (uintptr_t f : freed)
                {
                    bool is_live = false;
                    for (auto &l : bufl) is_live = is_live || ad(l.p) == f;
                    if (!is_live) cand.push_back(f);
                }
                if (cand.empty()) return;
                victim = cand[size_t(o.a[1]) % cand.size()];
                what = "a double free";
                break;
            }
            case 1:  // middle of an allocation, block aligned
            {
                std::vector<uintptr_t> cand;
                for (auto &l : bufl)
                    for (uintptr_t x = ad(l.p) + a.block; x < ad(l.p) + l.size; x += a.block)
                        if (cand.size() < 512) cand.push_back(x);
                if (cand.empty()) return;
                victim = cand[size_t(o.a[1]) % cand.size()];
                what = "a pointer into the middle of an allocation";
                break;
            }
            case 2:  // not block aligned
                if (a.block == 1) return;
                victim = (bufl.empty() ? ad(data ? data : arena_base() + 65536)
                                       : ad(bufl[size_t(o.a[1]) % bufl.size()].p)) +
                         1 + size_t(o.a[2]) % (a.block - 1);
                what = "a pointer that is not block aligned";
                break;
            case 3:  // a free block never handed out
            {
                auto r = free_runs();
                if (r.empty()) return;
                auto &x = r[size_t(o.a[1]) % r.size()];
                victim = ad(data) + (x.first + size_t(o.a[2]) % (x.second - x.first)) * a.block;
                what = "a block that is not allocated";
                break;
            }
            case 4:  // outside, no upstream
                if (up) return;
                victim = !data ? ad(arena_base()) + (a.block < (size_t{1} << 20) ? a.block * (size_t(o.a[2]) % 3) : 0)
                         : o.a[1] % 2 ? ad(data) - a.block * (1 + size_t(o.a[2]) % 3)
                                    : ad(data) + a.block * (cap + size_t(o.a[2]) % 3);
                what = "a pointer outside the buffer with no upstream";
                break;
            default:
                if (bufl.empty()) return;
                destroy = true;
                what = "destruction while a region is in use";
        }
        count(kMisuse[o.a[0] % 6]);
        c.nontrivial = true;
        const size_t calls0 = g_heap.calls.size();
        int t = guarded([&] {
            if (destroy) a.destroy(obj);
            else res_dealloc(res, reinterpret_cast<void *>(victim));
        });
        usable = false;
        c.ev("misuse", o.a[0] % 6, int64_t(victim ? victim - ad(arena_base()) : 0), t);
        if (g_heap.calls.size() != calls0)
            c.violate("A06", "passed-upstream", strf("%s was passed to the upstream", what));
        if (t != T_ABORT && t != T_ASSERT)
            c.violate("A06", "not-stopped", strf("%s did not stop the process (%s)", what, trap_name(t)));
        c.stop = true;
    }
    void go()
    {
        if (!construct()) return;
        if (c.on("A03"))
        {
            if (a.size(obj) != cap * a.block)
                return c.violate("A03", "capacity", strf("a buffer of %zu bytes holds %zu whole aligned blocks; size() is %zu bytes", bytes, cap, a.size(obj)));
            if (cap && a.data(obj) != data)
                return c.violate("A03", "origin", "the resource does not start at the first aligned block");
        }
        after();
        for (auto &o : plan.ops)
        {
            if (c.stop) return;
            as_thread(o.thr % 6);
            switch (o.kind)
            {
                case ALLOC: alloc(o); break;
                case DEALLOC:
                    if (!live.empty()) dealloc(o.a[0] < 0 ? live.size() - 1 : size_t(o.a[0]) % live.size());
                    break;
                case DEALLOC_NULL:
                {
                    int t = guarded([&] { res_dealloc(res, nullptr); });
                    if (!ok(t, "deallocating null")) return;
                    no_upstream("deallocating null");
                    after();
                    break;
                }
                case RELEASE: release(); break;
                case FREE_ALL: release_all_live(uint64_t(o.a[0])); break;
                case FAIL: g_heap.fail_mask[owner] = uint64_t(o.a[0]); break;
                case RECREATE:
                {
                    if (!release_all_live(1)) return;
                    int t = guarded([&] { a.destroy(obj); });
                    if (!ok(t, "destruction of an idle resource")) return;
                    freed.clear();
                    if (!construct()) return;
                    after();
                    break;
                }
                case MISUSE:
                    misuse(o);
                    if (c.stop) return;
                    break;
                case FILL:
                {
                    Op w = o;
                    w.kind = ALLOC;
                    w.a[0] = S_LITERAL;
                    w.a[3] = w.a[4] = 0;
                    for (int64_t i = 0; i < o.a[0] && i < 1000 && !c.stop && usable; ++i)
                    {
                        const size_t n = live.size();
                        alloc(w);
                        if (o.a[4] && (live.size() == n || live.back().upstream)) break;
                    }
                    if (c.stop || !usable) return;
                    break;
                }
                case CROWD:
                    crowd(o);
                    if (c.stop || !usable) return;
                    break;
                case CHURN:
                    churn(o);
                    if (c.stop || !usable) return;
                    break;
                case TWIN:
                    if (c.on("A01")) twin(o);
                    if (two) return;
                    break;
                case FREE_EVERY:
                    for (size_t i = size_t(o.a[1]); i < live.size() && !c.stop; i += uint64_t(o.a[0] - 1) % 16) dealloc(i);
                    break;
            }
        }
        if (c.stop || !usable) return;
        // end of the history: give everything back, in the order the seed says
        if (plan.seed & 2) release();
        if (c.stop) return;
        if (!release_all_live(plan.seed)) return;
        if (plan.seed & 4)
        {
            Op w;
            w.kind = ALLOC;
            w.a[0] = S_CAPACITY;
            if (cap) alloc(w);
            if (c.stop || !release_all_live(1)) return;
        }
        int t = guarded([&] { a.destroy(obj); });
        if (!ok(t, "destruction of an idle resource")) return;
        usable = false;
        if (n_new_calls()) c.violate("A04", "stray-upstream-call", "destruction called the upstream");
        if (g_heap.live_count(-2)) c.violate("A04", "upstream-leak", strf("%zu upstream blocks were never returned", g_heap.live_count(-2)));
        for (auto &k : g_heap.calls)
            if (k.owner == 9) c.violate("A04", "wrong-upstream", "an upstream that was not the resource's own was called");
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    compare_without_impossible(p, c, r);
    unit_a().set(unit_a().system());
    for (uint64_t i = 0; i < 1; ++i) c.put(g_heap.calls.size());
}
}  // namespace
namespace sim
{
const World g_world = {"block", kNames, kKinds, gen, exec};
}

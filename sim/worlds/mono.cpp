// World: one monotonic resource over a chosen buffer and a faulty upstream.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    ALLOC,
    DEALLOC,
    DEALLOC_NULL,
    RELEASE,
    FAIL,
    RECREATE,
    CHURN,  // a0 times, a1 bytes, a2 log2 align, a3 what: the same over and over
    TWIN,  // a0 how, a1 size, a2 further requests
    kKinds
};
const char *const kNames[] = {"alloc", "dealloc", "dealloc_null", "release", "upstream_failures", "recreate", "churn", "twin"};
enum Cfg
{
    ALIGN,
    SHIFT,
    BYTES,
    CTOR,
    UPSTREAM,
    GARBAGE,
    REUSE,
    NULLBUF,
    NEAR,  // which sides of the buffer the heap may use
    LIMIT,  // log2 of the largest upstream block
    kCfg
};
enum SizeMode
{
    S_LITERAL,
    S_REST,  // what is left at this alignment, + a4 bytes
    S_WHOLE, // the whole buffer, + a4 bytes
    S_HUGE,
    S_WRAP,
    S_POWER,  // 2^a4 + value
    kSizeModes
};

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    p.cfg.assign(kCfg, 0);
    p.cfg[ALIGN] = r.chance(1, 8) ? r.range(20, 34) : r.range(0, 8);
    p.cfg[SHIFT] = r.chance(1, 2) ? r.range(0, 40) : 0;
    p.cfg[BYTES] = r.chance(1, 6) ? r.range(0, 8) : r.chance(1, 3) ? r.range(9, 2048) : r.range(9, 200);
    if (r.chance(1, 8)) p.cfg[BYTES] = (int64_t{1} << r.range(15, 17)) + r.range(-64, 64);
    if (r.chance(1, 10))
    {
        p.cfg[BYTES] = r.chance(1, 2) ? (int64_t{1} << r.range(31, 33)) + r.range(-64, 64) : r.range(int64_t{1} << 31, int64_t{9} << 30);
        if (p.cfg[ALIGN] > 33) p.cfg[ALIGN] = 33;
    }
    p.cfg[CTOR] = int64_t(r.below(kCtorKinds));
    if (p.cfg[CTOR] >= ARRAY_UP) p.cfg[BYTES] = int64_t(r.pick(kArraySizes));
    if (r.chance(1, 10) && p.cfg[BYTES] > 0)  // on both sides of a large power of two
    {
        const int64_t most = std::min<int64_t>(p.cfg[BYTES], int64_t{1} << 30);
        int64_t before = r.chance(1, 3) ? most : r.range(1, most);
        if (r.chance(1, 2) && before > 8) before -= before % 8;
        p.cfg[ALIGN] = r.range(31, 33);
        p.cfg[SHIFT] = -before;
    }
    static const int ups[] = {0, 1, 1, 1, 2, 3};
    p.cfg[UPSTREAM] = r.pick(ups);
    p.cfg[GARBAGE] = int64_t(r.below(1000));
    p.cfg[REUSE] = r.chance(1, 3);
    p.cfg[NULLBUF] = r.chance(1, 30);
    if (r.chance(1, 3)) p.cfg[NEAR] = r.range(1, 3);
    p.cfg[LIMIT] = r.chance(1, 8) ? r.range(17, 34) : 16;
    int n = int(r.range(3, 40));
    const bool twin = prop == "B01" && r.chance(1, 60);
    if (twin) n = n / 3 + 1;
    for (int i = 0; i < n; ++i)
    {
        Op o;
        switch (r.below(16))
        {
            default:
                o.kind = ALLOC;
                switch (r.below(prop == "A07" ? 11 : 9))
                {
                    default:
                        o.a[0] = S_LITERAL;
                        o.a[1] = r.chance(1, 5) ? r.range(0, p.cfg[BYTES] + 8) : r.range(0, 40);
                        break;
                    case 5:
                        o.a[0] = S_REST;
                        o.a[4] = r.chance(1, 2) ? r.range(-1, 1) : r.range(-100, 1);
                        break;
                    case 8: case 9:
                        o.a[0] = S_POWER;
                        o.a[4] = r.chance(1, 2) ? r.range(15, 17) : r.chance(1, 2) ? r.range(31, 33) : r.range(0, 63);
                        o.a[1] = r.chance(1, 2) ? r.range(-2, 2) : r.range(0, 300);
                        break;
                    case 6:
                        o.a[0] = S_WHOLE;
                        o.a[4] = r.range(-1, 1);
                        break;
                    case 7:
                        o.a[0] = S_HUGE;
                        o.a[1] = r.range(0, 300);
                        break;
                    case 10:
                        o.a[0] = S_WRAP;
                        o.a[1] = r.range(-300, 300);
                        break;
                }
                o.a[2] = r.chance(1, 10) ? r.range(0, 63) : r.chance(1, 6) ? p.cfg[ALIGN] + r.range(0, 1) : r.range(0, 6);
                if (r.chance(1, 10)) o.a[3] = 1;
                if (r.chance(1, 10))
                {
                    o.a[3] = 2;
                    o.a[1] = int64_t(r.below(kTypes));
                }
                break;
            case 0: case 1: case 2:
                o.kind = DEALLOC;
                o.a[0] = r.chance(1, 3) ? -1 : int64_t(r.below(64));
                break;
            case 3: o.kind = r.chance(1, 4) ? DEALLOC_NULL : DEALLOC; o.a[0] = int64_t(r.below(64)); break;
            case 4: o.kind = r.chance(1, 2) ? RELEASE : ALLOC; o.a[1] = 8; break;
            case 5:
                o.kind = FAIL;
                o.a[0] = int64_t(r.next() & r.next() & 0xff);
                break;
            case 6:
                if (r.chance(1, 6)) o.kind = RECREATE;
                else { o.kind = ALLOC; o.a[1] = 1; o.a[2] = r.range(0, 4); }
                break;
        }
        p.ops.push_back(o);
    }
    if (r.chance(1, 200))
    {
        Op o;
        o.kind = CHURN;
        o.a[0] = many_times(r);
        o.a[1] = r.chance(1, 2) ? 1 : r.range(1, 12);
        o.a[2] = r.range(0, 4);
        o.a[3] = int64_t(r.below(4));
        p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), o);
    }
    if (twin)
    {
        Op o;
        o.kind = TWIN;
        o.a[0] = int64_t(r.below(5));
        o.a[1] = r.range(0, 40);
        o.a[2] = r.range(0, 5);
        p.ops.push_back(o);
    }
    hand_over(p, r);
    return p;
}

struct Run
{
    const Plan &plan;
    Ctx &c;
    unsigned char *obj;
    unsigned char *buf = nullptr;
    size_t bytes = 0, cursor = 0;
    int ctor, up_kind, owner = 0;
    Res *up = nullptr, *res = nullptr, *decoy = nullptr;
    std::vector<Live> live;  // since the last release, plus upstream blocks
    std::vector<bool> given_back;
    uint64_t key = 1;
    size_t calls_seen = 0;

    bool two = false, saw_impossible = false, skip_impossible = false;
    std::vector<uint64_t> answers;

    Run(const Plan &p, Ctx &x) : plan(p), c(x)
    {
        obj = arena_base() + kObjOff;
        ctor = int(p.cfg[CTOR]) % kCtorKinds;
        bytes = size_t(p.cfg[BYTES] < 0 ? 0 : p.cfg[BYTES]);
        if (ctor >= ARRAY_UP)
        {
            bool ok = false;
            for (size_t s : kArraySizes) ok = ok || s == bytes;
            if (!ok) bytes = 64;
        }
        if (!(p.cfg[NULLBUF] && ctor < ARRAY_UP))
        {
            buf = aligned_spot(int(p.cfg[ALIGN])) + p.cfg[SHIFT];
            put_guards(buf, bytes);
            put_spots(buf, bytes, p.cfg[NEAR]);
            fill_garbage(buf, bytes < 65536 ? bytes : 65536, 7);
        }
        up_kind = int(p.cfg[UPSTREAM]) % 4;
        if (up_kind == 1)
        {
            owner = 1;
            up = sim_resource_make(up_res_mem(1), 1);
        }
        else if (up_kind == 2)
            up = unit_a().null();
        else if (up_kind == 3)
        {
            owner = -1;
            up = unit_a().system();
        }
        decoy = sim_resource_make(up_res_mem(9), 9);
        g_heap.reuse = p.cfg[REUSE];
        g_heap.limit = size_t{1} << (uint64_t(p.cfg[LIMIT]) % 36);
    }
    ~Run()
    {
        if (buf && bytes > 65536) arena_forget(buf - 4096, bytes + 8192);
    }
    size_t room() const { return buf ? bytes : 0; }
    bool in_buf(const void *p) const { return buf && ad(p) >= ad(buf) && ad(p) < ad(buf) + bytes; }
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        c.violate_any("died", strf("%s ended in %s (%s) although it is correct use", what, trap_name(trap), g_trap_msg));
        return false;
    }
    size_t n_new_calls() const { return g_heap.calls.size() - calls_seen; }
    bool construct()
    {
        fill_garbage(obj, kMono.obj_size, uint64_t(plan.cfg[GARBAGE]));
        const bool dflt = ctor == PTR_DEFAULT || ctor == ARRAY_DEFAULT;
        if (dflt && !up)
        {
            up = unit_a().null();
            up_kind = 2;
        }
        unit_a().set(dflt ? up : decoy);
        int t = guarded([&] { res = kMono.construct(obj, buf, bytes, ctor, up); });
        unit_a().set(decoy);
        cursor = 0;
        return ok(t, "construction");
    }
    void after()
    {
        if (c.stop) return;
        calls_seen = g_heap.calls.size();
        c.put(cursor);
        c.at_state(mix(cursor, mix(live.size(), mix(bytes, uint64_t(plan.cfg[ALIGN])))));
        if (!c.on("B01")) return;
        if (buf && !guards_intact(buf, bytes, plan.cfg[NEAR])) return c.violate("B01", "outside-write", "bytes next to the caller's buffer were overwritten");
        std::string why;
        if (!g_heap.guards_ok(&why)) return c.violate("B01", "outside-write", why);
        for (auto &l : live)
            if (!intact(l)) return c.violate("B01", "corrupted", strf("bytes of a live %zu-byte range changed", l.size));
    }
    // offset at which the next request must be served, or SIZE_MAX
    size_t expect(size_t size, size_t align) const
    {
        if (!room() || !size) return SIZE_MAX;
        uintptr_t s = ad(buf) + cursor, e = ad(buf) + bytes;
        uintptr_t at = align_up(s, align);
        if (at < s || at > e || size > e - at) return SIZE_MAX;
        return at - ad(buf);
    }
    void alloc(const Op &o)
    {
        size_t size = 0, align = size_t{1} << (uint64_t(o.a[2]) & 63);
        int api = int(o.a[3]) % 3, ty = 0;
        if (api == 1) align = alignof(std::max_align_t);
        switch (o.a[0] % kSizeModes)
        {
            case S_LITERAL: size = size_t(o.a[1]); break;
            case S_REST:
            {
                size_t at = expect(1, align);
                size = (at == SIZE_MAX ? 1 : bytes - at) + size_t(o.a[4]);
                break;
            }
            case S_WHOLE: size = bytes + size_t(o.a[4]); break;
            case S_POWER: size = (size_t{1} << (uint64_t(o.a[4]) % 64)) + size_t(o.a[1]); break;
            case S_HUGE: size = SIZE_MAX - size_t(o.a[1]); break;
            default: size = size_t(0) - (ad(buf) + cursor) + size_t(o.a[1]); break;
        }
        if (api == 2)
        {
            ty = int(uint64_t(o.a[1]) % kTypes);
            size = kTypeSize[ty];
            align = kTypeAlign[ty];
        }
        const bool huge = size > kImpossible;
        if (huge) count("probe:huge-request");
        if (huge || !size)
        {
            saw_impossible = true;
            if (skip_impossible) return;
        }
        const size_t want = expect(size, align);
        void *vp = nullptr;
        int t = guarded([&] {
            vp = api == 0 ? res_alloc(res, size, align) : api == 1 ? res_alloc_default(res, size) : res_alloc_type(res, ty);
        });
        if (!ok(t, strf("allocate(%zu, %zu)", size, align).c_str())) return;
        unsigned char *p = static_cast<unsigned char *>(vp);
        std::vector<Call> calls(g_heap.calls.begin() + long(calls_seen), g_heap.calls.end());
        const bool from_buf = p && in_buf(p);
        c.ev("alloc", int64_t(size), int64_t(align), p ? (from_buf ? int64_t(ad(p) - ad(buf)) : -1) : -2, int64_t(calls.size()));
        count(p ? (from_buf ? "result:buffer" : "result:upstream") : "result:null");
        if (!huge && size) answers.push_back(p ? (from_buf ? ad(p) - ad(buf) : SIZE_MAX - 1) : SIZE_MAX);
        if (!size)
        {
            if (p || !calls.empty())
            {
                c.violate("A07", "zero-size", strf("a zero-byte request returned %s and made %zu upstream calls", p ? "memory" : "null", calls.size()));
                c.diverge("zero-size request answered");
                return;
            }
            return after();
        }
        if (p && (ad(p) & (align - 1)) && c.on("B01"))
            return c.violate("B01", "misaligned", strf("asked for alignment %zu, got an address ending in %#zx", align, size_t(ad(p) & (2 * align - 1))));
        if (from_buf)
        {
            if (c.on("B02"))
            {
                if (want != ad(p) - ad(buf))
                    return c.violate("B02", want == SIZE_MAX ? "served-wrongly" : "packing",
                                     strf("%zu bytes aligned to %zu were served at offset %zu, expected offset %zd", size, align,
                                          size_t(ad(p) - ad(buf)), ssize_t(want)));
                if (!calls.empty()) return c.violate("B02", "stray-upstream-call", "a request served from the buffer reached the upstream");
            }
            size_t space = ad(buf) + bytes - ad(p);
            if (size > space)
            {
                c.violate("A07", "too-little", strf("a request for %zu bytes got a pointer to %zu bytes", size, space));
                c.violate("B01", "past-the-end", strf("%zu bytes were handed out %zu bytes before the end of the buffer", size, space));
                c.diverge("past the end");
                return;
            }
            for (auto &l : live)
                if (!l.upstream && ad(p) < ad(l.p) + l.size && ad(l.p) < ad(p) + size)
                {
                    c.violate("B01", "overlap", strf("a new %zu-byte range overlaps a %zu-byte range handed out before", size, l.size));
                    c.diverge("overlap");
                    return;
                }
            cursor = ad(p) - ad(buf) + size;
            Live l{p, size, align, false, key += 2};
            store(l);
            live.push_back(l);
        }
        else
        {
            if (want != SIZE_MAX)
            {
                c.note("B02", "not-served", strf("%zu bytes aligned to %zu fit at offset %zu of the buffer but were not served from it", size, align, want));
                if (c.stop) return;
            }
            const bool sim_up = up_kind == 1 || up_kind == 3;
            const char *P = huge && c.on("A07") ? "A07" : "B02";
            if (c.on(P))
            {
                if (sim_up)
                {
                    if (calls.size() != 1 || !calls[0].alloc || calls[0].owner != owner)
                        return c.violate(P, "upstream-calls", strf("a request the buffer cannot serve made %zu upstream call(s)", calls.size()));
                    // the system resource in front of the system allocator may round up
                    const bool asked = up_kind == 1 ? calls[0].size == size && calls[0].align == align
                                                    : calls[0].size >= size && calls[0].align >= align;
                    if (!asked)
                        return c.violate(P, "upstream-request", strf("asked the upstream for %zu bytes aligned to %zu instead of %zu and %zu", calls[0].size,
                                                                     calls[0].align, size, align));
                    if (calls[0].p != p) return c.violate(P, "upstream-answer", "the upstream's answer was not returned unchanged");
                }
                else if (p || !calls.empty())
                    return c.violate(P, "no-upstream", "without an upstream the answer must be null");
            }
            if (p)
            {
                auto it = g_heap.blocks.find(ad(p));
                if (it == g_heap.blocks.end() || !it->second.live || it->second.size < size)
                {
                    c.violate("A07", "too-little", strf("a request for %zu bytes got memory nobody provided for it", size));
                    c.violate("B01", "foreign", "the returned memory is neither in the buffer nor a block of the upstream");
                    return c.diverge("foreign pointer");
                }
                Live l{p, size, align, true, key += 2};
                store(l);
                live.push_back(l);
            }
        }
        if (c.stop) return;
        c.nontrivial = true;
        after();
    }
    void dealloc(size_t i)
    {
        Live l = live[i];
        int t = guarded([&] { res_dealloc(res, l.p); });
        if (!ok(t, l.upstream ? "deallocating an upstream block" : "deallocating a buffer block")) return;
        c.ev("dealloc", l.upstream, int64_t(l.size), int64_t(n_new_calls()));
        if (l.upstream)
        {
            live.erase(live.begin() + long(i));
            const auto &cs = g_heap.calls;
            bool good = n_new_calls() == 1 && !cs.back().alloc && cs.back().owner == owner && cs.back().p == l.p && !cs.back().bad;
            if (!good)
                c.note("B02", "upstream-return", strf("an upstream block was not returned to the upstream exactly once (%zu calls)", n_new_calls()));
        }
        else if (n_new_calls())
            c.note("B02", "buffer-pointer-upstream", "a deallocation of buffer memory reached the upstream");
        after();
    }
    void release()
    {
        int t = guarded([&] { kMono.release(obj); });
        if (!ok(t, "release")) return;
        std::vector<Live> keep;
        for (auto &l : live)
            if (l.upstream) keep.push_back(l);
        live.swap(keep);
        cursor = 0;
        c.ev("release", int64_t(live.size()), int64_t(n_new_calls()));
        if (n_new_calls()) c.note("B02", "release-upstream", "release called the upstream");
        after();
    }
    // Many releases with nothing in between, then a request.
    void releases(int64_t n, size_t size, size_t align)
    {
        std::vector<int64_t> counts{n};
        if (n < 1000) counts = {126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512};
        for (int64_t k : counts)
        {
            std::vector<Live> keep;
            for (auto &l : live)
                if (l.upstream) keep.push_back(l);
            live.swap(keep);
            void *p = nullptr;
            int t = guarded([&] {
                p = res_alloc(res, size, align);
                if (p && !in_buf(p)) res_dealloc(res, p);
                for (int64_t i = 0; i < k; ++i) kMono.release(obj);
                p = res_alloc(res, size, align);
            });
            if (!ok(t, "release over and over")) return;
            cursor = 0;
            const size_t want = expect(size, align);
            if (want == SIZE_MAX ? p && in_buf(p) : !p || !in_buf(p) || ad(p) - ad(buf) != want)
            {
                c.note("B02", "packing", strf("after %lld releases %zu bytes were not served as from an unused buffer", (long long)k, size));
                return c.diverge("not where it should be");
            }
            if (want != SIZE_MAX) cursor = want + size;
            else if (p)
                ok(guarded([&] { res_dealloc(res, p); }), "deallocation");
            if (c.stop) return;
        }
        ok(guarded([&] { kMono.release(obj); }), "release");
        cursor = 0;
        if (!c.stop) after();
    }
    void churn(const Op &o)
    {
        const size_t size = size_t(o.a[1] < 1 ? 1 : o.a[1]), align = size_t{1} << (uint64_t(o.a[2]) % 40);
        const int what = int(uint64_t(o.a[3]) % 4);
        const int64_t n = std::min<int64_t>(o.a[0], what == 2 ? 1000 : 70000);
        c.ev("churn", n, what, int64_t(size), int64_t(align));
        count("op:repeated", uint64_t(n));
        c.nontrivial = true;
        if (what == 3) return releases(n, size, align);
        for (int64_t i = 0; i < n && !c.stop; ++i)
        {
            if (what == 0)  // as many ranges as there is room for
            {
                const size_t want = expect(size, align);
                if (want == SIZE_MAX) break;
                Op w;
                w.a[0] = S_LITERAL;
                w.a[1] = o.a[1] < 1 ? 1 : o.a[1];
                w.a[2] = int64_t(uint64_t(o.a[2]) % 40);
                if (live.size() < 600) alloc(w);
                else
                {
                    void *p = nullptr;
                    int t = guarded([&] { p = res_alloc(res, size, align); });
                    if (!ok(t, "allocation")) return;
                    if (!in_buf(p) || ad(p) - ad(buf) != want) c.note("B02", "packing", strf("range %lld was served elsewhere than at offset %zu", (long long)i, want));
                    if (in_buf(p)) cursor = ad(p) - ad(buf) + size;
                    if (in_buf(p) && (size > ad(buf) + bytes - ad(p))) c.note("B01", "past-the-end", strf("range %lld ends behind the buffer", (long long)i));
                    if (in_buf(p) && want != SIZE_MAX && ad(p) - ad(buf) < want) c.note("B01", "overlap", strf("range %lld overlaps the one before", (long long)i));
                }
                continue;
            }
            void *p = nullptr;
            int t = guarded(
                [&]
                {
                    if (what == 1) kMono.release(obj), p = res_alloc(res, size, align);
                    else res_dealloc(res, nullptr);
                });
            if (!ok(t, "the same over and over")) return;
            if (what == 1)
            {
                if (i == 0)
                {
                    std::vector<Live> keep;
                    for (auto &l : live)
                        if (l.upstream) keep.push_back(l);
                    live.swap(keep);
                }
                cursor = 0;
                const size_t want = expect(size, align);
                if (want == SIZE_MAX)
                {
                    if (in_buf(p)) c.note("B02", "served-wrongly", "served from the buffer although it does not fit");
                    if (p) ok(guarded([&] { res_dealloc(res, p); }), "deallocation");
                    if (i > 300) break;
                }
                else if (!in_buf(p) || ad(p) - ad(buf) != want)
                {
                    c.note("B02", "packing", strf("after %lld releases %zu bytes were not served at offset %zu", (long long)i + 1, size, want));
                    return c.diverge("not where it should be");
                }
                else cursor = want + size;
            }
        }
        if (!c.stop) after();
    }
    // A resource made from this one, where the library lets one be made: what
    // either hands out from now on must still be nobody else's.
    void twin(const Op &o)
    {
        unsigned char *mem = obj + align_up(kMono.obj_size, 4096) + 4096;
        Res *other = nullptr;
        int t = guarded([&] { other = kMono.twin(mem, obj, int(uint64_t(o.a[0]) % 5)); });
        if (t == T_NONE && !other) return;
        if (!ok(t, "making a resource from another")) return;
        c.ev("twin", o.a[0], int64_t(live.size()));
        count("op:twin");
        c.nontrivial = true;
        size_t n = 0;
        for (int64_t i = 0; i < 2 + o.a[2] && !c.stop; ++i)
        {
            const size_t size = 1 + size_t(o.a[1]) % 64;
            void *p = nullptr;
            int t2 = guarded([&] { p = res_alloc((i ^ o.a[2]) & 1 ? res : other, size, 1); });
            if (!ok(t2, "allocating from one of two resources")) return;
            if (!p) continue;
            ++n;
            for (auto &l : live)
                if (ad(p) < ad(l.p) + l.size && ad(l.p) < ad(p) + size)
                    c.violate("B01", "two-owners", strf("a resource made from another hands out memory that is in use: a %zu-byte range and a new %zu-byte range", l.size, size));
            live.push_back({static_cast<unsigned char *>(p), size, 1, !in_buf(p), 0});
        }
        two = true;
    }
    bool free_upstream()
    {
        for (size_t i = live.size(); i-- > 0 && !c.stop;)
            if (live[i].upstream) dealloc(i);
        return !c.stop;
    }
    void go()
    {
        if (!construct()) return;
        if (c.on("B02"))
        {
            if (kMono.size(obj) != room()) return c.violate("B02", "size", strf("size() is %zu for a buffer of %zu bytes", kMono.size(obj), room()));
            if (room() && kMono.data(obj) != buf) return c.violate("B02", "data", "data() is not the buffer");
        }
        after();
        for (auto &o : plan.ops)
        {
            if (c.stop) return;
            as_thread(o.thr % 6);
            switch (o.kind)
            {
                case ALLOC: alloc(o); break;
                case DEALLOC:
                    if (!live.empty()) dealloc(o.a[0] < 0 ? live.size() - 1 : size_t(o.a[0]) % live.size());
                    break;
                case DEALLOC_NULL:
                {
                    int t = guarded([&] { res_dealloc(res, nullptr); });
                    if (!ok(t, "deallocating null")) return;
                    if (n_new_calls()) c.violate("B02", "null-upstream", "deallocating null called the upstream");
                    after();
                    break;
                }
                case RELEASE: release(); break;
                case FAIL: g_heap.fail_mask[owner] = uint64_t(o.a[0]); break;
                case CHURN: churn(o); break;
                case TWIN:
                    if (c.on("B01")) twin(o);
                    if (two) return;
                    break;
                case RECREATE:
                {
                    if (!free_upstream()) return;
                    int t = guarded([&] { kMono.destroy(obj); });
                    if (!ok(t, "destruction")) return;
                    live.clear();
                    if (!construct()) return;
                    after();
                    break;
                }
            }
        }
        if (c.stop) return;
        if (!free_upstream()) return;
        if (plan.seed & 1)
        {
            release();
            Op w;
            w.kind = ALLOC;
            w.a[0] = S_WHOLE;
            if (room() && !c.stop) alloc(w);
            if (c.stop || !free_upstream()) return;
        }
        int t = guarded([&] { kMono.destroy(obj); });
        if (!ok(t, "destruction")) return;
        if (n_new_calls()) c.violate("B02", "stray-upstream-call", "destruction called the upstream");
        if (g_heap.live_count(-2)) c.violate("B02", "upstream-leak", strf("%zu upstream blocks were never returned", g_heap.live_count(-2)));
        for (auto &k : g_heap.calls)
            if (k.owner == 9) c.violate("B02", "wrong-upstream", "an upstream that was not the resource's own was called");
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    compare_without_impossible(p, c, r);
    unit_a().set(unit_a().system());
    c.put(g_heap.calls.size());
}
}  // namespace
namespace sim
{
const World g_world = {"mono", kNames, kKinds, gen, exec};
}

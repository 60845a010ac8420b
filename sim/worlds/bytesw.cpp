// World: bytes are copied, moved, compared and wiped by threads side by side,
// up to the edges of mapped memory and out of memory that is read-only.
#include <sys/mman.h>

#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    MOVE,  // a0 to, a1 from, a2 bytes, a3 from the common memory?
    COPY,  // the same for ranges that do not overlap; a4 form
    SAME,  // a1 from, a2 bytes, a3 common?, a4 value
    EVEN,  // a0 where, a2 bytes, a4 value; a3: one byte of it differs (position + 1)
    FILL,  // a0 where, a2 bytes, a4 key
    WIPE,  // a0 where, a2 bytes
    FAR,  // a0 move, copy or same, a1 bytes after 4 GB (or 2 GB), a2 those of them that end the memory, a3 another byte there, a4 value or form
    kKinds
};
const char *const kNames[] = {"move", "copy", "same", "even", "fill", "wipe", "far"};
enum Cfg
{
    THREADS,
    DEN,
    PCT,
    ROOM,  // bytes of each thread, side by side
    EDGE,  // 0 the first byte is the first of the mapping, 1 the last is its last, else in between
    kCfg
};
constexpr int kMaxThreads = 3;
constexpr size_t kPage = 4096, kPages = 4, kCommon = 2 * kPage;
constexpr unsigned char kEven = 0x5A;
constexpr size_t kMaxRoom = kPages * kPage / kMaxThreads;

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    if (r.chance(1, 100000))
    {
        p.cfg = {1, 2, 0, 8, 0};
        p.ops.push_back({0, FAR, {int64_t(r.below(3)) + (r.chance(1, 4) ? 4 : 0), r.range(0, 300), r.range(1, 300), r.chance(1, 2) ? r.range(1, 300) : 0, r.chance(1, 2) ? 0 : r.range(0, 255)}});
        return p;
    }
    const int nt = int(r.range(1, kMaxThreads));
    static const int dens[] = {2, 3, 6, 20};
    const int64_t room = r.chance(1, 2) ? r.range(1, 24) : r.chance(9, 10) ? r.range(8, 300) : r.range(200, int64_t(kMaxRoom));
    p.cfg = {nt, r.pick(dens), r.chance(1, 4), room, r.chance(1, 4) ? r.range(2, 4000) : r.chance(1, 4) ? std::max<int64_t>(2, int64_t(kPages / 2 * kPage) - r.range(0, room * nt)) : r.range(0, 1)};
    for (int t = 0; t < nt; ++t)
    {
        const int n = int(r.range(2, 8));
        for (int i = 0; i < n; ++i)
        {
            // both ends of the range are drawn towards the ends of the memory
            const auto where = [&](int64_t len, int64_t all) { return r.chance(1, 3) ? (r.chance(1, 2) ? 0 : all - len) : r.range(0, all - len); };
            const int64_t len = r.chance(1, 12) ? 0 : r.chance(1, 5) ? room : r.range(1, room);
            const int64_t to = where(len, room), common = r.chance(1, 3);
            const int64_t from = common ? where(len, int64_t(kCommon)) : r.chance(1, 3) ? std::max<int64_t>(0, std::min(room - len, to + r.range(-9, 9))) : where(len, room);
            const int64_t v = r.chance(1, 4) ? r.range(0, 255) : r.chance(1, 2) ? 0 : kEven;
            switch (r.below(7))
            {
                case 0:
                case 1: p.ops.push_back({t, MOVE, {to, from, len, common, 0}}); break;
                case 2:
                case 3: p.ops.push_back({t, COPY, {to, from, len, common, int64_t(r.below(uint64_t(kBytes.copies)))}}); break;
                case 4:
                case 5:
                    if (!common)
                        p.ops.push_back({t, EVEN, {from, 0, len, r.chance(1, 2) && len ? 1 + (r.chance(1, 2) ? (r.chance(1, 2) ? 0 : len - 1) : r.range(0, len - 1)) : 0, v}});
                    p.ops.push_back({t, SAME, {0, from, len, common, r.chance(1, 10) ? r.range(0, 255) : v}});
                    break;
                default:
                    if (r.chance(1, 2)) p.ops.push_back({t, FILL, {to, 0, len, 0, int64_t(r.below(1000))}});
                    else p.ops.push_back({t, WIPE, {to, 0, len, 0, 0}});
            }
        }
    }
    return p;
}

// the threads' pages lie on both sides of a multiple of 4 GB
unsigned char *mine_begin() { return arena_base() + (size_t{6} << 32) - kPages / 2 * kPage; }
unsigned char *common_begin() { return mine_begin() + (kPages + 1) * kPage; }
// nothing | threads' pages | nothing | common pages, read-only | nothing
void map_once()
{
    static bool done = false;
    if (done) return;
    done = true;
    unsigned char *const b = mine_begin() - kPage, *const c = common_begin();
    fill_pattern(c, kPage, 4711);
    memset(c + kPage, kEven, kPage);
    mprotect(b, kPage, PROT_NONE);
    mprotect(c - kPage, kPage, PROT_NONE);
    mprotect(c, kCommon, PROT_READ);
    mprotect(c + kCommon, kPage, PROT_NONE);
}

struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt;
    size_t room, skew;
    unsigned char *base;
    std::vector<unsigned char> model;  // what all the pages must hold
    bool gone = false;

    Run(const Plan &p, Ctx &x)
        : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), kMaxThreads))),
          room(size_t(std::min<int64_t>(std::max<int64_t>(p.cfg[ROOM], 1), int64_t(kMaxRoom))))
    {
        const size_t slack = kPages * kPage - room * size_t(nt);
        const int64_t e = std::max<int64_t>(p.cfg[EDGE], 0);
        skew = e == 0 ? 0 : e == 1 ? slack : std::min(size_t(e), slack);
        base = mine_begin() + skew;
        model.resize(kPages * kPage);
        fill_pattern(model.data(), model.size(), p.seed + 1);
        memcpy(mine_begin(), model.data(), model.size());
    }
    size_t cut(int64_t v, size_t all) const { return std::min(size_t(std::max<int64_t>(v, 0)), all); }
    bool as_modelled(size_t from, size_t n, const char *when)
    {
        if (!memcmp(mine_begin() + from, model.data() + from, n)) return true;
        for (size_t i = from; i < from + n; ++i)
            if (mine_begin()[i] != model[i])
            {
                c.violate("I02", "bytes", strf("%s: byte %lld is 0x%02x and not 0x%02x", when, (long long)(i) - (long long)(skew), mine_begin()[i], model[i]));
                return false;
            }
        return true;
    }
    void step(const Op &o, int t)
    {
        const size_t at = skew + size_t(t) * room;  // of this thread's memory
        const size_t n0 = cut(o.a[2], room), to = cut(o.a[0], room - n0);
        const bool common = o.a[3] && o.kind != EVEN;
        const size_t from = cut(o.a[1], (common ? kCommon : room) - n0);
        unsigned char *const d = mine_begin() + at + to;
        const unsigned char *const s = common ? common_begin() + from : mine_begin() + at + from;
        size_t n = n0;
        const char *what = kNames[o.kind];
        if (o.kind == FILL || o.kind == EVEN)
        {
            for (size_t i = 0; i < n; ++i)
                d[i] = model[at + to + i] = uint8_t(o.kind == FILL ? (i * 29 + uint64_t(o.a[4])) % 251 : uint64_t(o.a[4]));
            if (o.kind == EVEN && o.a[3] > 0 && size_t(o.a[3]) <= n) d[o.a[3] - 1] = model[at + to + size_t(o.a[3]) - 1] = uint8_t(o.a[4] + 1 + int64_t(to % 7));
            return;
        }
        if (o.kind == COPY && !common)
        {
            // shortened until the two are disjoint
            const size_t apart = to > from ? to - from : from - to;
            n = std::min(n, apart);
            if (!apart) return;
        }
        std::vector<unsigned char> want(s, s + n);
        void *got = d;
        bool same = false, expect = n > 0;
        const int form = int(uint64_t(o.a[4]) % uint64_t(kBytes.copies));
        for (size_t i = 0; i < n; ++i) expect = expect && want[i] == uint8_t(o.a[4]);
        const bool null = o.kind == SAME && !n && (from & 1);
        const int trap = guarded(
            [&]
            {
                switch (o.kind)
                {
                    case MOVE: got = kBytes.move(d, s, n); break;
                    case COPY: kBytes.copy(form, d, s, n); break;
                    case SAME: same = kBytes.same(null ? nullptr : s, uint8_t(o.a[4]), null ? 5 : n); break;
                    default: kBytes.wipe(d, n);
                }
            },
            3000000);
        if (gone || c.stop) return;
        c.ev(what, int64_t(n), int64_t(to), int64_t(from), trap * 4 + same);
        c.nontrivial = true;
        c.at_state(mix(uint64_t(o.kind) * 16 + uint64_t(common) * 8 + uint64_t(expect), mix(std::min<size_t>(n, 64), mix(to & 7, from & 7))));
        if (common) count("fault:source-read-only");
        const bool edge = d + n == mine_begin() + kPages * kPage || d == mine_begin() || (o.kind != WIPE && (s + n == common_begin() + kCommon || s == common_begin()));
        if (edge) count("fault:unmapped-memory-next-to-range");
        if (trap != T_NONE)
        {
            gone = true;
            return c.violate("I02", trap == T_SEGV ? "fault" : "trap", strf("%s of %zu bytes ended in %s%s", what, n, trap_name(trap), edge ? " at the edge of the memory" : common ? " (read-only source)" : ""));
        }
        switch (o.kind)
        {
            case MOVE:
                if (got != d) return c.violate("I02", "result", "memmove did not return its destination");
                [[fallthrough]];
            case COPY: std::copy(want.begin(), want.end(), model.begin() + long(at + to)); break;
            case SAME:
                if (same != expect)
                    return c.violate("I02", "answer", strf("memvcmp of %zu bytes with %d answered %d", null ? 0 : n, int(uint8_t(o.a[4])), int(same)));
                break;
            default: memset(model.data() + at + to, 0, n);
        }
        as_modelled(at, room, what);
    }
    // Ranges of more than 4 GB (or 2 GB).
    void far(const Op &o)
    {
        const Far &x = far_memory(0), &y = far_memory(1);
        if (!x.p || !y.p) return;
        const int what = int(o.a[0] & 3) % 3;
        const size_t n = (size_t{1} << (o.a[0] & 4 ? 31 : 32)) + size_t(o.a[1] & 1023), ends = 1 + (size_t(o.a[2]) & 1023);
        const size_t extra = size_t(o.a[1] & 1023), tail = (o.a[0] & 4) ? ends : std::max(ends, extra), room = 4096;
        const size_t from = Far::kAll + tail - n;
        const uint8_t v = uint8_t(o.a[4]);
        unsigned char *const s = x.p + from, *const d = y.p + from;
        std::vector<unsigned char> want(room);
        bool same = false, expect = true;
        void *got = d;
        if (what == 2)
        {
            memset(x.p, v, Far::kOwn);
            memset(x.own(), v, tail);
            if (o.a[3] > 0)
            {
                x.own()[size_t(o.a[3]) % tail] = uint8_t(v + 1);
                expect = false;
            }
        }
        else
        {
            fill_pattern(x.own(), room, uint64_t(o.a[3]) + 5);
            fill_pattern(y.own(), room, uint64_t(o.a[3]) + 6);
            memcpy(want.data(), y.own(), room);
            memcpy(want.data(), x.own(), tail);
        }
        const int form = int(uint64_t(o.a[4]) % uint64_t(kBytes.copies));
        const int trap = guarded(
            [&]
            {
                if (what == 2) same = kBytes.same(s, v, n);
                else if (what == 1) kBytes.copy(form, d, s, n);
                else got = kBytes.move(d, s, n);
            },
            3000000);
        c.ev("far", what, int64_t(n), int64_t(tail), trap * 4 + same);
        c.nontrivial = true;
        if (trap == T_HANG)  // byte by byte: too far to walk
            return count("probe:far-range-unfinished");
        count("probe:far-range");
        if (trap != T_NONE) return c.violate("I02", "trap", strf("%s of %zu bytes ended in %s", kNames[what == 2 ? SAME : what], n, trap_name(trap)));
        if (what == 2 && same != expect)
            return c.violate("I02", "answer", strf("memvcmp of %zu bytes%s answered %d", n, expect ? "" : ", one of the last of which is different,", int(same)));
        if (got != d) return c.violate("I02", "result", "memmove did not return its destination");
        if (what != 2 && memcmp(want.data(), y.own(), room)) c.violate("I02", "bytes", strf("%s of %zu bytes: the last bytes are not right", kNames[what], n));
    }
    void body(int t)
    {
        for (auto &o : plan.ops)
        {
            if (c.stop || gone) return;
            if (o.kind != FAR && int(unsigned(o.thr) % unsigned(nt)) == t) step(o, t);
        }
    }
    void go()
    {
        for (auto &o : plan.ops)
            if (o.kind == FAR && !c.stop) far(o);
        if (c.stop) return;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t) bodies.push_back([this, t] { body(t); });
        ThreadOpts to;
        to.races = true;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        if (!c.stop && !gone && deadlocked()) return c.violate("I02", "stuck", "threads wait for each other for ever");
        if (!c.stop && !race_report().empty()) return c.violate("I02", "race", race_report());
        if (!c.stop) as_modelled(0, model.size(), "in the end");
    }
};
void exec(const Plan &p, Ctx &c)
{
    map_once();
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run(p, c).go();
}
}  // namespace

// The C library's byte functions: each touches every byte it was given, and
// memcpy of overlapping memory does its worst.
extern "C"
{
void __tsan_read_range(void *p, size_t n);
void __tsan_write_range(void *p, size_t n);
void *__tsan_memcpy(void *, const void *, size_t);
void *sim_libc_memmove(void *d, const void *s, size_t n)
{
    if (!n) return d;
    __tsan_read_range(const_cast<void *>(s), n);
    __tsan_write_range(d, n);
    return memmove(d, s, n);
}
void *sim_libc_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *sim_libc_memset(void *d, int v, size_t n)
{
    if (!n) return d;
    __tsan_write_range(d, n);
    return memset(d, v, n);
}
int sim_libc_memcmp(const void *a, const void *b, size_t n)
{
    if (!n) return 0;
    __tsan_read_range(const_cast<void *>(a), n);
    __tsan_read_range(const_cast<void *>(b), n);
    // the library may look at all of both, from either end
    const volatile unsigned char *const x = static_cast<const unsigned char *>(a), *const y = static_cast<const unsigned char *>(b);
    unsigned char sum = 0;
    for (size_t i = 0; i < n; i += i + 64 < n ? 64 : 1) sum = static_cast<unsigned char>(sum + x[i] + y[i]);
    (void)sum;
    return memcmp(a, b, n);
}
}
namespace sim
{
const World g_world = {"bytes", kNames, kKinds, gen, exec};
}

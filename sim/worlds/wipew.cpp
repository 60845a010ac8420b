// World: wiped memory, and what is left of it when the process dies.
#include <malloc.h>

#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    WIPE,   // a0 form, a1 size index, a2 where, a3 how much, a4 key
    FILL,   // a2 where, a3 how much, a4 key: new data in the thread's memory
    CRASH,  // the process dies here: what does its memory hold?
    FAR,    // a0 checked?, a1 bytes after 4 GB (or 2 GB), a2 bytes that end the memory
    kKinds
};
const char *const kNames[] = {"wipe", "fill", "crash", "far"};
enum Cfg
{
    THREADS,
    DEN,
    PCT,
    ROOM,    // bytes of each thread, side by side
    SKEW,    // address of the first one; negative: so many bytes before a multiple of 4 GB
    kCfg
};
constexpr int kMaxThreads = 3;
constexpr size_t kMaxRoom = 80000;

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    if (r.chance(1, 5000))
    {
        p.cfg = {1, 2, 0, 8, 0};
        p.ops.push_back({0, FAR, {int64_t(r.below(2)) + (r.chance(1, 2) ? 4 : 0), r.range(0, 300), r.range(1, 300), 0, 0}});
        return p;
    }
    const int nt = r.chance(1, 2) ? 1 : int(r.range(2, kMaxThreads));
    static const int dens[] = {2, 4, 10, 40};
    int64_t room = r.chance(1, 2) ? r.range(1, 24) : r.chance(9, 10) ? r.range(8, 400) : r.range(200, 4200);
    if (nt == 1 && r.chance(1, 500)) room = r.range(60000, kMaxRoom);
    p.cfg = {nt, r.pick(dens), r.chance(1, 4), room, r.chance(1, 3) ? -r.range(0, room * nt) : r.range(0, 63)};
    for (int t = 0; t < nt; ++t)
    {
        const int n = int(r.range(1, 6));
        for (int i = 0; i < n; ++i)
        {
            const int64_t at = r.range(0, room - 1), len = r.chance(1, 8) ? room : r.range(0, room);
            if (r.chance(1, 3)) p.ops.push_back({t, FILL, {0, 0, at, len, int64_t(r.below(1000))}});
            const int form = r.chance(1, 2) ? int(r.below(uint64_t(kWipe.room_forms))) : int(r.below(uint64_t(kWipe.forms)));
            p.ops.push_back({t, WIPE, {form, int64_t(r.below(uint64_t(kWipe.sizes))), at, len, int64_t(r.below(1000))}});
            if (r.chance(1, 4)) p.ops.push_back({t, CRASH, {0, 0, 0, 0, 0}});
        }
    }
    return p;
}

// What was secret once, and has been wiped since.
struct Secret
{
    unsigned char *p;
    size_t n;
    uint64_t key;
    bool freed;
};
struct Run;
Run *g_run;

// Far from the frames of the code that looks at the memory afterwards.
__attribute__((noinline)) int deep(int form, int ix, void *p, size_t n)
{
    volatile unsigned char pad[6000];
    pad[0] = 1;
    const int r = kWipe.call(form, ix, p, n);
    asm volatile("" : : "r"(pad) : "memory");
    return r;
}

struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt;
    size_t room;
    unsigned char *base;
    std::vector<unsigned char> model;           // what all threads' memory must hold
    std::vector<std::pair<size_t, size_t>> busy;  // being changed at the moment
    std::vector<Secret> now[kMaxThreads], past;
    uint64_t key[kMaxThreads] = {};
    bool gone = false;

    Run(const Plan &p, Ctx &x)
        : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), kMaxThreads))),
          room(size_t(std::min<int64_t>(std::max<int64_t>(p.cfg[ROOM], 1), int64_t(kMaxRoom))))
    {
        // also on both sides of a multiple of 4 GB
        base = p.cfg[SKEW] < 0 ? arena_base() + (size_t{6} << 32) + p.cfg[SKEW] : arena_base() + kObjOff + 4096 + size_t(p.cfg[SKEW] & 63);
        model.resize(room * size_t(nt));
        busy.resize(size_t(nt));
        for (size_t i = 0; i < model.size(); ++i) model[i] = uint8_t(i * 37 % 255 + 1);
        memcpy(base, model.data(), model.size());
        put_guards(base, model.size());
    }
    int me() const { return std::max(self_thread(), 0); }
    void secret(void *p, size_t n, bool freed)
    {
        yield_point();
        const int t = me();
        const uint64_t k = mix(++key[t], uint64_t(t) + 77);
        fill_pattern(static_cast<unsigned char *>(p), n, k);
        now[t].push_back({static_cast<unsigned char *>(p), n, k, freed});
        yield_point();
    }
    // eight bytes of the secret in a row, where they were
    static bool remains(const Secret &s)
    {
        unsigned char want[4096];
        if (s.n > sizeof want) return false;
        fill_pattern(want, s.n, s.key);
        const size_t need = std::min<size_t>(s.n, 8);
        size_t run = 0;
        for (size_t i = 0; i < s.n; ++i)
            if ((run = s.p[i] == want[i] ? run + 1 : 0) >= need) return true;
        return false;
    }
    void look(const char *when)
    {
        if (c.stop) return;
        for (size_t i = 0; i < past.size(); ++i)
            if (remains(past[i]))
                return c.violate("I01", "secret-left", strf("%s, memory still holds a secret of %zu bytes that was wiped", when, past[i].n));
        for (size_t i = 0; i < model.size(); ++i)
        {
            if (base[i] == model[i]) continue;
            bool in_work = false;
            for (auto &b : busy) in_work = in_work || (i >= b.first && i < b.first + b.second);
            if (in_work) continue;
            if (model[i] == 0) return c.violate("I01", "not-wiped", strf("%s, byte %zu of %zu is not zero although it was wiped", when, i, model.size()));
            return c.violate("I01", "outside", strf("%s, byte %zu of %zu has changed although it was not to be wiped", when, i, model.size()));
        }
        if (!guards_intact(base, model.size()))
            return c.violate("I01", "outside", strf("%s, bytes outside the wiped memory have changed", when));
    }
    void wipe(const Op &o)
    {
        const int t = me(), form = int(uint64_t(o.a[0]) % uint64_t(kWipe.forms)), ix = int(uint64_t(o.a[1]) % uint64_t(kWipe.sizes));
        const size_t mine = size_t(t) * room;
        size_t at = size_t(std::max<int64_t>(o.a[2], 0)) % room, n = std::min(size_t(std::max<int64_t>(o.a[3], 0)), room - at);
        if (nt > 1 && form >= kWipe.heap) return;  // the C++ heap is not simulated
        const bool in_room = form < kWipe.room_forms;
        if (in_room)
        {
            if (form != 2) n = std::max<size_t>(n, 1);
            const size_t covered = kWipe.covers(form, ix, n);
            if (at + covered > room) return;
            busy[size_t(t)] = {mine + at, covered};
            now[t].clear();
        }
        int rc = 0;
        const int trap = guarded([&] { rc = deep(form, ix, base + mine + at, n); }, 3000000);
        if (gone || c.stop) return;
        c.ev("wipe", form, int64_t(in_room ? n : kWipe.size(ix)), trap, rc);
        c.nontrivial = true;
        c.at_state(mix(uint64_t(form), mix(in_room ? std::min<size_t>(n, 64) : size_t(ix), at & 15)));
        if (in_room)
        {
            const size_t covered = kWipe.covers(form, ix, n);
            memset(model.data() + mine + at, 0, covered);
            busy[size_t(t)] = {0, 0};
            static const char *const kName[] = {"", "the checked wipe", "the checked wipe of no memory", "the checked wipe of nothing", "", "", "", "a checked wipe"};
            const int want = form == 2 ? -1 : form == 3 ? -2 : 0;
            if (trap != T_NONE) return c.violate("I01", "trap", strf("form %d ended in %s", form, trap_name(trap)));
            if (rc != want) return c.violate("I01", "result", strf("%s returned %d instead of %d", kName[form], rc, want));
        }
        else
        {
            const bool dies = trap == T_ABORT && form == kWipe.dies;
            if (dies) count("fault:process-aborts-after-wipe");
            if (trap != T_NONE && !dies) return c.violate("I01", "trap", strf("form %d ended in %s", form, trap_name(trap)));
            if (dies && nt > 1) gone = true;
            if (rc) return c.violate("I01", "result", strf("form %d: the checked wipe returned %d", form, rc));
            for (auto &s : now[t])
            {
                if (remains(s))
                    return c.violate("I01", "secret-left", strf("form %d: after the wipe and the end of its life, memory still holds a secret of %zu bytes", form, s.n));
                if (!s.freed) past.push_back(s);
            }
            now[t].clear();
        }
        look("after an operation");
    }
    void fill(const Op &o)
    {
        const size_t mine = size_t(me()) * room, at = size_t(std::max<int64_t>(o.a[2], 0)) % room,
                     n = std::min(size_t(std::max<int64_t>(o.a[3], 0)), room - at);
        for (size_t i = 0; i < n; ++i) base[mine + at + i] = model[mine + at + i] = uint8_t((i * 29 + uint64_t(o.a[4])) % 255 + 1);
    }
    // A wipe of more than 4 GB (or 2 GB) that returns has wiped it all.
    void far(const Op &o)
    {
        const Far &x = far_memory(0);
        if (!x.p) return;
        const size_t extra = size_t(o.a[1] & 1023), n = (size_t{1} << (o.a[0] & 4 ? 31 : 32)) + extra,
                     tail = std::max(1 + (size_t(o.a[2]) & 1023), extra);
        unsigned char *const p = x.p + Far::kAll + tail - n;
        memset(x.p, 0x6d, 8192);
        memset(x.own(), 0x6d, 8192);
        int rc = 0;
        const int form = int(o.a[0] & 1);
        const int trap = guarded([&] { rc = deep(form, 0, p, n); }, 3000000);
        c.ev("far", form, int64_t(n), int64_t(tail), trap * 4 + rc);
        if (trap == T_HANG) return count("probe:far-range-unfinished");
        count("probe:far-range");
        if (trap != T_NONE) return c.violate("I01", "trap", strf("a wipe of %zu bytes ended in %s", n, trap_name(trap)));
        if (rc) return c.violate("I01", "result", strf("the checked wipe of %zu bytes returned %d", n, rc));
        for (size_t i = 0; i < tail; ++i)
            if (x.own()[i]) return c.violate("I01", "not-wiped", strf("after a wipe of %zu bytes, the one %zu before the end is not zero", n, tail - i));
        if (x.own()[tail] != 0x6d) c.violate("I01", "outside", strf("a wipe of %zu bytes changed the byte behind them", n));
    }
    void body(int t)
    {
        for (auto &o : plan.ops)
        {
            if (c.stop || gone) return;
            if (o.kind == FAR) continue;
            if (int(unsigned(o.thr) % unsigned(nt)) != t) continue;
            if (o.kind == WIPE) wipe(o);
            else if (o.kind == FILL) fill(o);
            else
            {
                yield_point();
                count("fault:process-crash");
                c.ev("crash");
                look("when the process died");
            }
        }
    }
    void go()
    {
        for (auto &o : plan.ops)
            if (o.kind == FAR && !c.stop) far(o);
        if (c.stop) return;
        g_run = this;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t) bodies.push_back([this, t] { body(t); });
        ThreadOpts to;
        to.races = true;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        g_run = nullptr;
        if (!c.stop && !gone && deadlocked()) return c.violate("I01", "stuck", "threads wait for each other for ever");
        if (!c.stop && !race_report().empty()) return c.violate("I01", "race", race_report());
        look("in the end");
    }
};
void exec(const Plan &p, Ctx &c)
{
    static const bool once = mallopt(M_TRIM_THRESHOLD, 1 << 30);
    (void)once;
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run(p, c).go();
}
}  // namespace
extern "C" void sim_secret(void *p, size_t n, int freed)
{
    if (g_run) g_run->secret(p, n, freed);
}
namespace sim
{
const World g_world = {"wipe", kNames, kKinds, gen, exec};
}

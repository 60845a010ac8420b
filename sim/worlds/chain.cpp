// World: resources stacked over one another and over the system or the null
// resource, with buffers of their own or taken from lower layers.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    BUILD,    // a0 what, a1 variant, a2 buffer size, a3 where the buffer is from, a4 upstream
    ALLOC,    // a0 layer, a1 size, a2 log2 align, a3 through what, a4 size mode
    FREE,     // a0 which, a1 through what
    RELEASE,  // a0 layer
    TEAR,     // the top layer goes
    DRAIN,    // a0 layer: the same request until it fails
    FAIL,     // a0 mask of the system allocator's next calls
    kKinds
};
const char *const kNames[] = {"build", "alloc", "free", "release", "tear", "drain", "allocator_failures"};
enum Cfg
{
    REUSE,
    LIMIT,  // log2 of the largest block the system has
    NEAR,   // which sides of the first outside buffer the heap may use
    kCfg
};
constexpr int kMaxLayers = 6;
constexpr size_t kMaxLive = 96;

Op build_op(Rng &r, int depth)
{
    Op o;
    o.kind = BUILD;
    o.a[0] = r.chance(2, 3) ? 0 : 1;
    o.a[1] = int64_t(r.below(1000));
    o.a[2] = r.chance(1, 8) ? int64_t(r.below(9)) : depth == 0 ? r.range(64, 6000) : r.range(16, 1200);
    o.a[3] = int64_t(r.below(12));
    o.a[4] = int64_t(r.below(12));
    return o;
}
Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    p.cfg = {r.chance(1, 2), r.chance(1, 3) ? r.range(8, 12) : r.chance(1, 6) ? r.range(20, 34) : 16, r.chance(1, 2) ? r.range(1, 3) : 0};
    const int first = int(r.range(1, 4));
    for (int i = 0; i < first; ++i) p.ops.push_back(build_op(r, i));
    const int n = int(r.range(5, r.chance(1, 6) ? 120 : 45));
    const bool small = r.chance(1, 2);
    for (int i = 0; i < n; ++i)
    {
        Op o;
        const unsigned w = unsigned(r.below(32));
        if (w < 14)
        {
            o.kind = ALLOC;
            o.a[0] = int64_t(r.below(12));
            o.a[1] = small ? r.range(1, 64) : r.range(0, 700);
            o.a[2] = r.chance(1, 12) ? r.range(0, 13) : r.range(0, 6);
            o.a[3] = int64_t(r.below(8));
            o.a[4] = int64_t(r.below(24));
        }
        else if (w < 25)
        {
            o.kind = FREE;
            o.a[0] = int64_t(r.below(1000));
            o.a[1] = int64_t(r.below(4));
        }
        else if (w < 26) o = {0, RELEASE, {int64_t(r.below(12)), 0, 0, 0, 0}};
        else if (w < 27) o = {0, TEAR, {0, 0, 0, 0, 0}};
        else if (w < 29) o = build_op(r, 2);
        else if (w < 30) o = {0, DRAIN, {int64_t(r.below(12)), r.range(1, 200), r.range(0, 6), 0, 0}};
        else o = {0, FAIL, {int64_t(r.next() & r.next() & 0xfff), 0, 0, 0, 0}};
        p.ops.push_back(o);
    }
    over_and_over(p, r, 300);
    hand_over(p, r);
    return p;
}

struct Layer
{
    bool block = false;
    int lay = 0;
    unsigned char *mem = nullptr;
    unsigned char *buf = nullptr;
    int64_t near_bits = 0;
    size_t size = 0;
    int from = -2;           // layer the buffer is from, -1 system, -2 outside
    unsigned reach = 0;      // layers its memory may come from
    bool over_system = false;
    Res *res = nullptr;
};
struct Range
{
    Live l;
    int layer;               // obtained from, -1 the system resource, -2 outside
    int buffer_of;           // the layer built in it, -1 a client's
    int how;                 // 0 resource, 1.. allocator element type + 1
};

struct Run
{
    const Plan &plan;
    Ctx &c;
    std::vector<Layer> layers;
    std::vector<Range> live;
    uint64_t key = 1;
    Res *sys = nullptr;
    size_t calls_seen = 0;
    int near_slot = -1;  // the slot with the buffer the heap has neighbours of

    Run(const Plan &p, Ctx &x) : plan(p), c(x)
    {
        g_heap.reuse = p.cfg[REUSE];
        g_heap.limit = size_t{1} << (uint64_t(p.cfg[LIMIT]) % 36);
        sys = unit_a().system();
    }
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        c.violate_any("died", strf("%s ended in %s (%s)", what, trap_name(trap), g_trap_msg));
        return false;
    }
    bool bad(const char *cls, const std::string &s)
    {
        c.violate("H01", cls, s);
        return false;
    }
    std::string name(int l) const
    {
        if (l < 0) return l == -1 ? "the system resource" : "outside";
        const Layer &y = layers[size_t(l)];
        return y.block ? strf("layer %d (blocks of %zu, at most %zu)", l, sut::layout(y.lay).block, sut::layout(y.lay).max_blocks) : strf("layer %d (monotonic)", l);
    }
    // what the system allocator was asked
    bool calls_ok()
    {
        for (; calls_seen < g_heap.calls.size(); ++calls_seen)
            if (g_heap.calls[calls_seen].bad)
                return bad("invalid-call", strf("invalid call to the system allocator: %s", g_heap.calls[calls_seen].why));
        return true;
    }
    bool inside(const unsigned char *p, size_t n, const unsigned char *q, size_t m) const { return p >= q && n <= m && size_t(p - q) <= m - n; }
    unsigned reach_of(int l) const { return l < 0 ? 0 : layers[size_t(l)].reach; }
    // Adds what layer l answered; false if it is not the caller's to use.
    bool add(void *vp, size_t size, size_t align, int l, int how)
    {
        auto *p = static_cast<unsigned char *>(vp);
        if (ad(p) & (align - 1)) return bad("misaligned", strf("%s answered memory not aligned to %zu", name(l).c_str(), align));
        // It may lie in buffers, the innermost of them one this layer's memory
        // comes from; it may overlap nothing else.
        const Range *home = nullptr;
        for (auto &r : live)
        {
            if (p + size <= r.l.p || r.l.p + r.l.size <= p) continue;
            if (r.buffer_of < 0 || !inside(p, size, r.l.p, r.l.size))
                return bad("overlap", strf("%s answered %zu bytes that overlap %zu live bytes obtained from %s", name(l).c_str(), size, r.l.size, name(r.layer).c_str()));
            if (!home || inside(r.l.p, r.l.size, home->l.p, home->l.size)) home = &r;
        }
        if (home && !(reach_of(l) >> home->buffer_of & 1))
            return bad("overlap", strf("%s answered %zu bytes in the buffer of %s, which is not under it", name(l).c_str(), size, name(home->buffer_of).c_str()));
        if (!home)
        {
            const bool may = l == -1 || layers[size_t(l)].over_system;
            auto it = g_heap.blocks.upper_bound(ad(p));
            if (it != g_heap.blocks.begin()) --it;
            const bool in = may && it != g_heap.blocks.end() && it->second.live && it->second.owner == -1 && inside(p, size, it->second.p, it->second.size);
            if (!in) return bad("from-nowhere", strf("%s answered memory that is neither in a buffer under it nor the system allocator's", name(l).c_str()));
        }
        Range r{{p, size, align, !home, key += 2}, l, -1, how};
        store(r.l);
        live.push_back(r);
        return true;
    }
    void *ask(int l, size_t size, size_t align, int how)
    {
        void *p = nullptr;
        Res *r = l < 0 ? sys : layers[size_t(l)].res;
        const int tr = guarded([&] {
            if (how == 0) p = res_alloc(r, size, align);
            else
            {
                alignas(16) unsigned char m[64];
                auto &a = kAlloc[how - 1];
                a.make(m, r);
                p = a.allocate(m, size / a.elem_size);
                a.destroy(m);
            }
        });
        if (!ok(tr, strf("a request to %s", name(l).c_str()).c_str())) return nullptr;
        calls_ok();
        return c.stop ? nullptr : p;
    }
    bool return_to(int l, void *p, int how)
    {
        Res *r = l < 0 ? sys : layers[size_t(l)].res;
        const int tr = guarded([&] {
            if (how == 0) res_dealloc(r, p);
            else
            {
                alignas(16) unsigned char m[64];
                auto &a = kAlloc[how - 1];
                a.make(m, r);
                a.deallocate(m, p);
                a.destroy(m);
            }
        });
        return ok(tr, strf("a deallocation to %s", name(l).c_str()).c_str()) && calls_ok();
    }
    void alloc(int l, size_t size, size_t align, int how)
    {
        if (live.size() >= kMaxLive) return;
        if (how)
        {
            align = kAlloc[how - 1].elem_align;
            size -= size % kAlloc[how - 1].elem_size;
        }
        void *p = ask(l, size, align, how);
        if (c.stop) return;
        c.ev("alloc", l, int64_t(size), int64_t(align), p ? 1 : 0);
        count(p ? "result:memory" : "result:null");
        if (p && !size) return_to(l, p, how);  // the system allocator may answer no bytes
        if (p && size) add(p, size, align, l, how);
    }
    bool free_at(size_t i, int64_t how)
    {
        Range r = live[i];
        if (!intact(r.l)) return bad("corrupted", strf("%zu live bytes obtained from %s changed", r.l.size, name(r.layer).c_str()));
        live.erase(live.begin() + long(i));
        c.ev("free", r.layer, int64_t(r.l.size));
        return return_to(r.layer, r.l.p, how & 1 ? r.how : 0);
    }
    void build(const Op &o)
    {
        if (layers.size() >= kMaxLayers) return;
        Layer y;
        const int me = int(layers.size());
        y.block = !(o.a[0] & 1);
        y.lay = int(uint64_t(o.a[1]) % kSmallLayouts);
        y.size = size_t(uint64_t(o.a[2]) % 8192);
        y.mem = arena_base() + kObjOff + (size_t(me) << 16);
        y.reach = 1u << me;
        // the buffer
        const int64_t b = int64_t(uint64_t(o.a[3]) % 12);
        y.from = me && b < 6 ? int(b) % me : b < 9 ? -2 : -1;
        const size_t balign = size_t{1} << (uint64_t(o.a[1]) / 16 % 8);
        if (!y.size) y.from = -2;
        if (y.from == -2)
        {
            y.buf = arena_base() + kObjOff + (size_t((me == near_slot ? 128 : 64) + me) << 16) + 64 * 128 + (y.size ? uint64_t(o.a[1]) % 65 : 0);
            put_guards(y.buf, y.size);
            if (near_slot < 0 && y.size)
            {
                near_slot = me;
                y.near_bits = plan.cfg[NEAR];
                put_spots(y.buf, y.size, y.near_bits);
            }
            fill_garbage(y.buf, y.size, 3);
            if (!y.size) y.buf = nullptr;
        }
        else
        {
            y.buf = static_cast<unsigned char *>(ask(y.from, y.size, balign, 0));
            if (c.stop) return;
            if (y.buf && !add(y.buf, y.size, balign, y.from, 0)) return;
            if (y.buf) live.back().buffer_of = me;
        }
        // memory under a buffer from a lower layer is that layer's business:
        // only upstreams pass memory on
        const int64_t u = int64_t(uint64_t(o.a[4]) % 12);
        Res *up = nullptr;
        int upl = -3;
        if (me && u < 8) upl = int(u) % me;
        else if (u < 10) upl = -1;
        if (upl >= 0)
        {
            up = layers[size_t(upl)].res;
            y.reach |= layers[size_t(upl)].reach;
            y.over_system = layers[size_t(upl)].over_system;
        }
        else if (upl == -1)
        {
            up = u & 1 ? unit_b().system() : sys;
            y.over_system = true;
        }
        else if (u & 1) up = unit_a().null();
        const size_t os = y.block ? sut::layout(y.lay).obj_size : kMono.obj_size;
        fill_garbage(y.mem, os, uint64_t(me));
        const int tr = guarded([&] {
            y.res = y.block ? sut::layout(y.lay).construct(y.mem, y.buf, y.buf ? y.size : 0, PTR_UP, up) : kMono.construct(y.mem, y.buf, y.buf ? y.size : 0, PTR_UP, up);
        });
        if (!ok(tr, "construction")) return;
        if (y.from == -2 && y.buf)
        {
            Range r{{y.buf, y.size, 1, false, 0}, -2, me, 0};
            live.push_back(r);
        }
        layers.push_back(y);
        c.ev("build", me, y.block ? y.lay : -1, y.from, upl);
        count(y.from >= 0 ? "probe:buffer-from-lower-layer" : y.from == -1 ? "probe:buffer-from-system" : "probe:buffer-from-outside");
    }
    const Range *buffer(int l) const
    {
        for (auto &r : live)
            if (r.buffer_of == l) return &r;
        return nullptr;
    }
    // the layer's own part is as empty as when it was built
    bool empty(int l)
    {
        Layer &y = layers[size_t(l)];
        if (!y.buf) return true;
        size_t cap = 0;
        const unsigned char *data = nullptr;
        if (y.block)
        {
            auto &a = sut::layout(y.lay);
            size_t fc = 0, bc = 0, first = 0;
            if (!ok(guarded([&] {
                    fc = a.free_count(y.mem);
                    bc = a.busy_count(y.mem);
                    cap = a.size(y.mem);
                    data = static_cast<const unsigned char *>(a.data(y.mem));
                    if (cap) first = a.block_bytes(y.mem, 0);
                }), "looking at a layer"))
                return false;
            if (bc || fc != (cap ? 1 : 0) || (cap && first != cap))
                return bad("not-empty", strf("%s is not as empty as when it was built: %zu busy and %zu free regions, the first of %zu of %zu bytes",
                                             name(l).c_str(), bc, fc, first, cap));
        }
        else
        {
            if (!ok(guarded([&] {
                    kMono.release(y.mem);
                    cap = kMono.size(y.mem);
                    data = static_cast<const unsigned char *>(kMono.data(y.mem));
                }), "release"))
                return false;
        }
        if (!cap) return true;
        const size_t mark = g_heap.calls.size();
        void *p = ask(l, cap, 1, 0);
        if (c.stop) return false;
        if (p != data)
        {
            if (p) return_to(l, p, 0);
            return c.stop ? false : bad("not-empty", strf("%s cannot serve all of its buffer any more", name(l).c_str()));
        }
        if (g_heap.calls.size() != mark) return bad("not-empty", strf("%s asked its upstream for what its buffer holds", name(l).c_str()));
        if (!return_to(l, p, 0)) return false;
        if (!y.block) return ok(guarded([&] { kMono.release(y.mem); }), "release");
        return true;
    }
    void tear(int64_t order)
    {
        const int l = int(layers.size()) - 1;
        if (l < 0) return;
        Rng r(uint64_t(order) + key);
        for (;;)
        {
            std::vector<size_t> mine;
            for (size_t i = 0; i < live.size(); ++i)
                if (live[i].layer == l) mine.push_back(i);
            if (mine.empty()) break;
            if (!free_at(mine[r.below(mine.size())], 1)) return;
        }
        Layer y = layers[size_t(l)];
        if (!empty(l)) return;
        if (!ok(guarded([&] { y.block ? sut::layout(y.lay).destroy(y.mem) : kMono.destroy(y.mem); }), "destruction of an empty layer")) return;
        for (size_t i = 0; i < live.size(); ++i)
            if (live[i].buffer_of == l)
            {
                if (y.from == -2)
                {
                    if (!guards_intact(y.buf, y.size, y.near_bits))
                    {
                        bad("outside-write", strf("bytes next to the buffer of %s changed", name(l).c_str()));
                        return;
                    }
                    live.erase(live.begin() + long(i));
                }
                else
                {
                    live[i].buffer_of = -1;
                    void *p = live[i].l.p;
                    live.erase(live.begin() + long(i));
                    if (!return_to(y.from, p, 0)) return;
                }
                break;
            }
        layers.pop_back();
        c.ev("tear", l);
    }
    void release(int l)
    {
        Layer &y = layers[size_t(l)];
        if (!y.buf) return;
        const Range *b = buffer(l);
        std::vector<size_t> in;
        for (size_t i = 0; i < live.size(); ++i)
            if (&live[i] != b && b && inside(live[i].l.p, live[i].l.size, b->l.p, b->l.size))
            {
                if (live[i].buffer_of >= 0) return;  // a layer lives in it
                in.push_back(i);
            }
        for (size_t i : in)
            if (!intact(live[i].l))
            {
                bad("corrupted", strf("%zu live bytes obtained from %s changed", live[i].l.size, name(live[i].layer).c_str()));
                return;
            }
        for (size_t k = in.size(); k-- > 0;) live.erase(live.begin() + long(in[k]));
        if (!ok(guarded([&] { y.block ? sut::layout(y.lay).release(y.mem) : kMono.release(y.mem); }), "release")) return;
        c.ev("release", l, int64_t(in.size()));
        if (!calls_ok()) return;
        if (!empty(l)) return;
    }
    void look()
    {
        uint64_t h = layers.size();
        for (auto &y : layers)
        {
            if (!y.block)
            {
                h = mix(h, 999);
                continue;
            }
            auto &a = sut::layout(y.lay);
            size_t f = 0, b = 0;
            guarded([&] {
                f = a.free_count(y.mem);
                b = a.busy_count(y.mem);
            });
            h = mix(h, uint64_t(y.lay) << 20 | f << 10 | b);
        }
        c.at_state(mix(h, live.size()));
    }
    void step(const Op &o)
    {
        const int n = int(layers.size());
        // mostly the upper layers
        const int l = n ? int(uint64_t(o.a[0]) % 12) < 8 ? n - 1 - int(uint64_t(o.a[0]) % 2) % n : int(uint64_t(o.a[0]) % uint64_t(n)) : -1;
        switch (o.kind)
        {
            case BUILD: build(o); break;
            case ALLOC:
            {
                size_t size = size_t(uint64_t(o.a[1]) % 1024);
                switch (uint64_t(o.a[4]) % 24)
                {
                    case 0: size = SIZE_MAX - size; break;
                    case 1: size = (size_t{1} << 62) + size; break;
                    case 2:
                    case 3: size *= 8; break;
                    case 4: size += size_t{1} << 32; break;
                    case 5: size += size_t{1} << 16; break;
                    default: break;
                }
                const int how = uint64_t(o.a[3]) % 8 < 5 ? 0 : 1 + int(uint64_t(o.a[1]) % kElems);
                alloc(l, size, size_t{1} << (uint64_t(o.a[2]) % 14), how);
                break;
            }
            case FREE:
            {
                std::vector<size_t> can;
                for (size_t i = 0; i < live.size(); ++i)
                    if (live[i].buffer_of < 0) can.push_back(i);
                if (!can.empty()) free_at(can[uint64_t(o.a[0]) % can.size()], o.a[1]);
                break;
            }
            case RELEASE:
                if (n) release(l);
                break;
            case TEAR: tear(o.a[0]); break;
            case DRAIN:
                for (int i = 0; i < 40 && !c.stop; ++i)
                {
                    const size_t had = live.size();
                    alloc(l, size_t(uint64_t(o.a[1]) % 256) + 1, size_t{1} << (uint64_t(o.a[2]) % 8), 0);
                    if (live.size() == had) break;
                }
                break;
            default: g_heap.fail_mask[-1] = uint64_t(o.a[0]); break;
        }
    }
    void go()
    {
        for (auto &o : plan.ops)
        {
            if (c.stop) return;
            as_thread(o.thr % 6);
            step(o);
            if (!c.stop) look();
        }
        // Everybody gives back what they have.
        while (!layers.empty() && !c.stop) tear(7);
        while (!live.empty() && !c.stop) free_at(live.size() - 1, 1);
        if (c.stop) return;
        std::string why;
        if (!g_heap.guards_ok(&why)) bad("outside-write", why);
        else if (g_heap.live_count(-1)) bad("leak", strf("%zu blocks never went back to the system allocator", g_heap.live_count(-1)));
        c.nontrivial = g_heap.calls.size() > 1;
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    c.put(g_heap.calls.size());
}
}  // namespace
extern "C" void sim_built(void *, int, int, int) {}
extern "C" void sim_destroyed(void *, int, int) {}
namespace sim
{
const World g_world = {"stack", kNames, kKinds, gen, exec};
}

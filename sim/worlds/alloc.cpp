// World: typed allocators of several element types over several resources.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    MAKE,      // a0 slot, a1 element type, a2 resource
    MAKE_DEF,  // a0 slot, a1 element type
    COPY,      // a0 slot, a1 source slot
    CONVERT,   // a0 slot, a1 source slot, a2 element type
    NEW,       // a0 slot, a1 argument kind, a2 value, a4 so many operations within its constructor
    DELETE,    // a0 which object, a1 which allocator of the same resource, a4 likewise in its destructor
    DELETE_NULL,
    BUILD,     // allocate_object + construct ... destroyed and returned by UNBUILD
    ARRAY,     // a0 slot, a1 count mode, a2 count, a3 exponent for modes 4..6
    OBJECTS,   // a0 slot, a1 object type, a2 count, a3 mode, a4 exponent
    BYTES,     // a0 slot, a1 size, a2 log2 align (-1: default)
    FREE,      // a0 which range, a1 which allocator
    SET_DEFAULT,
    FAIL,      // a0 owner, a1 mask
    kKinds
};
const char *const kNames[] = {"make", "make_default", "copy", "convert", "new", "delete", "delete_null", "build",
                              "array", "objects", "bytes", "free", "set_default", "allocator_failures"};
constexpr int kSlots = 6;
// resources: 0,1 simulated; 2 block resource (upstream simulated 3); 3 system;
// 4 null; 5 monotonic (upstream simulated 4); 6,7 monotonic, both without a
// buffer (upstream simulated 5); 8,9 block, likewise (upstream simulated 6).
// 10 is a second handle of 0. The rest is only compared: over the same buffers
// as 2 and 5.
constexpr int kRes = 11, kTwins = 3;
constexpr int one(int r) { return r == 10 ? 0 : r; }  // equal ones are one resource
constexpr bool is_buffer(int r) { return r == 2 || (r >= 5 && r != 10); }

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    p.cfg = {int64_t(r.below(1000)), r.chance(1, 3), int64_t(r.below(3)), r.chance(1, 4) ? r.range(17, 34) : 16};
    const int n = int(r.range(5, 50));
    auto slot = [&] { return int64_t(r.below(kSlots)); };
    auto resource = [&]
    {
        static const int rs[] = {0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 10};
        return int64_t(r.pick(rs));
    };
    for (int i = 0; i < n; ++i)
    {
        Op o;
        unsigned w = unsigned(r.below(24));
        if (prop == "D02" && r.chance(1, 4)) w = unsigned(r.below(4));
        if (prop == "A07" && r.chance(1, 4)) w = 13 + unsigned(r.below(2));
        switch (w)
        {
            case 0: o = {0, MAKE, {slot(), int64_t(r.below(kElems)), resource(), 0, 0}}; break;
            case 1: o = {0, MAKE_DEF, {slot(), int64_t(r.below(kElems)), 0, 0, 0}}; break;
            case 2: o = {0, COPY, {slot(), slot(), 0, int64_t(r.below(8)), 0}}; break;
            case 3: o = {0, CONVERT, {slot(), slot(), int64_t(r.below(kElems)), int64_t(r.below(8)), 0}}; break;
            default: o = {0, NEW, {slot(), int64_t(r.below(kArgKinds)), r.range(1, 60), 0, 0}}; break;
            case 9: case 10: case 11: o = {0, DELETE, {int64_t(r.below(32)), slot(), 0, 0, 0}}; break;
            case 12: o = {0, r.chance(1, 3) ? DELETE_NULL : BUILD, {slot(), int64_t(r.below(kArgKinds)), r.range(1, 60), 0, 0}}; break;
            case 13:
                o = {0, ARRAY, {slot(), int64_t(r.below(7)), r.range(1, 12), int64_t(r.below(8)), 0}};
                if (o.a[1] && r.chance(1, 2) && prop != "A07") o.a[1] = 0;
                if (r.chance(1, 12)) o.a[2] = 0;
                break;
            case 14:
                o = {0, OBJECTS, {slot(), int64_t(r.below(kObjTypes)), r.range(1, 8), int64_t(r.below(7)), int64_t(r.below(8))}};
                if (o.a[3] && r.chance(1, 2) && prop != "A07") o.a[3] = 0;
                if (r.chance(1, 12)) o.a[2] = 0;
                break;
            case 15:
                o = {0, BYTES, {slot(), r.range(1, 100), r.range(-1, 7), 0, 0}};
                if (r.chance(1, 12)) o.a[1] = 0;
                else if (r.chance(1, 4)) o.a[1] += int64_t{1} << (r.chance(1, 2) ? 32 : r.range(8, 40));
                break;
            case 16: case 17: o = {0, FREE, {int64_t(r.below(32)), slot(), 0, 0, 0}}; break;
            case 18: o = {0, SET_DEFAULT, {resource(), 0, 0, 0, 0}}; break;
            case 19: o = {0, FAIL, {int64_t(r.below(7)), int64_t(r.next() & r.next() & 0x3f), 0, 0, 0}}; break;
        }
        p.ops.push_back(o);
    }
    // objects whose constructors and destructors use the allocators themselves
    if (r.chance(1, 2))
        for (Op &o : p.ops)
            if ((o.kind == NEW || o.kind == BUILD || o.kind == DELETE) && r.chance(1, 3)) o.a[4] = r.range(1, 4);
    over_and_over(p, r, 200);
    hand_over(p, r);
    return p;
}

struct Obj
{
    unsigned char *p;
    int type, value, res;
};
struct Range
{
    Live l;
    int res, api, type;  // api 0 elements, 1 objects, 2 bytes
    int elem;
};
struct Ev
{
    bool built;
    void *p;
    int type, kind, value;
    bool memory_live;
};
std::vector<Ev> g_ev;
struct Run;
Run *g_run;

struct Run
{
    const Plan &plan;
    Ctx &c;
    unsigned char *base;
    Res *res[kRes + kTwins];
    void *block_obj, *mono_obj;
    unsigned char *other_obj;
    const BlockApi &ba;
    struct Slot
    {
        bool set = false;
        int elem = 0, res = 0;
        unsigned char *mem = nullptr;
    } slot[kSlots];
    std::vector<Obj> objs;
    std::vector<Range> ranges;
    int dflt = 3;
    uint64_t key = 1;
    bool saw_impossible = false, skip_impossible = false;
    std::vector<uint64_t> answers;
    size_t next_op = 0;
    int64_t nest = 0;    // operations to run in the next constructor or destructor
    int depth = 0;
    std::vector<int> in_use;                                 // allocators in a call
    std::vector<std::pair<unsigned char *, size_t>> coming;  // objects being built or destroyed

    Run(const Plan &p, Ctx &x) : plan(p), c(x), ba(sut::layout(4 + int(uint64_t(p.cfg[2]) % 2)))
    {
        base = arena_base() + kObjOff;
        unsigned char *b1 = aligned_spot(6), *b2 = aligned_spot(10) + 1;
        res[0] = sim_resource_make(up_res_mem(1), 1);
        res[1] = sim_resource_make(up_res_mem(2), 2);
        Res *up3 = sim_resource_make(up_res_mem(3), 3), *up4 = sim_resource_make(up_res_mem(4), 4);
        block_obj = base + 65536;
        mono_obj = base + 49152;
        res[2] = ba.construct(block_obj, b1, 256, PTR_UP, up3);
        res[3] = unit_a().system();
        res[4] = unit_a().null();
        res[5] = kMono.construct(mono_obj, b2, 300, PTR_UP, up4);
        other_obj = base + 131072;
        Res *up5 = sim_resource_make(up_res_mem(5), 5), *up6 = sim_resource_make(up_res_mem(6), 6);
        const bool none = p.cfg[2] & 1;  // no buffer, or one of no bytes
        for (int i = 6; i < 8; ++i) res[i] = kMono.construct(other(i), none ? nullptr : b2, 0, PTR_UP, up5);
        for (int i = 8; i < 10; ++i) res[i] = ba.construct(other(i), none ? nullptr : b1, none ? 0 : 1, PTR_UP, up6);
        res[10] = sim_resource_make_same(up_res_mem(7), 1, res[0]);
        res[11] = kMono.construct(other(10), b2, 300, PTR_UP, up4);
        res[12] = ba.construct(other(11), b1, 256, PTR_UP, up3);
        res[13] = sut::layout(0).construct(other(12), b1, 256, PTR_UP, up3);
        fill_garbage(base, 16384, uint64_t(p.cfg[0]));
        for (int i = 0; i < kSlots; ++i) slot[i].mem = base + 1024 * size_t(i + 1);
        g_heap.reuse = p.cfg[1];
        if (p.cfg.size() > 3) g_heap.limit = size_t{1} << (uint64_t(p.cfg[3]) % 36);
        unit_a().set(res[3]);
        g_ev.clear();
        g_run = this;
    }
    unsigned char *other(int i) const { return other_obj + size_t(i) * 8192; }
    bool live_memory(const void *p, size_t n) const
    {
        auto it = g_heap.blocks.upper_bound(ad(p));
        if (it != g_heap.blocks.begin())
        {
            --it;
            const Block &b = it->second;
            if (ad(p) >= ad(b.p) && ad(p) + n <= ad(b.p) + b.size) return b.live;
        }
        return true;  // inside one of the buffers
    }
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        c.violate_any("died", strf("%s ended in %s (%s)", what, trap_name(trap), g_trap_msg));
        return false;
    }
    Res *base_of(int r) const { return res[r]; }
    const AllocApi &api(int s) const { return kAlloc[slot[s].elem]; }
    size_t overlap(const unsigned char *p, size_t n) const
    {
        for (auto &o : objs)
            if (p < o.p + obj_size(o.type) && o.p < p + n) return 1;
        for (auto &r : ranges)
            if (p < r.l.p + r.l.size && r.l.p < p + n) return 1;
        for (auto &r : coming)
            if (p < r.first + r.second && r.first < p + n) return 1;
        return 0;
    }
    bool busy(int s) const { return std::find(in_use.begin(), in_use.end(), s) != in_use.end(); }
    // In the constructor or destructor of the object at p.
    void inside(void *p, int type)
    {
        if (!nest || c.stop || depth > 2) return;
        int64_t n = std::min<int64_t>(nest, 8);
        nest = 0;
        const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
        ++depth;
        coming.push_back({static_cast<unsigned char *>(p), obj_size(type)});
        count("probe:nested-operation", uint64_t(n));
        while (n-- > 0 && next_op < plan.ops.size() && !c.stop) step(plan.ops[next_op++]);
        coming.pop_back();
        --depth;
        nest = 0;
        // what belongs to the call around them is what counts for it
        g_heap.calls.erase(g_heap.calls.begin() + long(calls0), g_heap.calls.end());
        g_ev.erase(g_ev.begin() + long(ev0), g_ev.end());
    }
    // What the direct calls to a simulated resource were.
    int owner_of(int r) const { return one(r) == 0 ? 1 : r == 1 ? 2 : r == 3 ? -1 : -5; }
    bool direct(int r) const { return one(r) == 0 || r == 1 || r == 3; }
    // Memory through slot s was answered with p: was the right resource asked?
    bool check_source(const char *P, int r, size_t calls0, void *p, size_t size, size_t align, bool alloc)
    {
        size_t n = g_heap.calls.size() - calls0;
        if (direct(r))
        {
            const auto &cs = g_heap.calls;
            if (n != 1 || cs.back().alloc != alloc || cs.back().owner != owner_of(r) || cs.back().bad || cs.back().p != p)
            {
                c.violate(P, alloc ? "resource-request" : "resource-return",
                          strf("%s made %zu call(s), not exactly one to the allocator's own resource%s%s", alloc ? "allocating" : "deallocating", n,
                               n && cs.back().bad ? ": " : "", n && cs.back().bad ? cs.back().why : ""));
                return false;
            }
            if (alloc && (cs.back().size < size || cs.back().align < align))
            {
                c.violate(P, "request-size", strf("asked the resource for %zu bytes aligned to %zu, needs %zu and %zu", cs.back().size, cs.back().align, size, align));
                return false;
            }
            return true;
        }
        // buffer resources and the null resource: only their own upstream may be called
        for (size_t i = calls0; i < g_heap.calls.size(); ++i)
        {
            const Call &k = g_heap.calls[i];
            int own = r == 2 ? 3 : r == 5 ? 4 : r == 6 || r == 7 ? 5 : r == 8 || r == 9 ? 6 : -9;
            if (k.owner != own || k.bad || k.alloc != alloc)
            {
                c.violate(P, "wrong-resource", "a resource other than the allocator's own was used");
                return false;
            }
        }
        return true;
    }
    void drop_slot(int s)
    {
        if (!slot[s].set || busy(s)) return;
        guarded([&] { api(s).destroy(slot[s].mem); });
        slot[s].set = false;
    }
    int some_slot(int64_t a) const
    {
        for (int i = 0; i < kSlots; ++i)
        {
            int s = int((uint64_t(a) + uint64_t(i)) % kSlots);
            if (slot[s].set) return s;
        }
        return -1;
    }
    // an allocator over resource r, starting the search at a
    int slot_for(int r, int64_t a) const
    {
        for (int i = 0; i < kSlots; ++i)
        {
            int s = int((uint64_t(a) + uint64_t(i)) % kSlots);
            if (slot[s].set && one(slot[s].res) == one(r)) return s;
        }
        return -1;
    }
    void check_identity(bool all)
    {
        if (!c.on("D02")) return;
        for (int i = 0; i < kSlots; ++i)
            if (slot[i].set)
            {
                Res *got = api(i).resource(slot[i].mem);
                if (got != res[slot[i].res])
                    return c.violate("D02", "resource", "an allocator does not use the resource it was made for");
                for (int j = 0; j < kSlots; ++j)
                    if (slot[j].set)
                    {
                        bool want = one(slot[i].res) == one(slot[j].res);
                        bool e = api(i).eq(slot[i].mem, slot[j].elem, slot[j].mem), n = api(i).ne(slot[i].mem, slot[j].elem, slot[j].mem);
                        if (e != want || n == want)
                            return c.violate("D02", "equality", strf("allocators over %s resource(s): == is %d, != is %d", want ? "the same" : "different", e, n));
                    }
            }
        for (int i = 0; all && i < kRes + kTwins; ++i)
            for (int j = 0; j < kRes + kTwins; ++j)
            {
                const bool same = one(i) == one(j);
                if (res_is_equal(res[i], res[j]) != same || res_eq(res[i], res[j]) != same || res_ne(res[i], res[j]) == same)
                    return c.violate("D02", "resource-equality", "a resource does not equal itself only");
            }
    }
    bool expect_events(size_t from, size_t n, const char *what)
    {
        if (g_ev.size() - from == n) return true;
        c.violate("D01", "event-count", strf("%s: %zu constructor/destructor runs, expected %zu", what, g_ev.size() - from, n));
        return false;
    }
    // After construction at p with the given arguments.
    bool check_built(size_t ev0, unsigned char *p, int kind, int v, const ArgReport &r)
    {
        if (!expect_events(ev0, 1, "creating one object")) return false;
        const Ev &e = g_ev[ev0];
        int want_kind = kind == A_BYVAL_R ? A_BYVAL_L : kind;
        int want_v = v;
        switch (kind)
        {
            case A_NONE: want_v = 0; break;
            case A_MIXED: want_v = v * 10000 + (v + 1) * 100 + 7; break;
            case A_TEXT: want_v = 4; break;
            case A_INT_REF: want_v = v + 1; break;
        }
        if (kind >= A_T_SHORT && kind <= A_T_PTR) want_v = kind;
        if (kind == A_E_NONE || kind == A_E_RVALUE || kind == A_LIST_NONE || kind == A_Z_NONE || kind == A_D_NONE) want_v = 0;
        if (kind == A_LIST_TWO) want_v = v * 101;
        if (!e.built || e.p != p || e.type != obj_type_of(kind))
        {
            c.violate("D01", "wrong-object", "the object was not built in the returned memory");
            return false;
        }
        if (e.kind != want_kind)
        {
            c.violate("D01", "argument-type", strf("arguments of kind %d arrived as kind %d (type or value category changed)", kind, e.kind));
            return false;
        }
        if (e.value != want_v)
        {
            c.violate("D01", "argument-value", strf("the object was built from value %d, %d was passed", e.value, want_v));
            return false;
        }
        ArgReport w{v, v + 1, v, v, 0, 0};
        if (kind == A_RVALUE || kind == A_BYVAL_R || kind == A_E_RVALUE) w.a = -1, w.moves = 1;
        if (kind == A_MIXED) w.b = -1, w.moves = 1;
        if (kind == A_MOVE_ONLY) w.m = -1;
        if (kind == A_INT_REF) w.i = v + 1;
        if (kind == A_BYVAL_L) w.copies = 1;
        if (r.a != w.a || r.b != w.b || r.i != w.i || r.m != w.m)
        {
            c.violate("D01", "caller-objects", strf("the caller's objects are %d %d %d %d afterwards, expected %d %d %d %d", r.a, r.b, r.i, r.m, w.a, w.b, w.i, w.m));
            return false;
        }
        if (r.copies != w.copies || r.moves != w.moves)
        {
            c.violate("D01", "extra-copies", strf("%d copies and %d moves of the arguments, expected %d and %d", r.copies, r.moves, w.copies, w.moves));
            return false;
        }
        return true;
    }
    void remember(unsigned char *p, int kind, int s, size_t ev0)
    {
        const int t = obj_type_of(kind);
        if (c.on("D01"))
        {
            if (ad(p) % obj_align(t)) return c.violate("D01", "misaligned", "the object is not aligned for its type");
            if (overlap(p, obj_size(t))) return c.violate("D01", "overlap", "the object overlaps live memory");
        }
        else if (overlap(p, obj_size(t)))
            return c.diverge("overlap");
        objs.push_back({p, t, g_ev.size() > ev0 ? g_ev[ev0].value : 0, slot[s].res});
    }
    void create(const Op &o, bool build)
    {
        int s = some_slot(o.a[0]);
        if (s < 0) return;
        const int kind = int(uint64_t(o.a[1]) % kArgKinds), v = int(o.a[2]), r = slot[s].res, type = obj_type_of(kind);
        const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
        ArgReport rep{};
        unsigned char *p = nullptr;
        nest = o.a[4];
        in_use.push_back(s);
        int t = guarded([&] {
            if (!build)
                p = static_cast<unsigned char *>(api(s).new_object(slot[s].mem, kind, v, &rep));
            else
                p = static_cast<unsigned char *>(api(s).objects(slot[s].mem, type, 1));
        });
        in_use.pop_back();
        if (c.stop || !ok(t, "creating an object")) return;
        c.ev(build ? "build" : "new", s, kind, v, p != nullptr);
        count(p ? "result:object" : "result:null");
        answers.push_back(p ? ad(p) - ad(arena_base()) : SIZE_MAX);
        if (c.on("D01"))
        {
            // the resource's answer decides
            bool failed = direct(r) ? !g_heap.calls.empty() && g_heap.calls.size() > calls0 && !g_heap.calls.back().p : r == 4 ? true : r >= 6 ? g_heap.calls.size() > calls0 && !g_heap.calls.back().p : !p;
            if (!check_source("D01", r, calls0, p, obj_size(type), obj_align(type), true)) return;
            if (failed != (p == nullptr)) return c.violate("D01", "null-iff-failed", "the result does not match the resource's answer");
        }
        if (!p)
        {
            expect_events(ev0, 0, "a failed creation");
            return;
        }
        if (build)
        {
            if (!expect_events(ev0, 0, "allocating raw memory")) return;
            nest = o.a[4];
            in_use.push_back(s);
            int t2 = guarded([&] { api(s).construct(slot[s].mem, kind, v, p, &rep); });
            in_use.pop_back();
            if (c.stop || !ok(t2, "constructing an object")) return;
        }
        if (c.on("D01") && !check_built(ev0, p, kind, v, rep)) return;
        remember(p, kind, s, ev0);
        c.nontrivial = true;
    }
    void remove(size_t i, int64_t a, int64_t nested = 0)
    {
        Obj b = objs[i];
        int s = slot_for(b.res, a);
        if (s < 0) return;
        objs.erase(objs.begin() + long(i));
        const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
        nest = nested;
        in_use.push_back(s);
        int t = guarded([&] { api(s).delete_object(slot[s].mem, b.type, b.p); });
        in_use.pop_back();
        nest = 0;
        if (c.stop || !ok(t, "deleting an object")) return;
        c.ev("delete", s, b.type, b.value, int64_t(g_ev.size() - ev0));
        if (c.on("D01"))
        {
            if (!expect_events(ev0, 1, "deleting one object")) return;
            const Ev &e = g_ev[ev0];
            if (e.built || e.p != b.p || e.type != b.type) return c.violate("D01", "wrong-destructor", "not the deleted object's destructor ran");
            if (e.value != b.value) return c.violate("D01", "object-changed", "the object's value changed during its life");
            if (!e.memory_live) return c.violate("D01", "destroyed-late", "the destructor ran after the memory was returned");
            check_source("D01", b.res, calls0, b.p, 0, 0, false);
        }
        if (c.on("D02")) check_source("D02", b.res, calls0, b.p, 0, 0, false);
    }
    void nothing(const Op &o, int s)
    {
        saw_impossible = true;
        if (skip_impossible) return;
        count("probe:zero-size");
        const size_t calls0 = g_heap.calls.size();
        void *p = nullptr;
        int t = guarded([&] {
            void *m = slot[s].mem;
            const AllocApi &a = api(s);
            p = o.kind == ARRAY     ? a.allocate(m, 0)
                : o.kind == OBJECTS ? a.objects(m, int(uint64_t(o.a[1]) % kObjTypes), 0)
                : o.a[2] < 0        ? a.bytes_default(m, 0)
                                    : a.bytes(m, 0, size_t{1} << (o.a[2] & 31));
        });
        if (!ok(t, "a request for nothing")) return;
        c.ev("nothing", o.kind, p != nullptr);
        if (p || g_heap.calls.size() != calls0)
        {
            c.violate("A07", "zero-size", strf("a request for no bytes from a buffer resource returned %s and made %zu upstream calls",
                                               p ? "memory" : "null", g_heap.calls.size() - calls0));
            c.diverge("zero-size request answered");
        }
    }
    void raw(const Op &o)
    {
        int s = some_slot(o.a[0]);
        if (s < 0) return;
        const int r = slot[s].res;
        size_t size = 0, align = 0, n = 0, unit = 0;
        Range g{};
        g.res = r;
        g.elem = slot[s].elem;
        int mode = 0;
        int64_t exponent = 0;
        if (o.kind == ARRAY)
        {
            unit = api(s).elem_size;
            align = api(s).elem_align;
            mode = int(uint64_t(o.a[1]) % 7);
            exponent = o.a[3];
            g.api = 0;
        }
        else if (o.kind == OBJECTS)
        {
            g.type = int(uint64_t(o.a[1]) % kObjTypes);
            unit = obj_size(g.type);
            align = obj_align(g.type);
            mode = int(uint64_t(o.a[3]) % 7);
            exponent = o.a[4];
            g.api = 1;
        }
        bool unrepresentable = false;
        if (o.kind != BYTES)
        {
            n = size_t(std::max<int64_t>(1, o.a[2]));
            if (!o.a[2])  // nothing, from a buffer resource
            {
                if (is_buffer(r)) nothing(o, s);
                return;
            }
            if (mode == 1) n = SIZE_MAX / unit + n;                      // just too many
            if (mode == 2) n = SIZE_MAX / unit - n + 1;                  // just representable
            if (mode == 3) n = (size_t{1} << (64 - (n % 7))) / unit + n; // wraps to something small
            static const int exps[] = {8, 15, 16, 17, 31, 32, 33, 36};
            const size_t power = size_t{1} << exps[uint64_t(exponent) % 8];
            if (mode == 4) n += power / unit;  // bytes around a power of two
            if (mode >= 5) n += power;         // likewise the count
            unrepresentable = n > SIZE_MAX / unit;
            size = n * unit;
            if (mode && mode < 4) count(unrepresentable ? "probe:unrepresentable-count" : "probe:huge-request");
        }
        else
        {
            if (!o.a[1])
            {
                if (is_buffer(r)) nothing(o, s);
                return;
            }
            size = size_t(std::max<int64_t>(1, o.a[1]));
            align = o.a[2] < 0 ? alignof(std::max_align_t) : size_t{1} << (o.a[2] & 31);
            g.api = 2;
        }
        const bool huge = unrepresentable || size > kImpossible;
        if (huge)
        {
            saw_impossible = true;
            if (skip_impossible) return;
        }
        const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
        unsigned char *p = nullptr;
        int t = guarded([&] {
            void *m = slot[s].mem;
            const AllocApi &a = api(s);
            p = static_cast<unsigned char *>(o.kind == ARRAY     ? a.allocate(m, n)
                                             : o.kind == OBJECTS ? a.objects(m, g.type, n)
                                             : o.a[2] < 0        ? a.bytes_default(m, size)
                                                                 : a.bytes(m, size, align));
        });
        if (!ok(t, "allocating raw memory")) return;
        c.ev("raw", o.kind, int64_t(n), int64_t(size), p != nullptr);
        if (!huge) answers.push_back(p ? ad(p) - ad(arena_base()) : SIZE_MAX);
        if (g_ev.size() != ev0) return c.violate("D01", "raw-constructs", "allocating raw memory ran a constructor");
        if (unrepresentable)
        {
            if (p)
            {
                c.violate("A07", "too-little", strf("%zu elements of %zu bytes were granted", n, unit));
                return c.diverge("impossible count granted");
            }
            for (size_t i = calls0; i < g_heap.calls.size(); ++i)
                if (g_heap.calls[i].p) return c.violate("A07", "wrapped-request", "an impossible count reached the resource as a small request");
            return;
        }
        if (huge)
        {
            if (p)
            {
                c.violate("A07", "too-little", strf("a request for %zu bytes was granted", size));
                return c.diverge("impossible size granted");
            }
            if (c.on("A07"))
                for (size_t i = calls0; i < g_heap.calls.size(); ++i)
                    if (g_heap.calls[i].size < size) return c.violate("A07", "wrapped-request", "an impossible size reached the resource as a smaller request");
            return;
        }
        if (c.on("A07"))
            for (size_t i = calls0; i < g_heap.calls.size(); ++i)
                if (g_heap.calls[i].alloc && g_heap.calls[i].size < size)
                    return c.violate("A07", "wrapped-request", strf("a request for %zu bytes reached the resource as one for %zu", size, g_heap.calls[i].size));
        const char *P = c.on("D02") ? "D02" : "D01";
        if (c.on(P) && !check_source(P, r, calls0, p, size, align, true)) return;
        if (!p) return;
        if (ad(p) % align) return c.violate("D01", "misaligned", "memory is not aligned for its element type");
        if (overlap(p, size))
        {
            c.violate("D01", "overlap", "memory overlaps live memory");
            return c.diverge("overlap");
        }
        g.l = {p, size, align, false, key += 2};
        store(g.l);
        ranges.push_back(g);
        c.nontrivial = true;
    }
    void unraw(size_t i, int64_t a)
    {
        Range g = ranges[i];
        int s = slot_for(g.res, a);
        if (s < 0) return;
        ranges.erase(ranges.begin() + long(i));
        if (!intact(g.l)) return c.violate("D01", "corrupted", "bytes of live memory changed");
        const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
        int t = guarded([&] {
            void *m = slot[s].mem;
            if (g.api == 2) api(s).free_bytes(m, g.l.p);
            else if (g.api == 1) api(s).free_objects(m, g.type, g.l.p);
            else api(s).deallocate(m, g.l.p);
        });
        if (!ok(t, "deallocating raw memory")) return;
        c.ev("unraw", s, g.api, int64_t(g.l.size));
        if (g_ev.size() != ev0) return c.violate("D01", "raw-destroys", "deallocating raw memory ran a destructor");
        const char *P = c.on("D02") ? "D02" : "D01";
        if (c.on(P)) check_source(P, g.res, calls0, g.l.p, 0, 0, false);
    }
    void put(int s, int elem, int r) { slot[s].set = true, slot[s].elem = elem, slot[s].res = r; }
    void step(const Op &o)
    {
        int s = int(uint64_t(o.a[0]) % kSlots);
        nest = 0;
        switch (o.kind)
        {
            case MAKE:
            case MAKE_DEF:
            {
                if (busy(s)) break;
                drop_slot(s);
                int e = int(uint64_t(o.a[1]) % kElems), r = o.kind == MAKE ? int(uint64_t(o.a[2]) % kRes) : dflt;
                int t = guarded([&] {
                    if (o.kind == MAKE) kAlloc[e].make(slot[s].mem, res[r]);
                    else kAlloc[e].make_default(slot[s].mem);
                });
                if (!ok(t, "making an allocator")) return;
                put(s, e, r);
                c.ev("make", s, e, r);
                break;
            }
            case COPY:
            case CONVERT:
            {
                int from = some_slot(o.a[1]);
                if (from < 0 || from == s || busy(s)) break;
                drop_slot(s);
                const int how = int(uint64_t(o.a[3]) % 8);
                int e = o.kind == COPY ? slot[from].elem : int(uint64_t(o.a[2]) % kElems);
                int t = guarded([&] {
                    if (o.kind == COPY || e == slot[from].elem) kAlloc[e].copy(slot[s].mem, slot[from].mem, how);
                    else kAlloc[e].convert(slot[s].mem, slot[from].elem, slot[from].mem, how);
                });
                if (!ok(t, "copying an allocator")) return;
                put(s, e, slot[from].res);
                c.ev("copy", s, from, e);
                break;
            }
            case NEW: create(o, false); break;
            case BUILD: create(o, true); break;
            case DELETE:
                if (!objs.empty()) remove(size_t(o.a[0]) % objs.size(), o.a[1], o.a[4]);
                break;
            case DELETE_NULL:
            {
                int q = some_slot(o.a[0]);
                if (q < 0) break;
                const size_t calls0 = g_heap.calls.size(), ev0 = g_ev.size();
                int t = guarded([&] { api(q).delete_object(slot[q].mem, int(uint64_t(o.a[1]) % kObjTypes), nullptr); });
                if (!ok(t, "deleting null")) return;
                if (g_ev.size() != ev0 || g_heap.calls.size() != calls0)
                    return c.violate("D01", "delete-null", "deleting null did something");
                break;
            }
            case ARRAY: case OBJECTS: case BYTES: raw(o); break;
            case FREE:
                if (!ranges.empty()) unraw(size_t(o.a[0]) % ranges.size(), o.a[1]);
                break;
            case SET_DEFAULT:
                dflt = int(uint64_t(o.a[0]) % kRes);
                unit_a().set(res[dflt]);
                break;
            case FAIL:
            {
                int owner = int(uint64_t(o.a[0]) % 7);
                g_heap.fail_mask[owner ? owner : -1] = uint64_t(o.a[1]);
                break;
            }
        }
    }
    void go()
    {
        // some allocators to begin with
        for (int i = 0; i < 3; ++i)
        {
            int r = int((plan.seed >> (8 * i)) % kRes);
            int t = guarded([&] { kAlloc[i].make(slot[i].mem, res[r]); });
            if (!ok(t, "making an allocator")) return;
            put(i, i, r);
        }
        while (next_op < plan.ops.size())
        {
            if (c.stop) return;
            const Op &o = plan.ops[next_op++];
            as_thread(o.thr % 6);
            step(o);
            if (c.stop) return;
            int t = guarded([&] { check_identity(next_op >= plan.ops.size() || (&o - &plan.ops[0]) % 10 == 3); });
            if (!ok(t, "comparing allocators")) return;
            uint64_t h = objs.size();
            for (int i = 0; i < kSlots; ++i) h = mix(h, slot[i].set ? uint64_t(slot[i].elem * 16 + slot[i].res) : 99);
            for (auto &x : objs) h = mix(h, uint64_t(x.type * 16 + x.res));
            c.at_state(h);
        }
        if (c.stop) return;
        // give everything back through allocators of another element type
        auto have = [&](int r)
        {
            if (slot_for(r, 0) >= 0) return true;
            const int s = r % kSlots, e = int((plan.seed >> 16) % kElems);
            drop_slot(s);
            int t = guarded([&] { kAlloc[e].make(slot[s].mem, res[r]); });
            if (!ok(t, "making an allocator")) return false;
            put(s, e, r);
            return true;
        };
        for (int i = 0; i < kSlots; ++i) drop_slot(i);
        while (!objs.empty() && !c.stop)
        {
            if (!have(objs.back().res)) return;
            remove(objs.size() - 1, int64_t(plan.seed >> 3));
        }
        while (!ranges.empty() && !c.stop)
        {
            if (!have(ranges[0].res)) return;
            unraw(0, int64_t(plan.seed >> 5));
        }
        if (c.stop) return;
        if (g_heap.live_count(-2))
            c.violate(c.on("D02") ? "D02" : "D01", "leak", strf("%zu blocks were never returned to their resource", g_heap.live_count(-2)));
        int t = guarded([&] {
            ba.destroy(block_obj);
            kMono.destroy(mono_obj);
            for (int i = 6; i < 8; ++i) kMono.destroy(other(i));
            for (int i = 8; i < 10; ++i) ba.destroy(other(i));
            kMono.destroy(other(10));
            ba.destroy(other(11));
            sut::layout(0).destroy(other(12));
        });
        ok(t, "destroying the resources after everything was returned");
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < 3) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
    compare_without_impossible(p, c, r);
    unit_a().set(unit_a().system());
    c.put(g_heap.calls.size());
    g_run = nullptr;
}
}  // namespace
extern "C" void sim_built(void *p, int type, int kind, int value)
{
    g_ev.push_back({true, p, type, kind, value, g_run && g_run->live_memory(p, obj_size(type))});
    if (g_run) g_run->inside(p, type);
}
extern "C" void sim_destroyed(void *p, int type, int value)
{
    g_ev.push_back({false, p, type, 0, value, g_run && g_run->live_memory(p, obj_size(type))});
    if (g_run) g_run->inside(p, type);
}
namespace sim
{
const World g_world = {"alloc", kNames, kKinds, gen, exec};
}

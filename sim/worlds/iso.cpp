// World: threads that each use objects of their own.  Every object's program is
// first run alone; then all of them run together under a seeded schedule, and
// each object must see exactly what it saw alone.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    ACQUIRE,    // allocate / start / make           a0 cell, a1.. what, a4 time passed
    GIVE_BACK,  // deallocate / destroy
    CLEAR,      // release / reset / set
    INSPECT,
    ACROSS,     // move, assign, swap, compare
    UNWIND,     // locals left by an exception
    kKinds
};
const char *const kNames[] = {"acquire", "give_back", "clear", "inspect", "across", "unwind"};
enum What
{
    W_BLOCK,
    W_MONO,
    W_ALLOC,
    W_TIMER,
    W_PIMPL,
    W_SEQ,  // arrays built and elements visited
    kWhats
};
enum Cfg
{
    THREADS,
    PER,   // cells per thread
    DEN,
    PCT,
    REUSE,
    TIGHT, // objects of different threads right next to each other
    CELLS, // then 5 numbers per cell: what, variant, size, upstream, failures
};
constexpr int kMaxThreads = 4, kPer = 3, kCellNums = 5;

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    const int nt = int(r.range(2, kMaxThreads)), per = int(r.range(1, kPer));
    static const int dens[] = {2, 3, 5, 9, 20, 60, 200};
    p.cfg = {nt, per, r.pick(dens), r.chance(1, 4), r.chance(1, 3), r.chance(1, 2)};
    // mostly the same kind of object everywhere: what could be shared, is
    const int what = int(r.below(kWhats)), variant = int(r.below(1000));
    const bool uniform = r.chance(3, 4), same = r.chance(3, 4);
    for (int i = 0; i < nt * per; ++i)
    {
        p.cfg.push_back(uniform ? what : int64_t(r.below(kWhats)));
        p.cfg.push_back(same ? variant : int64_t(r.below(1000)));
        p.cfg.push_back(r.range(0, 400));
        p.cfg.push_back(int64_t(r.below(8)));
        p.cfg.push_back(int64_t(r.next() & r.next() & r.next() & 0xffff));
    }
    const int n = int(r.range(2, 9));
    for (int t = 0; t < nt; ++t)
        for (int i = 0; i < n * per; ++i)
        {
            Op o;
            o.thr = t;
            const unsigned w = unsigned(r.below(16));
            o.kind = w < 7 ? ACQUIRE : w < 10 ? GIVE_BACK : w < 11 ? CLEAR : w < 13 ? INSPECT : w < 15 ? ACROSS : UNWIND;
            o.a[0] = int64_t(r.below(uint64_t(per)));
            o.a[1] = r.range(0, 999);
            o.a[2] = r.range(0, 999);
            o.a[3] = r.range(0, 999);
            o.a[4] = r.range(0, 5000);
            p.ops.push_back(o);
        }
    over_and_over(p, r, 400);
    return p;
}

struct Got
{
    unsigned char *p;
    size_t size;
    int how;
    uint64_t key;
};
struct Cell
{
    int what = -1, variant = 0, id = 0;
    size_t size = 0;
    int up = 0;
    uint64_t fail = 0;
    unsigned char *mem = nullptr, *buf = nullptr;  // the object and its buffer
    unsigned char *upmem = nullptr;
    size_t stride = 0;
    // state
    Res *res = nullptr;
    std::vector<Got> got;
    std::vector<void *> upblocks;
    int slot[3] = {0, 0, 0};
    int64_t now = 0;
    int64_t next_token = 1;
    uint64_t serial = 0;
    bool dead = false;
    int64_t objects = 0, throws = -1;  // which operation on an element throws
    std::vector<int64_t> trace;
    void note(int tag, int64_t v = 0)
    {
        trace.push_back(tag);
        trace.push_back(v);
    }
};


Cell *g_cur_cell[8];
Cell *here() { return g_cur_cell[self_thread() + 1]; }

struct Run
{
    const Plan &plan;
    Ctx &c;
    int nt, per;
    Cell cell[kMaxThreads * kPer];
    unsigned char *obj_end = nullptr;

    Run(const Plan &p, Ctx &x)
        : plan(p), c(x), nt(int(std::min<int64_t>(std::max<int64_t>(p.cfg[THREADS], 1), kMaxThreads))),
          per(int(std::min<int64_t>(std::max<int64_t>(p.cfg[PER], 1), kPer)))
    {
        unsigned char *at = arena_base() + kObjOff + 4096;
        unsigned char *bufs = arena_base() + kObjOff + (size_t{1} << 22);
        unsigned char *ups = arena_base() + kObjOff + (size_t{2} << 22);
        const bool tight = p.cfg[TIGHT];
        for (int i = 0; i < nt * per; ++i)
        {
            // neighbours in memory belong to different threads
            Cell &k = cell[(i % nt) * per + i / nt];
            const size_t b = size_t(CELLS) + size_t((i % nt) * per + i / nt) * kCellNums;
            auto cfg = [&](size_t j) { return b + j < p.cfg.size() ? p.cfg[b + j] : 0; };
            k.id = (i % nt) * per + i / nt;
            k.what = int(uint64_t(cfg(0)) % kWhats);
            k.variant = int(uint64_t(cfg(1)) % 1000);
            k.size = size_t(uint64_t(cfg(2)) % 512);
            k.up = int(uint64_t(cfg(3)) % 8);
            k.fail = uint64_t(cfg(4));
            size_t os = 0, oa = 1;
            int slots = 1;
            switch (k.what)
            {
                case W_BLOCK:
                    os = bl(k).obj_size;
                    oa = bl(k).obj_align;
                    break;
                case W_MONO:
                    os = kMono.obj_size;
                    oa = kMono.obj_align;
                    break;
                case W_ALLOC:
                    os = kAlloc[k.variant % kElems].obj_size;
                    oa = kAlloc[k.variant % kElems].obj_align;
                    slots = 3;
                    break;
                case W_TIMER:
                    os = ti(k).obj_size;
                    oa = ti(k).obj_align;
                    slots = 3;
                    break;
                case W_PIMPL:
                    os = pi(k).size;
                    oa = pi(k).align;
                    slots = 3;
                    break;
                default: break;
            }
            at = reinterpret_cast<unsigned char *>(align_up(ad(at), tight ? oa : 64));
            k.mem = at;
            k.stride = os;
            at += os * size_t(slots) + (tight ? 0 : 64);
            k.buf = bufs + (tight ? 0 : size_t(k.variant % 64));
            bufs = k.buf + std::max<size_t>(k.size, 1) + (tight ? 0 : 128);
            k.upmem = ups;
            ups += 64;
        }
        obj_end = at;
    }
    static const BlockApi &bl(const Cell &k) { return sut::layout(k.variant % kSmallLayouts); }
    static const TimerApi &ti(const Cell &k) { return kTimer[1 + k.variant % (kTimers - 1)]; }
    static const PimplApi &pi(const Cell &k) { return kWrapped[k.variant % kPimpls]; }

    int owner(const Cell &k) const { return k.up == 0 || k.up == 1 ? -1 : 10 + k.id; }
    unsigned char *slot_at(const Cell &k, int s) const { return k.mem + k.stride * size_t(s); }

    void reset_cell(Cell &k)
    {
        k.res = nullptr;
        k.got.clear();
        k.upblocks.clear();
        k.slot[0] = k.slot[1] = k.slot[2] = 0;
        k.now = 1000 + k.id;
        k.next_token = 1;
        k.serial = 0;
        k.dead = false;
        k.throws = -1;
        k.trace.clear();
    }
    // one call into the library on behalf of a cell
    template <class F>
    bool call(Cell &k, F &&f)
    {
        Cell *&cur = g_cur_cell[self_thread() + 1];
        Cell *prev = cur;
        cur = &k;
        const size_t mark = g_heap.calls.size();
        const int thr = self_thread();
        const int trap = guarded(f);
        g_cur_cell[thr + 1] = prev;
        if (trap)
        {
            k.note(900, trap);
            k.dead = true;
            return false;
        }
        for (size_t i = mark; i < g_heap.calls.size(); ++i)
        {
            const Call &x = g_heap.calls[i];
            if (x.thr != thr) continue;
            k.note(x.alloc ? 100 : 101, x.owner == -1 ? -1 : x.owner == 10 + k.id ? 1 : 77);
            if (x.alloc)
            {
                k.note(102, int64_t(x.size));
                k.note(103, int64_t(x.align));
                k.note(104, x.p != nullptr);
                k.upblocks.push_back(x.p);
            }
            else
            {
                int64_t at = -1;
                for (size_t j = 0; j < k.upblocks.size(); ++j)
                    if (k.upblocks[j] == x.p) at = int64_t(j);
                k.note(105, at);
                k.note(106, x.bad);
            }
        }
        return true;
    }
    int64_t where(const Cell &k, const void *p) const
    {
        if (!p) return -1;
        auto *q = static_cast<const unsigned char *>(p);
        if (q >= k.buf && q < k.buf + std::max<size_t>(k.size, 1)) return q - k.buf;
        for (size_t j = k.upblocks.size(); j-- > 0;)
            if (k.upblocks[j] == p) return 100000 + int64_t(j);
        return 999999;
    }
    Res *upstream(Cell &k)
    {
        switch (k.up)
        {
            case 0: return unit_a().system();
            case 1: return unit_b().system();
            case 2: return unit_a().null();
            case 3: return k.what == W_ALLOC ? unit_b().null() : nullptr;
            default: return sim_resource_make(k.upmem, 10 + k.id);
        }
    }
    void build(Cell &k)
    {
        if (k.what == W_BLOCK)
        {
            call(k, [&] {
                k.res = k.up == 1 ? bl(k).construct(k.mem, k.size ? k.buf : nullptr, k.size, PTR_DEFAULT, nullptr)
                                  : bl(k).construct(k.mem, k.size ? k.buf : nullptr, k.size, PTR_UP, upstream(k));
            });
        }
        else if (k.what == W_MONO)
        {
            call(k, [&] {
                k.res = k.up == 1 ? kMono.construct(k.mem, k.buf, k.size, PTR_DEFAULT, nullptr)
                                  : kMono.construct(k.mem, k.buf, k.size, PTR_UP, upstream(k));
            });
        }
        else if (k.what == W_ALLOC)
        {
            call(k, [&] {
                if (k.up == 1) kAlloc[k.variant % kElems].make_default(k.mem);
                else kAlloc[k.variant % kElems].make(k.mem, upstream(k));
            });
            k.slot[0] = 1;
        }
    }
    void keep(Cell &k, void *p, size_t n, int how)
    {
        k.note(200, where(k, p));
        if (!p) return;
        Got g{static_cast<unsigned char *>(p), n, how, mix(uint64_t(k.id), ++k.serial)};
        if (how < 40) fill_pattern(g.p, g.size, g.key);
        k.got.push_back(g);
    }
    void give(Cell &k, size_t i)
    {
        Got g = k.got[i];
        k.got.erase(k.got.begin() + long(i));
        if (g.how < 40) k.note(201, check_pattern(g.p, g.size, g.key) < 0);
        if (k.what == W_ALLOC)
        {
            auto &a = kAlloc[k.variant % kElems];
            call(k, [&] {
                if (g.how == 1) a.deallocate(k.mem, g.p);
                else if (g.how == 2) a.free_bytes(k.mem, g.p);
                else if (g.how < 40) a.free_objects(k.mem, g.how - 3, g.p);
                else a.delete_object(k.mem, g.how - 40, g.p);
            });
        }
        else call(k, [&] { res_dealloc(k.res, g.p); });
    }
    void resource_step(Cell &k, const Op &o)
    {
        switch (o.kind)
        {
            case ACQUIRE:
            {
                size_t size = 1 + size_t(o.a[1] % 97), align = size_t{1} << (o.a[2] % 7);
                if (o.a[3] % 16 == 0) size = 300 + size_t(o.a[1]);
                if (o.a[3] % 23 == 0) size = SIZE_MAX - size_t(o.a[1]);
                void *p = nullptr;
                if (o.a[3] % 5 == 0)
                {
                    const int ty = int(o.a[1] % kTypes);
                    size = kTypeSize[ty];
                    if (!call(k, [&] { p = res_alloc_type(k.res, ty); })) return;
                }
                else if (!call(k, [&] { p = res_alloc(k.res, size, align); })) return;
                keep(k, p, size, 0);
                break;
            }
            case GIVE_BACK:
                if (!k.got.empty()) give(k, size_t(o.a[1]) % k.got.size());
                break;
            case CLEAR:
                while (!k.got.empty() && !k.dead) give(k, k.got.size() - 1);
                if (k.dead) return;
                call(k, [&] { k.what == W_BLOCK ? bl(k).release(k.mem) : kMono.release(k.mem); });
                break;
            case INSPECT:
            case ACROSS:
            {
                int64_t v[6] = {};
                call(k, [&] {
                    if (k.what == W_BLOCK)
                    {
                        v[0] = int64_t(bl(k).free_count(k.mem));
                        v[1] = int64_t(bl(k).busy_count(k.mem));
                        v[2] = int64_t(bl(k).size(k.mem));
                        if (v[2])
                        {
                            v[3] = bl(k).in_use(k.mem, 0);
                            v[4] = int64_t(bl(k).next(k.mem, 0));
                        }
                    }
                    else v[2] = int64_t(kMono.size(k.mem));
                    v[5] = res_eq(k.res, k.res) * 4 + res_ne(k.res, k.res) * 2 + res_eq(k.res, unit_a().null());
                });
                for (int64_t x : v) k.note(202, x);
                break;
            }
            default: break;
        }
    }
    void alloc_step(Cell &k, const Op &o)
    {
        auto &a = kAlloc[k.variant % kElems];
        unsigned char *m = k.mem;
        switch (o.kind)
        {
            case ACQUIRE:
            {
                void *p = nullptr;
                size_t n = size_t(o.a[1] % 20);
                if (o.a[2] % 11 == 0) n = SIZE_MAX / 8 + size_t(o.a[1]);
                switch (o.a[3] % 4)
                {
                    case 0:
                        if (call(k, [&] { p = a.allocate(m, n); })) keep(k, p, n * a.elem_size, 1);
                        break;
                    case 1:
                        if (call(k, [&] { p = o.a[2] & 1 ? a.bytes(m, n, 16) : a.bytes_default(m, n); })) keep(k, p, n, 2);
                        break;
                    case 2:
                    {
                        const int ty = int(o.a[2] % kObjTypes);
                        if (call(k, [&] { p = a.objects(m, ty, n); })) keep(k, p, n * obj_size(ty), 3 + ty);
                        break;
                    }
                    default:
                    {
                        const int how = int(o.a[2] % kArgKinds);
                        ArgReport r{};
                        if (call(k, [&] { p = a.new_object(m, how, int(o.a[1] % 50), &r); })) keep(k, p, 0, 40 + obj_type_of(how));
                        for (int x : {r.a, r.b, r.i, r.m, r.copies, r.moves}) k.note(203, x);
                        break;
                    }
                }
                break;
            }
            case GIVE_BACK:
                if (!k.got.empty()) give(k, size_t(o.a[1]) % k.got.size());
                break;
            case CLEAR:
            case INSPECT:
            case ACROSS:
            {
                bool e = false, n = false;
                void *res = nullptr, *res2 = nullptr;
                call(k, [&] {
                    a.copy(slot_at(k, 1), m, int(o.a[1] % 8));
                    a.convert(slot_at(k, 2), int(k.variant % kElems), slot_at(k, 1), int(o.a[2] % 8));
                    e = a.eq(m, int(k.variant % kElems), slot_at(k, 2));
                    n = a.ne(m, int(k.variant % kElems), slot_at(k, 2));
                    res = a.resource(m);
                    res2 = a.resource(slot_at(k, 2));
                    a.destroy(slot_at(k, 1));
                    a.destroy(slot_at(k, 2));
                });
                k.note(204, e * 2 + n);
                k.note(205, res == res2);
                break;
            }
            default: break;
        }
    }
    void timer_step(Cell &k, const Op &o)
    {
        auto &t = ti(k);
        const int s = int(o.a[1] % 3), s2 = int(o.a[2] % 3);
        const int kinds = t.owners ? kCallables : C_OWNER;
        const int kind = int(o.a[3] % kinds);
        const int token = kind <= C_FN_PTR_TMP ? int(-1 - (o.a[2] % kFns)) : int(k.next_token++);
        switch (o.kind)
        {
            case ACQUIRE:
                if (!k.slot[s])
                {
                    if (call(k, [&] { o.a[2] & 1 ? t.start(slot_at(k, s), kind, token) : t.start_by_value(slot_at(k, s), kind, token); })) k.slot[s] = 1;
                }
                else if (k.slot[s] == 1 && call(k, [&] { t.assign_new(slot_at(k, s), kind, token); })) k.slot[s] = 1;
                break;
            case GIVE_BACK:
                if (k.slot[s])
                {
                    k.slot[s] = 0;
                    call(k, [&] { t.destroy(slot_at(k, s)); });
                }
                break;
            case CLEAR:
                if (k.slot[s] == 1) call(k, [&] { t.reset(slot_at(k, s)); });
                break;
            case INSPECT:
                if (k.slot[s] == 1) call(k, [&] { t.read(slot_at(k, s), int(o.a[3] % kTimerValues)); });
                break;
            case ACROSS:
                if (k.slot[s] != 1 || s == s2) break;
                if (!k.slot[s2])
                {
                    if (call(k, [&] { t.move_ctor(slot_at(k, s2), slot_at(k, s)); }))
                    {
                        k.slot[s2] = 1;
                        k.slot[s] = 2;
                    }
                }
                else if (k.slot[s2] == 1 && (o.a[3] & 1))
                    call(k, [&] { t.swap(slot_at(k, s2), slot_at(k, s)); });
                else if (call(k, [&] { t.assign(slot_at(k, s2), slot_at(k, s)); }))
                {
                    k.slot[s2] = 1;
                    k.slot[s] = 2;
                }
                break;
            default: call(k, [&] { t.start_and_throw(kind, token); }); break;
        }
    }
    void pimpl_step(Cell &k, const Op &o)
    {
        auto &p = pi(k);
        const int s = int(o.a[1] % 3), s2 = int(o.a[2] % 3), v = int(o.a[3]);
        unsigned char *a = slot_at(k, s), *b = slot_at(k, s2);
        switch (o.kind)
        {
            case ACQUIRE:
                if (!k.slot[s])
                {
                    int r = 3, after = 0;
                    const bool from = k.slot[s2] != 0;
                    const int how = from ? int(o.a[2] % kPimplMakes) : int(o.a[2] % (P_FWD_MIXED + 1));
                    // an object to copy from, where the holder asks for a bare one
                    if (how >= P_BARE_COPY && how != P_RETURNED) return;
                    if (!call(k, [&] { r = p.make(how, a, b, v, &after); })) return;
                    k.note(206, r);
                    k.note(207, after);
                    if (r == 0) k.slot[s] = 1;
                }
                break;
            case GIVE_BACK:
                if (k.slot[s])
                {
                    k.slot[s] = 0;
                    call(k, [&] { p.destroy(a); });
                }
                break;
            case CLEAR:
                if (k.slot[s]) call(k, [&] { p.set(a, v, v & 1); });
                break;
            case INSPECT:
                if (k.slot[s])
                {
                    int x = 0;
                    call(k, [&] { x = v & 1 ? p.value(a) : p.value_through_get(a); });
                    k.note(208, x);
                }
                break;
            case ACROSS:
                if (k.slot[s] && k.slot[s2] && s != s2)
                {
                    static const int hows[] = {PA_COPY, PA_COPY_NC, PA_MOVE, PA_TEMP, PA_THROUGH_FUNCTION, PA_SWAP};
                    int r = 0;
                    bool self = false;
                    call(k, [&] { r = p.assign(hows[v % 6], a, b, v, &self); });
                    k.note(209, r * 2 + self);
                }
                break;
            default:
            {
                int r = 0;
                call(k, [&] { r = p.locals(v & 1, v); });
                k.note(210, r);
                break;
            }
        }
    }
    void seq_step(Cell &k, const Op &o)
    {
        auto &a = kSeq[k.variant % kSeqTypes];
        SeqReport r;
        int rc = 0;
        k.objects = 0;
        k.throws = o.kind == UNWIND || o.kind == CLEAR ? 1 + o.a[2] % 12 : -1;
        if (!call(k, [&] { rc = a.run(int(o.a[1] % kSeqForms), int(o.a[3]), r); })) return;
        k.throws = -1;
        k.note(211, rc * 2 + r.done);
        for (int i = 0; i < r.n; ++i) k.note(212, r.got[i]);
        for (int x : {r.n, r.sources_changed, r.sources_kept, r.visitor_copied, r.how}) k.note(213, x);
        k.note(214, r.sizes_differ * 2 + r.calls_lost);
    }
    void step(Cell &k, const Op &o)
    {
        if (k.dead) return;
        k.note(1, o.kind);
        k.now += o.a[4] < 0 ? 0 : o.a[4];
        switch (k.what)
        {
            case W_BLOCK:
            case W_MONO: resource_step(k, o); break;
            case W_ALLOC: alloc_step(k, o); break;
            case W_TIMER: timer_step(k, o); break;
            case W_SEQ: seq_step(k, o); break;
            default: pimpl_step(k, o); break;
        }
    }
    void finish(Cell &k)
    {
        if (k.dead) return;
        k.note(2);
        while (!k.got.empty() && !k.dead) give(k, k.got.size() - 1);
        if (k.dead) return;
        if (k.what == W_BLOCK) call(k, [&] { bl(k).destroy(k.mem); });
        else if (k.what == W_MONO) call(k, [&] { kMono.destroy(k.mem); });
        else if (k.what == W_ALLOC) call(k, [&] { kAlloc[k.variant % kElems].destroy(k.mem); });
        else if (k.what != W_SEQ)
            for (int s = 0; s < 3 && !k.dead; ++s)
                if (k.slot[s]) call(k, [&] { k.what == W_TIMER ? ti(k).destroy(slot_at(k, s)) : pi(k).destroy(slot_at(k, s)); });
    }
    void fresh_world()
    {
        fresh_program();
        g_heap.reset();
        g_heap.reuse = plan.cfg[REUSE];
        fill_garbage(arena_base() + kObjOff, size_t(obj_end - (arena_base() + kObjOff)), 5);
        fill_garbage(arena_base() + kObjOff + (size_t{1} << 22), 16384, 6);
        fill_garbage(arena_base() + kObjOff + (size_t{2} << 22), 1024, 7);
        for (int i = 0; i < nt * per; ++i)
        {
            reset_cell(cell[i]);
            g_heap.fail_mask[10 + i] = cell[i].fail;
        }
    }
    Cell &cell_of(const Op &o) { return cell[o.thr * per + int(uint64_t(o.a[0]) % uint64_t(per))]; }
    void go()
    {
        std::vector<std::vector<int64_t>> alone;
        std::vector<bool> died;
        for (int i = 0; i < nt * per; ++i)
        {
            fresh_world();
            Cell &k = cell[i];
            build(k);
            for (auto &o : plan.ops)
                if (o.thr >= 0 && o.thr < nt && &cell_of(o) == &k) step(k, o);
            finish(k);
            if (k.dead) return c.diverge("an object fails on its own");
            alone.push_back(k.trace);
            c.put(k.trace.size());
        }
        fresh_world();
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < nt; ++t)
            bodies.push_back([this, t] {
                for (int i = 0; i < per; ++i) build(cell[t * per + i]);
                for (auto &o : plan.ops)
                    if (o.thr == t) step(cell_of(o), o);
                for (int i = 0; i < per; ++i) finish(cell[t * per + i]);
            });
        ThreadOpts to;
        to.races = true;
        to.num = 1;
        to.den = unsigned(std::max<int64_t>(plan.cfg[DEN], 1));
        to.pct = plan.cfg[PCT];
        run_threads(plan, c, bodies, to);
        if (!race_report().empty()) return c.violate("C04", "race", race_report());
        if (deadlocked()) return c.violate("C04", "stuck", "threads that share nothing wait for each other for ever");
        static const char *const names[] = {"block resource", "monotonic resource", "allocator", "timer", "wrapped object", "array"};
        for (int i = 0; i < nt * per; ++i)
        {
            Cell &k = cell[i];
            const auto &a = alone[size_t(i)], &b = k.trace;
            for (int64_t v : b) c.put(uint64_t(v));
            if (c.verbose)
            {
                std::string s;
                for (size_t j = 0; j < b.size(); j += 2) s += strf(" %lld:%lld", (long long)b[j], (long long)b[j + 1]);
                printf("  %s of thread %d:%s\n", names[k.what], i / per, s.c_str());
            }
            count("probe:objects-compared");
            if (a == b) continue;
            size_t j = 0;
            while (j < a.size() && j < b.size() && a[j] == b[j]) ++j;
            j &= ~size_t{1};
            int opno = -1;
            for (size_t q = 0; q <= j && q < a.size(); q += 2) opno += a[q] == 1;
            return c.violate("C04", "interference",
                             strf("a %s of thread %d saw something else than when running alone, in its operation %d (observation %lld:%lld, alone %lld:%lld)",
                                  names[k.what], i / per, opno, j < b.size() ? (long long)b[j] : -1, j < b.size() ? (long long)b[j + 1] : -1,
                                  j < a.size() ? (long long)a[j] : -1, j < a.size() ? (long long)a[j + 1] : -1));
        }
        c.nontrivial = c.recorded.size() > 2 || !plan.free_sched;
        uint64_t h = 0;
        for (auto &s : c.recorded) h = mix(h, s.step * 8 + uint64_t(s.to));
        c.at_state(h);
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < CELLS) return c.diverge("bad plan");
    Run r(p, c);
    r.go();
}
}  // namespace

extern "C" {
void sim_built(void *, int type, int kind, int value)
{
    if (Cell *k = here())
    {
        k->note(300, type * 100 + kind);
        k->note(301, value);
    }
}
void sim_destroyed(void *, int type, int value)
{
    if (Cell *k = here())
    {
        k->note(302, type);
        k->note(303, value);
    }
}
int64_t sim_clock_now(int)
{
    Cell *k = here();
    yield_point();
    return k ? k->now++ : 0;
}
void sim_clock_mark() {}
void sim_timer_value(int which, int64_t v)
{
    if (Cell *k = here())
    {
        k->note(310, which);
        k->note(311, v);
    }
}
void sim_timer_fired(int token, const void *)
{
    if (Cell *k = here()) k->note(312, token);
}
void sim_fn_event(int what, const void *, int token)
{
    if (Cell *k = here())
    {
        k->note(320, what);
        k->note(321, token);
    }
}
int sim_obj(int what, const void *, const void *, int64_t value, int can_throw)
{
    int r = 0;
    if (Cell *k = here())
    {
        k->note(330, what);
        k->note(331, value);
        if (can_throw && k->throws > 0 && ++k->objects == k->throws) r = 1 + int(value & 1);
    }
    yield_point();
    return r;
}
void sim_expect(const void *, int, int64_t) {}
int sim_visit(const void *, int category, int how, int64_t value)
{
    int r = 0;
    if (Cell *k = here())
    {
        k->note(340, category * 8 + how);
        k->note(341, value);
        if (k->throws > 0 && ++k->objects == k->throws) r = 1;
    }
    yield_point();
    return r;
}
}
namespace sim
{
const World g_world = {"isolation", kNames, kKinds, gen, exec};
}

// World: one program run on in-place pimpl wrappers and then on the wrapped
// type itself, with the same operations throwing at the same points.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    MAKE,     // a0 slot, a1 how, a2 source slot, a3 value
    ASSIGN,   // a0 slot, a1 how, a2 source slot, a3 value
    DESTROY,  // a0 slot
    SET,      // a0 slot, a1 value, a2 through get()
    VEC,      // a0 what, a1 slot, a2 position, a3 value
    LOCALS,   // a0 throw at the end, a1 value
    BARE,     // a0 bare slot, a1 value: (re)build a bare object
    THROW,    // a0 the how-many-th throwing operation from now, a1 after its effect, a2 what
    PLAIN,    // a0 type, a1 how, a2 then, a3 value: ordinary types in dirty memory
    kKinds
};
const char *const kNames[] = {"make", "assign", "destroy", "set", "vector", "locals", "bare", "throw", "plain"};
enum Cfg
{
    TYPE,
    GARBAGE,
    kCfg
};
constexpr int kSlots = 5;
constexpr int kBareSlots = 3;

Plan gen(uint64_t seed, const std::string &)
{
    Rng r(seed);
    Plan p;
    p.cfg = {int64_t(r.below(kPimpls)), int64_t(r.below(1000))};
    const int n = int(r.range(4, 40));
    const bool faults = !r.chance(1, 5);
    const unsigned fault_rate = unsigned(r.range(3, 10));
    auto slot = [&] { return int64_t(r.below(kSlots)); };
    for (int i = 0; i < n; ++i)
    {
        Op o;
        if (faults && r.chance(1, fault_rate))
            p.ops.push_back({0, THROW, {int64_t(r.below(r.chance(1, 3) ? 9 : 3)), r.chance(1, 2), int64_t(r.below(4)), 0, 0}});
        switch (r.below(21))
        {
            default: o = {0, MAKE, {slot(), int64_t(r.below(kPimplMakes)), slot(), r.range(1, 90), 0}}; break;
            case 7: case 8: case 9: case 10: case 11:
                o = {0, ASSIGN, {slot(), int64_t(r.below(kPimplAssigns)), slot(), r.range(1, 90), 0}};
                if (r.chance(1, 5)) o.a[2] = o.a[0];
                break;
            case 12: o = {0, DESTROY, {slot(), 0, 0, 0, 0}}; break;
            case 13: o = {0, r.chance(1, 3) ? LOCALS : SET, {slot(), r.range(1, 90), r.chance(1, 2), 0, 0}}; break;
            case 14: case 15: case 16: case 17: case 18:
                o = {0, VEC, {int64_t(r.below(kPimplVecs)), slot(), r.range(0, 8), r.range(1, 90), 0}};
                break;
            case 20:
                o = {0, PLAIN, {int64_t(r.below(kPlains)), int64_t(r.below(kPlainHows)), int64_t(r.below(kPlainThens)), r.range(0, 60), 0}};
                break;
            case 19: o = {0, BARE, {int64_t(r.below(kBareSlots)), r.range(1, 90), 0, 0, 0}}; break;
        }
        p.ops.push_back(o);
    }
    over_and_over(p, r, 200);
    hand_over(p, r);
    return p;
}

struct Event
{
    int what, self, other, op;
    int64_t value;
    int thrown;
    bool operator==(const Event &e) const
    {
        return what == e.what && self == e.self && other == e.other && op == e.op && value == e.value && thrown == e.thrown;
    }
};
const char *const kWhat[] = {"default construction", "construction from int", "construction from two ints",
                             "construction from a list", "construction from an lvalue", "construction from a const lvalue",
                             "construction from an rvalue", "construction from mixed arguments",
                             "construction from const references", "copy construction", "move construction", "copy assignment",
                             "move assignment", "destruction"};
std::string show(const Event &e)
{
    return strf("%s of object %d%s%s value %lld%s", kWhat[e.what], e.self, e.other >= 0 ? " from object " : "",
                e.other >= 0 ? strf("%d", e.other).c_str() : "", (long long)e.value, e.thrown ? " (throws)" : "");
}
struct Outcome
{
    int op, rc, aux;
    std::vector<int64_t> values;
};
struct Pass;
Pass *g_pass;

// The program, run on one kind of holder.
struct Pass
{
    const Plan &plan;
    const PimplApi &a;
    const PimplApi &bare;
    bool wrapped;
    unsigned char *mem[kSlots];
    unsigned char *bmem[kBareSlots];
    bool full[kSlots] = {};
    int held[kSlots] = {};  // which object a wrapper was made with
    bool bfull[kBareSlots] = {};
    std::vector<Event> events;
    std::vector<Outcome> outcomes;
    std::map<const void *, int> live;
    int next_id = 0, op = 0, fresh = -1;
    long throw_in = -1;
    int throw_how = 1;
    std::vector<int64_t> seen;
    int threw = 0;        // in the current operation: what must reach the caller
    uint64_t throws = 0;
    int died = 0;
    std::string broken_cls, broken;

    Pass(const Plan &p, bool w, int type)
        : plan(p), a(w ? kWrapped[type] : kBare[type]), bare(kBare[type]), wrapped(w)
    {
        unsigned char *base = arena_base() + kObjOff + (w ? 0 : 1 << 16);
        for (int i = 0; i < kSlots; ++i)
        {
            mem[i] = base + i * 1024;
            fill_garbage(mem[i], 512, uint64_t(p.cfg[GARBAGE]) + uint64_t(i));
            put_guards(mem[i], a.size);
        }
        for (int i = 0; i < kBareSlots; ++i) bmem[i] = base + 16384 + i * 1024;
    }
    void breaks(const char *cls, const std::string &why)
    {
        if (!broken.empty()) return;
        broken_cls = cls;
        broken = strf("operation %d: ", op) + why;
    }
    int on_obj(int what, const void *self, const void *other, int64_t value, int can_throw)
    {
        int thrown = 0;
        if (can_throw && throw_in >= 0 && throw_in-- == 0)
        {
            thrown = throw_how;
            threw = 1 + (throw_how & ~3);
            ++throws;
        }
        Event e{what, -1, -1, op, value, thrown};
        auto it = live.find(self);
        if (other)
        {
            auto ot = live.find(other);
            if (ot == live.end()) breaks("dead-source", strf("%s reads something that is not a live object", kWhat[what]));
            else e.other = ot->second;
        }
        if (what == O_LIST)
        {
        }
        else if (what == O_DESTROY)
        {
            if (it == live.end()) breaks("destroyed-twice", "a destructor ran on something that is not a live object");
            else
            {
                e.self = it->second;
                live.erase(it);
            }
        }
        else if (what == O_COPY_ASSIGN || what == O_MOVE_ASSIGN)
        {
            if (it == live.end()) breaks("dead-target", "an assignment to something that is not a live object");
            else e.self = it->second;
        }
        else
        {
            if (it != live.end()) breaks("built-twice", strf("%s on top of a live object", kWhat[what]));
            if (ad(self) % a.value_align) breaks("misaligned", "an object was built at a misaligned address");
            e.self = next_id++;
            if (!thrown) live[self] = e.self;
        }
        events.push_back(e);
        return thrown;
    }
    // a holder must give access to one live object inside its own storage
    void check_holder(const void *hp, const char *what)
    {
        const void *t = a.address(hp);
        if (ad(t) < ad(hp) || ad(t) + a.value_size > ad(hp) + a.size)
            return breaks("outside", strf("%s: the object is not inside its holder", what));
        if (ad(t) % a.value_align) breaks("misaligned", strf("%s: the object is misaligned", what));
        int n = 0;
        for (auto it = live.lower_bound(hp); it != live.end() && ad(it->first) < ad(hp) + a.size; ++it) ++n;
        if (n != 1 || !live.count(t)) breaks("not-one", strf("%s holds %d live objects", what, n));
    }
    void settle(int rc, int aux)
    {
        Outcome o{op, rc, aux, seen};
        size_t want = 0;
        for (int i = 0; i < kSlots; ++i)
            if (full[i])
            {
                ++want;
                check_holder(mem[i], "a wrapper");
                if (!broken.empty()) return;
                const int id = live[a.address(mem[i])];
                if (fresh == i) held[i] = id;
                else if (held[i] != id) return breaks("rebuilt", "the object of a wrapper was replaced by another one during its life");
                o.values.push_back(a.value(mem[i]));
                o.values.push_back(a.value_through_get(mem[i]));
                if (!guards_intact(mem[i], a.size)) breaks("outside", "bytes next to a wrapper were overwritten");
            }
        for (size_t i = 0, n = a.vec_size(); i < n; ++i)
        {
            ++want;
            check_holder(a.vec_at(i), "a vector element");
            if (!broken.empty()) return;
            o.values.push_back(a.value(a.vec_at(i)));
        }
        for (int i = 0; i < kBareSlots; ++i)
            if (bfull[i])
            {
                ++want;
                o.values.push_back(bare.value(bmem[i]));
            }
        if (live.size() != want) breaks("unbalanced", strf("%zu objects are alive for %zu holders", live.size(), want));
        if (threw && rc != threw) breaks("swallowed", "an exception thrown by the wrapped object did not reach the caller");
        threw = 0;
        fresh = -1;
        outcomes.push_back(o);
    }
    void step(const Op &o)
    {
        const int s = int(uint64_t(o.a[0]) % kSlots);
        int rc = 0, aux = 0;
        seen.clear();
        switch (o.kind)
        {
            case MAKE:
            {
                const int how = int(uint64_t(o.a[1]) % kPimplMakes);
                const bool from_bare = how == P_BARE_COPY || how == P_BARE_MOVE || how == P_BARE_COPY_IMPLICIT;
                const bool from = how == P_COPY || how == P_COPY_NC || how == P_COPY_CR || how == P_MOVE;
                const int src = int(uint64_t(o.a[2]) % (from_bare ? kBareSlots : kSlots));
                if (full[s] || (from_bare && !bfull[src]) || (from && !full[src])) return;
                if (how == P_BARE_COPY_IMPLICIT) return;  // needs one more step on the bare type
                rc = a.make(how, mem[s], from_bare ? bmem[src] : mem[src], int(o.a[3]), &aux);
                if (rc == 0) full[s] = true, fresh = s;
                break;
            }
            case ASSIGN:
            {
                const int how = int(uint64_t(o.a[1]) % kPimplAssigns);
                const bool from_bare = how == PA_BARE_COPY || how == PA_BARE_MOVE;
                const int src = int(uint64_t(o.a[2]) % (from_bare ? kBareSlots : kSlots));
                if (!full[s] || (from_bare ? !bfull[src] : !full[src])) return;
                bool self = true;
                rc = a.assign(how, mem[s], from_bare ? bmem[src] : mem[src], int(o.a[3]), &self);
                aux = self;
                if (!self && rc == 0) breaks("result", "an assignment does not return its left operand");
                break;
            }
            case DESTROY:
                if (!full[s]) return;
                a.destroy(mem[s]);
                full[s] = false;
                break;
            case SET:
                if (!full[s]) return;
                a.set(mem[s], int(o.a[1]), o.a[2] & 1);
                break;
            case VEC:
            {
                const int what = int(uint64_t(o.a[0]) % kPimplVecs);
                const int sl = int(uint64_t(o.a[1]) % kSlots);
                const size_t n = a.vec_size();
                size_t at = size_t(o.a[2] < 0 ? 0 : o.a[2]);
                const bool slotted = what == PV_PUSH_COPY || what == PV_PUSH_MOVE || what == PV_INSERT || what == PV_TAKE;
                if (slotted && !full[sl]) return;
                if (what == PV_ERASE || what == PV_TAKE || what == PV_ROTATE)
                {
                    if (!n) return;
                    at %= n;
                }
                if (what == PV_INSERT) at %= n + 1;
                if (what == PV_POP && !n) return;
                if (what == PV_RESERVE || what == PV_RESIZE) at %= 16;
                rc = a.vec(what, mem[sl], at, int(o.a[3]));
                break;
            }
            case LOCALS: rc = a.locals(int(o.a[0] & 1), int(o.a[1])); break;
            case BARE:
            {
                const int b = int(uint64_t(o.a[0]) % kBareSlots);
                if (bfull[b])
                {
                    bare.destroy(bmem[b]);
                    bfull[b] = false;
                }
                rc = bare.make(P_FWD_INT, bmem[b], nullptr, int(o.a[1]), &aux);
                bfull[b] = rc == 0;
                break;
            }
            case THROW:
                throw_in = long(uint64_t(o.a[0]) % 16);
                throw_how = (o.a[1] & 1 ? 2 : 1) + 4 * int(uint64_t(o.a[2]) % 4);
                return;
            case PLAIN:
            {
                const PlainApi &pa = (wrapped ? kPlainWrapped : kPlainBare)[uint64_t(o.a[0]) % kPlains];
                unsigned char *m = bmem[0] + 8192, *n = m + 1024;
                for (unsigned char *x : {m, n})
                {
                    fill_garbage(x - 64, 512, uint64_t(plan.cfg[GARBAGE]) + uint64_t(op));
                    put_guards(x, pa.size);
                }
                seen.assign(24, 0);
                pa.run(int(uint64_t(o.a[1]) % kPlainHows), int(uint64_t(o.a[2]) % kPlainThens), m, n, int(uint64_t(o.a[3]) % 61),
                       seen.data());
                if (!guards_intact(m, pa.size) || !guards_intact(n, pa.size)) breaks("outside", "bytes next to a wrapper were overwritten");
                break;
            }
        }
        settle(rc, aux);
    }
    void go()
    {
        g_pass = this;
        as_thread(0);
        died = guarded([&] { a.vec_begin(); });
        for (op = 0; op < int(plan.ops.size()) && !died && broken.empty(); ++op)
        {
            as_thread(plan.ops[size_t(op)].thr % 6);
            died = guarded([&] { step(plan.ops[size_t(op)]); });
        }
        throw_in = -1;
        if (!died && broken.empty())
            died = guarded(
                [&]
                {
                    for (int i = 0; i < kSlots; ++i)
                        if (full[i]) a.destroy(mem[i]);
                    a.vec_end();
                    for (int i = 0; i < kBareSlots; ++i)
                        if (bfull[i]) bare.destroy(bmem[i]);
                });
        if (!died && broken.empty() && !live.empty()) breaks("leaked", strf("%zu objects were never destroyed", live.size()));
        g_pass = nullptr;
    }
};

void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    const int type = int(uint64_t(p.cfg[TYPE]) % kPimpls);
    static const char *const tn[] = {"default construction", "copy construction", "move construction", "copy assignment",
                                     "move assignment", "construction from const T&", "construction from T&&",
                                     "assignment from const T&", "assignment from T&&", "destruction", "swap",
                                     "construction from an int", "construction from mixed arguments", "forwarding nothing"};
    if (c.on("F02"))
        for (int i = 0; i < kTraits; ++i)
            if (kWrapped[type].traits[i] != kBare[type].traits[i])
                return c.violate("F02", "noexcept",
                                 strf("%s is %s for the wrapper of type %d, but not for the wrapped type", tn[i],
                                      kWrapped[type].traits[i] ? "noexcept" : "allowed to throw", type));
    auto room = [&](size_t size, size_t align, size_t vsize, size_t valign, const char *of)
    {
        if (align < valign || size < vsize)
            c.violate("F01", "storage", strf("a wrapper of a type of %zu bytes aligned to %zu has %zu bytes aligned to %zu (%s)", vsize, valign,
                                             size, align, of));
    };
    room(kWrapped[type].size, kWrapped[type].align, kWrapped[type].value_size, kWrapped[type].value_align, "object");
    for (auto &pa : kPlainWrapped) room(pa.size, pa.align, pa.value_size, pa.value_align, "plain");
    if (c.stop) return;
    Pass w(p, true, type), b(p, false, type);
    w.go();
    b.go();
    for (auto &e : w.events)
    {
        c.ev(kWhat[e.what], e.self, e.other, e.value, e.thrown);
        count(e.thrown && (e.thrown & 3) == 1 ? "fault:throw-before-effect" : e.thrown ? "fault:throw-after-effect" : "op:wrapped-operation");
    }
    for (auto &o : w.outcomes)
    {
        c.ev("outcome", o.op, o.rc, o.aux, o.values.empty() ? 0 : o.values[0]);
        for (int64_t v : o.values) c.put(uint64_t(v));
        uint64_t h = uint64_t(type);
        for (int64_t v : o.values) h = mix(h, uint64_t(v < 0 ? 1 : 2));
        c.at_state(mix(h, mix(uint64_t(o.rc), uint64_t(p.ops[size_t(o.op)].kind * 100 + p.ops[size_t(o.op)].a[1]))));
    }
    c.nontrivial = w.events.size() > 3;
    if (b.died || !b.broken.empty()) return c.diverge("the bare program fails: " + b.broken);
    if (w.died)
        return c.violate_any("died", strf("operation %d ended in %s (%s) with wrappers, but not with the wrapped type", w.op,
                                          trap_name(w.died), g_trap_msg));
    if (!w.broken.empty())
    {
        c.violate("F01", w.broken_cls.c_str(), w.broken);
        return;
    }
    if (!c.on("F02")) return;
    for (size_t i = 0; i < std::max(w.events.size(), b.events.size()); ++i)
    {
        if (i >= w.events.size())
            return c.violate("F02", "missing-operation", strf("operation %d: with the wrapped type there is also a %s", b.events[i].op, show(b.events[i]).c_str()));
        if (i >= b.events.size())
            return c.violate("F02", "extra-operation", strf("operation %d: only with wrappers there is a %s", w.events[i].op, show(w.events[i]).c_str()));
        if (!(w.events[i] == b.events[i]))
            return c.violate("F02", "different-operation",
                             strf("operation %d: with wrappers: %s; with the wrapped type: %s", w.events[i].op, show(w.events[i]).c_str(),
                                  show(b.events[i]).c_str()));
    }
    for (size_t i = 0; i < w.outcomes.size() && i < b.outcomes.size(); ++i)
    {
        const Outcome &x = w.outcomes[i], &y = b.outcomes[i];
        if (x.rc != y.rc) return c.violate("F02", "exception", strf("operation %d: outcome %d with wrappers, %d with the wrapped type", x.op, x.rc, y.rc));
        if (x.aux != y.aux) return c.violate("F02", "arguments", strf("operation %d: arguments were treated differently", x.op));
        if (x.values != y.values) return c.violate("F02", "values", strf("after operation %d the values differ", x.op));
    }
}
}  // namespace
extern "C" int sim_obj(int what, const void *self, const void *other, int64_t value, int can_throw)
{
    return g_pass ? g_pass->on_obj(what, self, other, value, can_throw) : 0;
}
namespace sim
{
const World g_world = {"pimpl", kNames, kKinds, gen, exec};
}

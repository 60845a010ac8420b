// World: arrays are built from, and visitors shown, objects that may throw at
// any point.
#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    USE,    // a0 form, a1 value
    THROW,  // the a0-th operation from here on that can throw does; a1 before or after its effect, a2 what
    CALLS,  // visitors: a0 call at which it throws (0: none), a1 bit mask of calls that take the value, a2 what
    kKinds
};
const char *const kNames[] = {"use", "throw", "calls"};
enum Cfg
{
    TYPE,
    kCfg
};

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    p.cfg = {int64_t(r.below(kSeqTypes))};
    const int n = int(r.range(1, 6));
    for (int i = 0; i < n; ++i)
    {
        if (r.chance(1, 2)) p.ops.push_back({int(r.below(3)), THROW, {int64_t(r.chance(1, 2) ? r.below(8) : r.below(r.chance(1, 3) ? 64 : 32)), int64_t(r.below(2)), int64_t(r.below(4)), 0, 0}});
        const bool visits = prop == "J02" ? !r.chance(1, 16) : r.chance(1, 16);
        if (visits) p.ops.push_back({0, CALLS, {int64_t(r.chance(1, 2) ? 0 : r.range(1, r.chance(1, 5) ? 40 : 4)), int64_t(r.below(16)), int64_t(r.below(4)), 0, 0}});
        const int64_t form = visits ? r.range(kSeqBuilds, kSeqForms - 1) : r.range(0, kSeqBuilds - 1);
        p.ops.push_back({int(r.below(3)), USE, {form, r.range(1, 900), 0, 0, 0}});
    }
    over_and_over(p, r, 300);
    return p;
}

struct Shown
{
    const void *at;
    int category;
    int64_t value;
};
struct Run;
Run *g_run;

struct Run
{
    const Plan &plan;
    Ctx &c;
    const SeqApi &a;
    std::map<const void *, int64_t> live;
    std::vector<Shown> expected;
    long throw_in = -1;
    int throw_how = 1, calls = 0, throw_call = 0, throw_what = 0;
    unsigned take_mask = 0;
    int copies = 0;
    int threw = 0;  // what must reach the caller
    bool over = false;
    SeqReport *rep = nullptr;
    const char *P = "J01";

    Run(const Plan &p, Ctx &x) : plan(p), c(x), a(kSeq[uint64_t(p.cfg[TYPE]) % kSeqTypes]) {}
    void breaks(const char *cls, const std::string &why)
    {
        if (!c.stop) c.violate(P, cls, why);
    }
    int on_obj(int what, const void *self, const void *other, int64_t value, int can_throw)
    {
        if (over) return 0;
        int thrown = 0;
        if (can_throw && throw_in >= 0 && throw_in-- == 0)
        {
            thrown = throw_how;
            // a constructor that is called while an exception is on its way must not throw
            threw = 1 + (throw_how & ~3);
            count((thrown & 3) == 1 ? "fault:throw-before-effect" : "fault:throw-after-effect");
        }
        c.ev("object", what, value, thrown);
        if (other && !live.count(other)) breaks("dead-source", "an object is built from something that is not a live object");
        if (what == O_DESTROY)
        {
            if (!live.erase(self)) breaks("destroyed-twice", "a destructor ran on something that is not a live object");
            return 0;
        }
        if (live.count(self)) breaks("built-twice", "an object was built on top of a live one");
        if (ad(self) % a.align) breaks("misaligned", "an object was built at a misaligned address");
        if (what == O_COPY) ++copies;
        if (!thrown) live[self] = value;
        return thrown;
    }
    int on_visit(const void *at, int category, int how, int64_t value)
    {
        if (over) return 0;
        c.ev("visit", category, how, value);
        const int k = calls++;
        static const char *const cat[] = {"an lvalue", "a const lvalue", "an rvalue", "a const rvalue"};
        if (size_t(k) >= expected.size()) breaks("extra-call", strf("call %d of the callable, for %zu elements", k + 1, expected.size()));
        else
        {
            const Shown &e = expected[size_t(k)];
            if (threw) breaks("goes-on", "the callable was called again after it had thrown");
            if (e.at && e.at != at) breaks("other-object", strf("call %d: the callable was not given element %d itself", k + 1, k + 1));
            if (value != e.value) breaks("value", strf("call %d: the callable saw %lld and not %lld", k + 1, (long long)value, (long long)e.value));
            if (category != e.category) breaks("category", strf("call %d: the element arrived as %s and not as %s", k + 1, cat[category & 3], cat[e.category & 3]));
            if (!live.count(at)) breaks("dead", strf("call %d: the element is not a live object", k + 1));
            if (rep->how < 0 ? how == 1 : how != rep->how) breaks("callable", strf("call %d: the callable was used in another way than it was given", k + 1));
        }
        if (throw_call == calls)
        {
            threw = 1 + 4 * throw_what;
            count("fault:callable-throws");
            return threw;
        }
        return take_mask >> (k & 7) & 1 ? 2 : 0;
    }
    void use(const Op &o)
    {
        const int form = int(uint64_t(o.a[0]) % uint64_t(kSeqForms));
        const bool visiting = form >= kSeqBuilds;
        P = visiting ? "J02" : "J01";
        SeqReport r;
        rep = &r;
        expected.clear();
        calls = copies = 0;
        threw = 0;
        int rc = 0;
        const int trap = guarded([&] { rc = a.run(form, int(o.a[1] & 0xffff), r); }, 3000000);
        if (c.stop) return;
        c.ev("use", form, rc, trap, r.n);
        if (r.impossible) return;
        c.nontrivial = true;
        c.at_state(mix(uint64_t(form), mix(uint64_t(plan.cfg[TYPE]), mix(uint64_t(rc), mix(uint64_t(calls), threw ? uint64_t(copies) + 1 : 0)))));
        if (trap != T_NONE)
        {
            over = true;
            return breaks("died", strf("form %d ended in %s%s", form, trap_name(trap), threw ? " when an element threw" : ""));
        }
        if (threw != rc) return breaks("exception", strf("form %d: an exception %s", form, threw ? "did not reach the caller" : "came out of nothing"));
        if (!live.empty()) return breaks("leaked", strf("form %d: %zu objects were never destroyed", form, live.size()));
        if (r.sources_changed && !visiting) return breaks("source-changed", strf("form %d: %d sources have lost their value", form, r.sources_changed));
        if (r.visitor_copied) return breaks("callable-copied", strf("form %d: the callable was copied or moved", form));
        if (rc) return;
        if (r.sizes_differ) return breaks("size", strf("form %d: the array has another size", form));
        for (int i = 0; i < r.n; ++i)
            if (r.got[i] != r.want[i]) return breaks("value", strf("form %d: element %d is %lld and not %lld", form, i, (long long)r.got[i], (long long)r.want[i]));
        if (r.sources_kept && !visiting) return breaks("not-moved", strf("form %d: %d rvalue sources were not moved from", form, r.sources_kept));
        if (a.copies_count && r.copies >= 0 && copies != r.copies)
            return breaks("copies", strf("form %d: %d copies were made and not %d", form, copies, r.copies));
        if (visiting && size_t(calls) != expected.size()) return breaks("missing-call", strf("form %d: %d calls for %zu elements", form, calls, expected.size()));
        if (r.calls_lost) return breaks("callable-state", strf("form %d: the caller's callable has not seen all calls", form));
        if (visiting && copies) return breaks("copied", strf("form %d: elements were copied", form));
    }
    void go()
    {
        g_run = this;
        for (auto &o : plan.ops)
        {
            if (c.stop || over) break;
            as_thread(o.thr % 6);
            switch (o.kind)
            {
                case THROW:
                    throw_in = long(uint64_t(o.a[0]) % 64);
                    throw_how = (o.a[1] & 1 ? 2 : 1) + 4 * int(uint64_t(o.a[2]) % 4);
                    break;
                case CALLS:
                    throw_call = int(uint64_t(o.a[0]) % 64);
                    take_mask = unsigned(o.a[1]);
                    throw_what = int(uint64_t(o.a[2]) % 4);
                    break;
                default:
                    use(o);
                    throw_in = -1;
                    throw_call = 0;
                    take_mask = 0;
            }
        }
        over = true;
        g_run = nullptr;
    }
};
void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run(p, c).go();
}
}  // namespace
extern "C" int sim_obj(int what, const void *self, const void *other, int64_t value, int can_throw)
{
    return g_run ? g_run->on_obj(what, self, other, value, can_throw) : 0;
}
extern "C" void sim_expect(const void *at, int category, int64_t value)
{
    if (g_run) g_run->expected.push_back({at, category, value});
}
extern "C" int sim_visit(const void *at, int category, int how, int64_t value)
{
    return g_run ? g_run->on_visit(at, category, how, value) : 0;
}
namespace sim
{
const World g_world = {"seq", kNames, kKinds, gen, exec};
}

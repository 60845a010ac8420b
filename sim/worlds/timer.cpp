// World: timers of several shapes on a clock the simulator owns.
#include <errno.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include "common.h"

using namespace sim;
using namespace sut;

namespace
{
enum Kind
{
    START,      // a0 slot, a1 callable, a2 by value?
    DESTROY,    // a0 slot
    MOVE,       // a0 empty slot, a1 source slot
    ASSIGN,     // a0 slot, a1 source slot (may be the same)
    SWAP,
    RESET,      // a0 slot
    READ,       // a0 slot, a1 value
    ADVANCE,    // a0 mode, a1 amount
    UNWIND,     // a1 callable
    PUSH,       // a0 slot, a1 front?
    ERASE,      // a0 position, a1: 0 erase, 1 pop, 2 clear
    RESERVE,
    ROTATE,
    TAKE,       // a0 slot, a1 position
    READ_VEC,   // a0 position, a1 value, a2 reset?
    HOLD,       // a0 slot, a1 slot whose timer goes into the callable
    TAKE_HELD,  // a0 slot, a1 how deep
    kKinds
};
const char *const kNames[] = {"start", "destroy", "move", "assign", "swap", "reset", "read", "advance", "unwind",
                              "push", "erase", "reserve", "rotate", "take", "read_element", "hold", "take_held"};
constexpr int kSlots = 5;
enum Cfg
{
    TYPE,
    T0,     // first reading
    DRIFT,  // ticks per reading, at most
    GARBAGE,
    kCfg
};

Plan gen(uint64_t seed, const std::string &prop)
{
    Rng r(seed);
    Plan p;
    static const int types[] = {0, 1, 1, 1, 2, 3, 4};
    int type = prop == "E03" ? 1 + int(r.below(3)) : r.pick(types);
    const int64_t cap = kTimer[type].cap;
    p.cfg = {type, r.chance(1, 3) ? r.range(-cap / 4, cap / 4) : r.range(-1000, 1000000), r.chance(1, 3) ? 0 : r.range(1, 1000), int64_t(r.below(1000))};
    const int n = int(r.range(4, 45));
    auto slot = [&] { return int64_t(r.below(kSlots)); };
    for (int i = 0; i < n; ++i)
    {
        Op o;
        switch (r.below(26))
        {
            default: o = {0, START, {slot(), int64_t(r.below(kCallables)), r.chance(1, 4), 0, 0}}; break;
            case 6: case 7: case 8: o = {0, DESTROY, {slot(), 0, 0, 0, 0}}; break;
            case 9: case 10: o = {0, MOVE, {slot(), slot(), 0, 0, 0}}; break;
            case 11: case 12: o = {0, ASSIGN, {slot(), slot(), 0, 0, 0}}; break;
            case 13: o = {0, SWAP, {slot(), slot(), 0, 0, 0}}; break;
            case 14: o = {0, RESET, {slot(), 0, 0, 0, 0}}; break;
            case 15: o = {0, READ, {slot(), int64_t(r.below(kTimerValues)), 0, 0, 0}}; break;
            case 16: case 17: o = {0, ADVANCE, {int64_t(r.below(7)), r.range(0, 4000000), r.range(0, 40), 0, 0}}; break;
            case 18: o = {0, r.chance(1, 2) ? UNWIND : READ, {slot(), int64_t(r.below(6)), 0, 0, 0}}; break;
            case 19: case 20: o = {0, PUSH, {slot(), r.chance(1, 3), 0, 0, 0}}; break;
            case 21: o = {0, ERASE, {int64_t(r.below(8)), r.chance(1, 8) ? 2 : int64_t(r.below(2)), 0, 0, 0}}; break;
            case 22: o = {0, r.chance(1, 2) ? ROTATE : RESERVE, {int64_t(r.below(12)), 0, 0, 0, 0}}; break;
            case 24: o = {0, HOLD, {slot(), slot(), 0, 0, 0}}; break;
            case 25: o = {0, r.chance(2, 3) ? TAKE_HELD : HOLD, {slot(), int64_t(r.below(3)), 0, 0, 0}}; break;
            case 23: o = {0, r.chance(1, 2) ? TAKE : READ_VEC, {slot(), int64_t(r.below(6)), r.chance(1, 3), 0, 0}}; break;
        }
        p.ops.push_back(o);
    }
    over_and_over(p, r, 200);
    hand_over(p, r);
    return p;
}

struct Value
{
    int which;
    int64_t v;
    std::vector<int64_t> readings;
};
struct Fired
{
    int token;
    std::vector<Value> values;
};
struct Owned
{
    int token;
    int kind;
    bool alive;
};
struct Run;
Run *g_run;

struct Timing
{
    int token;
    int64_t start;
    bool done = false;
    bool tracked = false;
    int fn = -1;
    int held = 0;  // the timing in the timer its callable owns
    bool holds = false;
};

struct Run
{
    const Plan &plan;
    Ctx &c;
    const TimerApi &a;
    unsigned char *mem[kSlots];
    int at[kSlots];            // -1 no object, 0 moved-from, else timing number
    int idle[kSlots] = {};     // a moved-from timer that was reset, and left alone since: its timing number
    std::vector<int> vec;
    std::vector<Timing> timing;  // 1-based
    std::vector<int> expect;     // timings whose callback must run in this operation
    int64_t now;
    Rng drift;
    // observations
    std::vector<int64_t> op_readings, mark_readings;
    std::vector<Value> values;
    std::vector<Fired> fired;
    std::map<const void *, int> objects;  // live tracked callables -> token at construction
    std::map<int, int> carriers;          // token -> live callables carrying it
    std::map<const void *, bool> moved;
    int copies = 0, moves = 0, src_lost = 0, fn_bad = 0;
    std::string fn_why;
    int next_token = 1;
    bool fn_busy[kFns] = {};
    uint64_t sim_ticks = 0;

    Run(const Plan &p, Ctx &x) : plan(p), c(x), a(kTimer[uint64_t(p.cfg[TYPE]) % kTimers]), drift(mix(p.seed, 77))
    {
        for (int i = 0; i < kSlots; ++i)
        {
            mem[i] = arena_base() + kObjOff + size_t(i) * 1024 + (p.cfg[GARBAGE] & 1 ? a.obj_align : 0);
            fill_garbage(mem[i], 512, uint64_t(p.cfg[GARBAGE]) + uint64_t(i));
            at[i] = -1;
        }
        timing.resize(1);
        now = p.cfg[T0];
        g_run = this;
    }
    int64_t read_clock()
    {
        if (plan.cfg[DRIFT] > 0)
        {
            int64_t d = int64_t(drift.below(uint64_t(plan.cfg[DRIFT]) + 1));
            if (now < a.cap - d)
            {
                now += d;
                sim_ticks += uint64_t(d);
            }
        }
        op_readings.push_back(now);
        mark_readings.push_back(now);
        return now;
    }
    bool ok(int trap, const char *what)
    {
        if (trap == T_NONE) return true;
        c.violate_any("died", strf("%s ended in %s (%s)", what, trap_name(trap), g_trap_msg));
        return false;
    }
    int64_t convert(int64_t ticks, int which) const
    {
        __int128 v = ticks, unit = which == V_SEC ? 1 : which == V_MILLI ? 1000 : which == V_MICRO ? 1000000 : 1000000000;
        if (which == V_LEAKED) return ticks;
        v = v * a.num * unit / a.den;  // truncates toward zero
        return int64_t(v);
    }
    bool right(const Value &v, const Timing &t) const
    {
        if (v.which == V_START) return v.v == t.start;
        for (int64_t r : v.readings)
            if (v.v == convert(r - t.start, v.which)) return true;
        return false;
    }
    std::string show(const Value &v, const Timing &t) const
    {
        static const char *n[] = {"start", "elapsed", "seconds", "milliseconds", "microseconds", "nanoseconds"};
        return strf("%s = %lld with start %lld and clock %lld", n[v.which], (long long)v.v, (long long)t.start,
                    (long long)(v.readings.empty() ? -1 : v.readings.back()));
    }
    // End of an operation: exactly the expected callbacks ran, with the right values.
    void settle(const char *what)
    {
        if (c.stop) return;
        for (auto &f : fired) c.ev("fired", f.token);
        std::vector<int> left = expect;
        for (auto &f : fired)
        {
            int idx = -1;
            for (size_t i = 0; i < left.size(); ++i)
                if (timing[size_t(left[i])].token == f.token) idx = int(i);
            if (idx < 0)
            {
                bool again = false, known = false;
                for (auto &t : timing)
                    if (t.token == f.token) known = true, again = again || t.done;
                const char *k = !known ? "corrupt-callback" : again ? "fired-twice" : "fired-early";
                c.violate("E01", k, strf("during %s a finish callback ran that must not (%s)", what, k));
                c.violate("E03", "stray-callback", strf("during %s a callback ran that must not", what));
                return c.diverge("stray callback");
            }
            Timing &t = timing[size_t(left[size_t(idx)])];
            left.erase(left.begin() + idx);
            for (auto &v : f.values)
            {
                if (v.which == V_START && v.v != t.start)
                    c.violate("E01", "wrong-timing", strf("during %s the callback received a timer with another timing: %s", what, show(v, t).c_str()));
                if (!right(v, t)) c.violate("E02", "callback-value", strf("during %s the finish callback saw %s", what, show(v, t).c_str()));
            }
            t.done = true;
            if (t.fn >= 0) fn_busy[t.fn] = false;
            c.nontrivial = true;
        }
        if (!left.empty())
        {
            c.violate("E01", "not-fired", strf("%s ended a timing without running its finish callback", what));
            c.violate("E03", "not-run", strf("%s ended a timing without running its callable", what));
            return c.diverge("callback missing");
        }
        expect.clear();
        fired.clear();
        values.clear();
        if (fn_bad)
        {
            c.violate("E03", "not-an-object", strf("%s: %s", what, fn_why.c_str()));
            return c.diverge("callable misused");
        }
        uint64_t h = vec.size();
        for (int i = 0; i < kSlots; ++i) h = mix(h, uint64_t(at[i] > 0 ? 2 : at[i]));
        for (int v : vec) h = mix(h, v > 0 ? 2u : 0u);
        c.at_state(mix(h, uint64_t(plan.cfg[TYPE]) * 64 + objects.size()));
    }
    void begin()
    {
        op_readings.clear();
        mark_readings.clear();
        fired.clear();
        values.clear();
        copies = moves = src_lost = 0;
    }
    int pick_kind(int64_t k, int &fn)
    {
        int kind = int(uint64_t(k) % kCallables);
        if (!a.owners && kind >= C_OWNER) kind -= C_OWNER;
        fn = -1;
        if (kind <= C_FN_PTR_TMP)
        {
            for (int i = 0; i < kFns; ++i)
                if (!fn_busy[i])
                {
                    fn = i;
                    break;
                }
            if (fn < 0) kind = C_PLAIN;
        }
        return kind;
    }
    void end_timing(int which)
    {
        for (; which > 0; which = timing[size_t(which)].held) expect.push_back(which);
    }
    bool check_source(int kind, const char *what)
    {
        if (!c.on("E03")) return true;
        if (src_lost)
        {
            c.violate("E03", "lvalue-moved", strf("%s took the state of the caller's lvalue", what));
            return false;
        }
        if ((kind == C_OWNER || kind == C_ALIGNED || kind == C_MOVE_ONLY) && copies)
        {
            c.violate("E03", "rvalue-copied", strf("%s copied a callable given as an rvalue", what));
            return false;
        }
        if (kind == C_OWNER_L && copies != 1)
        {
            c.violate("E03", "lvalue-not-copied", strf("%s made %d copies of the caller's lvalue", what, copies));
            return false;
        }
        return true;
    }
    int new_timing(int kind, int fn)
    {
        Timing t;
        t.fn = fn;
        t.token = fn >= 0 ? -1 - fn : next_token++;
        t.tracked = kind >= C_OWNER;
        if (fn >= 0) fn_busy[fn] = true;
        timing.push_back(t);
        return int(timing.size()) - 1;
    }
    void learn_start(int tn, void *p, const char *what)
    {
        std::vector<int64_t> seen = op_readings;
        int t = guarded([&] { a.read(p, V_START); });
        if (!ok(t, "reading the start")) return;
        int64_t s = values.back().v;
        values.clear();
        timing[size_t(tn)].start = s;
        bool good = false;
        for (int64_t r : seen) good = good || r == s;
        if (!good)
        {
            c.violate("E02", "start", strf("after %s the start is %lld, not a clock reading taken meanwhile (%zu readings)", what, (long long)s, seen.size()));
            c.diverge("bad start");
        }
    }
    void start(const Op &o)
    {
        int s = int(uint64_t(o.a[0]) % kSlots), fn;
        int kind = pick_kind(o.a[1], fn);
        int tn = new_timing(kind, fn);
        const int tok = timing[size_t(tn)].token;
        c.ev("start", s, kind, tok, at[s]);
        if (at[s] < 0)
        {
            int t = guarded([&] { o.a[2] ? a.start_by_value(mem[s], kind, tok) : a.start(mem[s], kind, tok); });
            if (!ok(t, "starting a timer")) return;
        }
        else
        {
            end_timing(at[s]);
            int t = guarded([&] { a.assign_new(mem[s], kind, tok); });
            if (!ok(t, "assigning a new timer")) return;
        }
        at[s] = tn;
        if (!check_source(kind, "starting a timer")) return;
        settle("starting a timer");
        if (!c.stop) learn_start(tn, mem[s], "construction");
    }
    void check_read(const char *what, int tn)
    {
        for (auto &v : values)
        {
            c.ev("value", v.which, v.v);
            if (!right(v, timing[size_t(tn)])) c.violate("E02", "value", strf("%s: %s", what, show(v, timing[size_t(tn)]).c_str()));
        }
        values.clear();
    }
    void op(const Op &o)
    {
        begin();
        int s = int(uint64_t(o.a[0]) % kSlots), q = int(uint64_t(o.a[1]) % kSlots);
        if (o.kind != RESET && o.kind != READ && o.kind != ADVANCE) idle[s] = idle[q] = 0;
        switch (o.kind)
        {
            case START: start(o); break;
            case DESTROY:
            {
                if (at[s] < 0) return;
                c.ev("destroy", s, at[s]);
                end_timing(at[s]);
                int t = guarded([&] { a.destroy(mem[s]); });
                if (!ok(t, "destroying a timer")) return;
                fill_garbage(mem[s], a.obj_size, plan.seed + uint64_t(s));
                at[s] = -1;
                settle("destruction");
                break;
            }
            case MOVE:
            {
                if (at[s] >= 0 || at[q] < 0 || s == q) return;
                c.ev("move", s, q, at[q]);
                int t = guarded([&] { a.move_ctor(mem[s], mem[q]); });
                if (!ok(t, "moving a timer")) return;
                at[s] = at[q];
                at[q] = 0;
                settle("a move");
                if (!c.stop && at[s] > 0)
                {
                    guarded([&] { a.read(mem[s], V_START); });
                    check_read("after a move", at[s]);
                }
                break;
            }
            case ASSIGN:
            {
                if (at[s] < 0 || at[q] < 0) return;
                c.ev("assign", s, q, at[s], at[q]);
                if (s != q) end_timing(at[s]);
                else count("probe:self-assignment");
                int t = guarded([&] { a.assign(mem[s], mem[q]); });
                if (!ok(t, "assigning a timer")) return;
                if (s != q)
                {
                    at[s] = at[q];
                    at[q] = 0;
                }
                settle(s == q ? "self-assignment" : "assignment");
                if (!c.stop && at[s] > 0)
                {
                    guarded([&] { a.read(mem[s], V_START); });
                    check_read("after an assignment", at[s]);
                }
                break;
            }
            case SWAP:
            {
                if (at[s] < 0 || at[q] < 0) return;
                c.ev("swap", s, q, at[s], at[q]);
                int t = guarded([&] { a.swap(mem[s], mem[q]); });
                if (!ok(t, "swapping timers")) return;
                std::swap(at[s], at[q]);
                settle("a swap");
                break;
            }
            case RESET:
            {
                if (at[s] < 0) return;
                c.ev("reset", s, at[s]);
                int t = guarded([&] { a.reset(mem[s]); });
                if (!ok(t, "resetting a timer")) return;
                settle("a reset");
                if (!c.stop && !at[s])  // without a callback, it tells the time all the same
                {
                    Timing n;
                    n.token = INT32_MIN;
                    n.done = true;
                    timing.push_back(n);
                    idle[s] = int(timing.size()) - 1;
                    count("probe:reset-moved-from");
                }
                if (!c.stop) learn_start(at[s] ? at[s] : idle[s], mem[s], "reset");
                break;
            }
            case READ:
            {
                if (at[s] <= 0 && (at[s] < 0 || !idle[s])) return;
                c.ev("read", s, o.a[1]);
                int t = guarded([&] { a.read(mem[s], int(uint64_t(o.a[1]) % kTimerValues)); });
                if (!ok(t, "reading a timer")) return;
                check_read("reading", at[s] ? at[s] : idle[s]);
                settle("a read");
                break;
            }
            case ADVANCE:
            {
                int64_t d = o.a[1];
                switch (uint64_t(o.a[0]) % 7)
                {
                    case 0: count("fault:clock-stall"); return;
                    case 1: break;
                    case 2: d *= 1000000; count("fault:clock-jump-forward"); break;
                    case 3: d = -d; count("fault:clock-step-back"); break;
                    case 4: d *= -1000000; count("fault:clock-jump-back"); break;
                    case 5: case 6:  // anywhere it can go
                        d = (d & 0x3fffff) << (uint64_t(o.a[2]) % 41);
                        if (o.a[0] % 7 == 6 && now - d < -a.cap) d = -a.cap - now;
                        else if (o.a[0] % 7 == 6) d = -d;
                        else if (now + d > a.cap) d = a.cap - now;
                        count("fault:clock-jump-far");
                        break;
                }
                if (now + d > a.cap || now + d < -a.cap) return;
                now += d;
                sim_ticks += uint64_t(d < 0 ? -d : d);
                c.ev("clock", d);
                break;
            }
            case UNWIND:
            {
                int fn, kind = pick_kind(o.a[1], fn), tn = new_timing(kind, fn);
                c.ev("unwind", kind, timing[size_t(tn)].token);
                count("fault:exception-unwinding");
                end_timing(tn);
                int t = guarded([&] { a.start_and_throw(kind, timing[size_t(tn)].token); });
                if (!ok(t, "unwinding through a timer")) return;
                // its start: what the callback saw must be a reading of this operation
                if (fired.size() == 1)
                    for (auto &v : fired[0].values)
                        if (v.which == V_START)
                        {
                            bool good = false;
                            for (int64_t r : op_readings) good = good || r == v.v;
                            if (good) timing[size_t(tn)].start = v.v;
                            else timing[size_t(tn)].start = v.v + 1;
                        }
                settle("unwinding");
                break;
            }
            case PUSH:
            {
                if (at[s] < 0 || vec.size() > 12) return;
                c.ev("push", s, at[s], o.a[1]);
                int t = guarded([&] { o.a[1] ? a.vec_push_front(mem[s]) : a.vec_push(mem[s]); });
                if (!ok(t, "putting a timer into a container")) return;
                vec.insert(o.a[1] ? vec.begin() : vec.end(), at[s]);
                at[s] = 0;
                settle("a container insertion");
                break;
            }
            case ERASE:
            {
                if (vec.empty()) return;
                size_t i = size_t(o.a[0]) % vec.size();
                c.ev("erase", int64_t(i), o.a[1]);
                int mode = int(o.a[1] % 3);
                if (mode == 0) end_timing(vec[i]);
                if (mode == 1) end_timing(vec.back());
                if (mode == 2)
                    for (int v : vec) end_timing(v);
                int t = guarded([&] { mode == 0 ? a.vec_erase(i) : mode == 1 ? a.vec_pop() : a.vec_clear(); });
                if (!ok(t, "removing timers from a container")) return;
                if (mode == 0) vec.erase(vec.begin() + long(i));
                if (mode == 1) vec.pop_back();
                if (mode == 2) vec.clear();
                settle("a container removal");
                break;
            }
            case RESERVE:
            {
                int t = guarded([&] { a.vec_reserve(size_t(o.a[0] & 15)); });
                if (!ok(t, "growing a container of timers")) return;
                settle("a container growth");
                break;
            }
            case ROTATE:
            {
                if (vec.size() < 2) return;
                int t = guarded([&] { a.vec_rotate(); });
                if (!ok(t, "rotating a container of timers")) return;
                std::rotate(vec.begin(), vec.begin() + 1, vec.end());
                settle("a rotation");
                break;
            }
            case HOLD:
            {
                if (!a.holders || at[q] <= 0 || s == q) return;
                const int tn = new_timing(C_HOLDER, -1), tok = timing[size_t(tn)].token;
                c.ev("hold", s, q, at[s], at[q]);
                timing[size_t(tn)].held = at[q];
                timing[size_t(tn)].holds = true;
                at[q] = 0;
                if (at[s] >= 0) end_timing(at[s]);
                int t = guarded([&] { at[s] < 0 ? a.start_holder(mem[s], tok, mem[q]) : a.assign_holder(mem[s], tok, mem[q]); });
                if (!ok(t, "starting a timer")) return;
                at[s] = tn;
                settle("starting a timer whose callable owns a timer");
                if (!c.stop) learn_start(tn, mem[s], "construction");
                break;
            }
            case TAKE_HELD:
            {
                if (at[s] <= 0) return;
                int owner = at[s];
                for (int64_t i = 0; i < (o.a[1] & 3); ++i)
                    if (timing[size_t(owner)].held && timing[size_t(timing[size_t(owner)].held)].holds) owner = timing[size_t(owner)].held;
                if (!timing[size_t(owner)].holds) return;
                const int inner = timing[size_t(owner)].held;
                timing[size_t(owner)].held = 0;
                c.ev("take_held", s, at[s], owner, inner);
                count("probe:source-dies-with-target");
                end_timing(at[s]);
                int t = guarded([&] { a.assign(mem[s], a.held(timing[size_t(owner)].token)); });
                if (!ok(t, "assigning from a timer that the callable owns")) return;
                at[s] = inner;
                settle("assignment from a timer that the callable owns");
                if (!c.stop && at[s] > 0)
                {
                    guarded([&] { a.read(mem[s], V_START); });
                    check_read("after an assignment", at[s]);
                }
                break;
            }
            case TAKE:
            {
                if (vec.empty() || at[s] < 0) return;
                size_t i = size_t(o.a[1]) % vec.size();
                c.ev("take", s, int64_t(i), at[s], vec[i]);
                end_timing(at[s]);
                int t = guarded([&] { a.vec_take(i, mem[s]); });
                if (!ok(t, "assigning from a container element")) return;
                at[s] = vec[i];
                vec[i] = 0;
                settle("assignment from a container element");
                break;
            }
            case READ_VEC:
            {
                if (vec.empty()) return;
                size_t i = size_t(o.a[0]) % vec.size();
                if (vec[i] <= 0) return;
                if (o.a[2])
                {
                    int t = guarded([&] { a.reset(a.vec_at(i)); });
                    if (!ok(t, "resetting a timer")) return;
                    learn_start(vec[i], a.vec_at(i), "reset");
                }
                else
                {
                    int t = guarded([&] { a.read(a.vec_at(i), int(uint64_t(o.a[1]) % kTimerValues)); });
                    if (!ok(t, "reading a timer")) return;
                    check_read("reading", vec[i]);
                }
                if (!c.stop) settle("a read");
                break;
            }
        }
    }
    void go()
    {
        for (auto &o : plan.ops)
        {
            if (c.stop) return;
            as_thread(o.thr % 6);
            op(o);
        }
        for (int i = 0; i < kSlots && !c.stop; ++i)
            if (at[i] >= 0)
            {
                Op d{0, DESTROY, {i, 0, 0, 0, 0}};
                op(d);
            }
        if (c.stop) return;
        begin();
        for (int v : vec) end_timing(v);
        int t = guarded([&] { a.vec_end(); });
        vec.clear();
        if (!ok(t, "destroying a container of timers")) return;
        settle("container destruction");
        if (c.stop) return;
        for (size_t i = 1; i < timing.size(); ++i)
            if (!timing[i].done) return c.violate("E01", "never-fired", "a started timer's callback never ran");
        if (!objects.empty())
            return c.violate("E03", "leak", strf("%zu stored callables were never destroyed", objects.size()));
    }
    void fn_event(int what, const void *p, int token)
    {
        auto bad = [&](const char *w)
        {
            if (!fn_bad++) fn_why = w;
        };
        switch (what)
        {
            case F_BUILT:
            case F_COPIED:
            case F_MOVED:
                if (what == F_COPIED) ++copies;
                if (what == F_MOVED) ++moves;
                if (objects.count(p)) bad("a callable was built over a live one");
                objects[p] = token;
                break;
            case F_DESTROYED:
                if (!objects.erase(p)) bad("a callable was destroyed that is not alive");
                break;
            case F_INVOKED:
                if (!objects.count(p)) bad("a destroyed callable was invoked");
                else if (token == 0) bad("a moved-from callable was invoked");
                break;
            case F_BROKEN: bad("a callable was used as a bytewise copy of an object, or after its destruction"); break;
            case F_SRC_LOST: ++src_lost; break;
            case F_AT:
                if (ad(p) % size_t(token)) bad("a callable was built where its alignment does not allow it");
                break;
        }
    }
};

bool g_sim_time = false;
void exec(const Plan &p, Ctx &c)
{
    if (p.cfg.size() < kCfg) return c.diverge("bad plan");
    Run r(p, c);
    g_sim_time = true;
    r.a.vec_begin();
    r.go();
    g_sim_time = false;
    g_run = nullptr;
    long double ns = (long double)r.sim_ticks * (long double)r.a.num / (long double)r.a.den * 1e9L;
    c.sim_ns = ns > 1e15L ? uint64_t(1e15) : uint64_t(ns);
    c.put(r.timing.size());
}
}  // namespace
extern "C" {
int64_t sim_clock_now(int) { return g_run ? g_run->read_clock() : 0; }
void sim_clock_mark()
{
    if (g_run) g_run->mark_readings.clear();
}
void sim_timer_value(int which, int64_t v)
{
    if (g_run) g_run->values.push_back({which, v, g_run->mark_readings});
}
void sim_timer_fired(int token, const void *)
{
    if (!g_run) return;
    g_run->fired.push_back({token, g_run->values});
    g_run->values.clear();
}
void sim_fn_event(int what, const void *p, int token)
{
    if (g_run) g_run->fn_event(what, p, token);
}
// The library's own timer reads std::chrono::steady_clock, which ends here.
int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (!g_sim_time) return int(syscall(SYS_clock_gettime, id, ts));
    int64_t n = sim_clock_now(9);
    int64_t s = n / 1000000000, f = n % 1000000000;
    if (f < 0) f += 1000000000, --s;
    ts->tv_sec = s;
    ts->tv_nsec = f;
    return 0;
}
}
namespace sim
{
const World g_world = {"timer", kNames, kKinds, gen, exec};
}

#include <utils/utils.h>

#include <map>

#include "sut.h"
namespace sut
{
namespace
{
template <int Id, class Rep, class Period>
struct SimClock
{
    using rep = Rep;
    using period = Period;
    using duration = std::chrono::duration<rep, period>;
    using time_point = std::chrono::time_point<SimClock>;
    static constexpr bool is_steady = false;
    static time_point now() noexcept { return time_point(duration(static_cast<Rep>(sim_clock_now(Id)))); }
};
struct Unwind
{
};
template <class Timer>
void report(const Timer &t, int token)
{
    sim_clock_mark();
    sim_timer_value(V_START, t.start_tp().time_since_epoch().count());
    sim_clock_mark();
    sim_timer_value(V_LEAKED, t.leaked().count());
    sim_clock_mark();
    sim_timer_value(V_SEC, t.leaked_sec().count());
    sim_clock_mark();
    sim_timer_value(V_MILLI, t.leaked_milli_sec().count());
    sim_clock_mark();
    sim_timer_value(V_MICRO, t.leaked_micro_sec().count());
    sim_clock_mark();
    sim_timer_value(V_NANO, t.leaked_nano_sec().count());
    sim_timer_fired(token, &t);
}
template <class Timer, int N>
void fn(const Timer &t) noexcept
{
    report(t, -1 - N);
}
template <class Timer>
struct Plain
{
    int token, check;
    void operator()(const Timer &t) noexcept { report(t, check == (token ^ 0x5a5a) ? token : 0x7fffffff); }
};
template <class Timer>
struct ConstPlain
{
    int token, check;
    void operator()(const Timer &t) const noexcept { report(t, check == (token ^ 0x5a5a) ? token : 0x7fffffff); }
};
// Knows where it lives, small and with nothing to destroy.
template <class Timer>
struct Self
{
    unsigned at;
    int token;
    unsigned here() const { return static_cast<unsigned>(reinterpret_cast<std::uintptr_t>(this)); }
    explicit Self(int t) noexcept : at(here()), token(t) {}
    Self(const Self &o) noexcept : at(here()), token(o.token)
    {
        if (o.at != o.here()) sim_fn_event(F_BROKEN, &o, token);
    }
    Self &operator=(const Self &o) noexcept
    {
        token = o.token;
        return *this;
    }
    void operator()(const Timer &t) noexcept
    {
        if (at != here()) sim_fn_event(F_BROKEN, this, token);
        report(t, token);
    }
};
// Knows where it lives: a bytewise copy is not an object.
template <class Timer, std::size_t Align, bool Movable>
struct Owner;
template <class Timer, std::size_t Align>
struct Owner<Timer, Align, true>
{
    alignas(Align) const void *self;
    int token;
    explicit Owner(int t) noexcept : self(this), token(t)
    {
        sim_fn_event(F_BUILT, this, token);
        sim_fn_event(F_AT, this, Align);
    }
    Owner(const Owner &o) noexcept : self(this), token(o.token)
    {
        if (o.self != &o) sim_fn_event(F_BROKEN, &o, token);
        sim_fn_event(F_COPIED, this, token);
        sim_fn_event(F_AT, this, Align);
    }
    Owner(Owner &&o) noexcept : self(this), token(o.token)
    {
        if (o.self != &o) sim_fn_event(F_BROKEN, &o, token);
        o.token = 0;
        sim_fn_event(F_MOVED, this, token);
        sim_fn_event(F_AT, this, Align);
    }
    ~Owner()
    {
        if (self != this) sim_fn_event(F_BROKEN, this, token);
        else sim_fn_event(F_DESTROYED, this, token);
        self = nullptr;
    }
    void operator()(const Timer &t) noexcept
    {
        sim_fn_event(self == this ? F_INVOKED : F_BROKEN, this, token);
        report(t, token);
    }
};
template <class Timer, std::size_t Align>
struct Owner<Timer, Align, false>
{
    const void *self;
    int token;
    explicit Owner(int t) noexcept : self(this), token(t) { sim_fn_event(F_BUILT, this, token); }
    Owner(const Owner &o) noexcept : self(this), token(o.token)
    {
        if (o.self != &o) sim_fn_event(F_BROKEN, &o, token);
        sim_fn_event(F_COPIED, this, token);
    }
    ~Owner()
    {
        if (self != this) sim_fn_event(F_BROKEN, this, token);
        else sim_fn_event(F_DESTROYED, this, token);
        self = nullptr;
    }
    void operator()(const Timer &t) noexcept
    {
        sim_fn_event(self == this ? F_INVOKED : F_BROKEN, this, token);
        report(t, token);
    }
};
// Owns something: cannot be copied. Who asks the class for a place or an address, gets another one.
alignas(64) unsigned char g_elsewhere[256];
template <class Timer>
struct Unique : Owner<Timer, 8, true>
{
    static void *operator new(std::size_t, void *) noexcept { return g_elsewhere; }
    static void operator delete(void *, void *) noexcept {}
    Unique *operator&() noexcept { return reinterpret_cast<Unique *>(g_elsewhere); }
    using Owner<Timer, 8, true>::Owner;
    Unique(const Unique &) = delete;
    Unique(Unique &&) noexcept = default;
};
// Owns another timer, which ends when this does.
template <class Timer>
std::map<int, Timer *> g_held;
template <class Timer>
struct Holder
{
    Owner<Timer, 8, true> o;
    Timer *held;
    Holder(int t, Timer &&src) : o(t), held(new Timer(std::move(src))) { g_held<Timer>[t] = held; }
    Holder(Holder &&x) noexcept : o(std::move(x.o)), held(x.held) { x.held = nullptr; }
    ~Holder()
    {
        Timer *t = held;
        held = nullptr;
        delete t;
    }
    void operator()(const Timer &t) noexcept { o(t); }
};
template <class Timer, std::int64_t Cap>
struct api_of
{
    using T = Timer;
    static constexpr bool kRoom = T::kMaxCallbackSize >= 64 && T::kMaxCallbackAlignment >= 32;
#ifdef SUT_NO_MOVE_ONLY
    static constexpr bool kHold = false;
#else
    static constexpr bool kHold = kRoom;
#endif
    static T &o(void *p) { return *static_cast<T *>(p); }
    static std::vector<T> *&vec()
    {
        static std::vector<T> *v = nullptr;
        if (!v) v = new std::vector<T>;
        return v;
    }
    // f(callable) with the callable in the wanted value category
    template <class F>
    static void with_callable(int kind, int token, F &&f)
    {
        switch (kind)
        {
            case C_FN_REF:
                switch (-1 - token)
                {
                    case 0: return f(fn<T, 0>);
                    case 1: return f(fn<T, 1>);
                    case 2: return f(fn<T, 2>);
                    case 3: return f(fn<T, 3>);
                    case 4: return f(fn<T, 4>);
                    default: return f(fn<T, 5>);
                }
            case C_FN_PTR:
            case C_FN_PTR_TMP:
            {
                void (*const all[])(const T &) noexcept = {fn<T, 0>, fn<T, 1>, fn<T, 2>, fn<T, 3>, fn<T, 4>, fn<T, 5>};
                void (*p)(const T &) noexcept = all[-1 - token];
                if (kind == C_FN_PTR) return f(p);
                return f(std::move(p));
            }
            case C_PLAIN: return f(Plain<T>{token, token ^ 0x5a5a});
            case C_CONST_LVALUE:
            {
                const ConstPlain<T> p{token, token ^ 0x5a5a};
                return f(p);
            }
            case C_CONST_RVALUE:  // and the caller's own does not stay as it is
            {
                union
                {
                    ConstPlain<T> u;
                    unsigned char bytes[sizeof(ConstPlain<T>)];
                };
                new (&u) ConstPlain<T>{token, token ^ 0x5a5a};
                f(std::move(std::as_const(u)));
                std::memset(bytes, 0x3c, sizeof bytes);
                return;
            }
            case C_SELF: return f(Self<T>(token));
            default: break;
        }
        if constexpr (kRoom)
        {
            if (kind == C_OWNER) return f(Owner<T, 8, true>(token));
#ifdef SUT_NO_MOVE_ONLY  // see check.py: PARTS
            if (kind == C_MOVE_ONLY) return f(Owner<T, 8, true>(token));
#else
            if (kind == C_MOVE_ONLY) return f(Unique<T>(token));
#endif
            if (kind == C_ALIGNED) return f(Owner<T, 32, true>(token));
            if (kind == C_COPY_ONLY)
            {
                Owner<T, 8, false> c(token);
                f(c);
                sim_fn_event(c.token == token ? F_SRC_KEPT : F_SRC_LOST, &c, token);
                return;
            }
            Owner<T, 8, true> c(token);
            f(c);
            sim_fn_event(c.token == token ? F_SRC_KEPT : F_SRC_LOST, &c, token);
        }
    }
    template <class C>
    static T make(C &&c)
    {
        T t(std::forward<C>(c));
        return t;
    }
    static constexpr TimerApi value()
    {
        return {
            sizeof(T),
            alignof(T),
            T::clock::period::num,
            T::clock::period::den,
            Cap,
            kRoom,
            kHold,
            [](void *m, int k, int tok)
            { with_callable(k, tok, [m](auto &&c) { new (m) T(std::forward<decltype(c)>(c)); }); },
            [](void *m, int k, int tok)
            { with_callable(k, tok, [m](auto &&c) { new (m) T(make(std::forward<decltype(c)>(c))); }); },
            [](int k, int tok)
            {
                try
                {
                    with_callable(k, tok,
                                  [](auto &&c)
                                  {
                                      T t(std::forward<decltype(c)>(c));
                                      T u(std::move(t));
                                      throw Unwind{};
                                  });
                }
                catch (const Unwind &)
                {
                }
            },
            [](void *m, int tok, void *s)
            {
                if constexpr (kHold) new (m) T(Holder<T>(tok, std::move(o(s))));
            },
            [](void *m, int tok, void *s)
            {
                if constexpr (kHold) o(m) = T(Holder<T>(tok, std::move(o(s))));
            },
            [](int tok) -> void * { return g_held<T>[tok]; },
            [](void *p) { o(p).~T(); },
            [](void *d, void *s) { new (d) T(std::move(o(s))); },
            [](void *d, void *s) { o(d) = std::move(o(s)); },
            [](void *d, int k, int tok)
            { with_callable(k, tok, [d](auto &&c) { o(d) = T(std::forward<decltype(c)>(c)); }); },
            [](void *a, void *b) { std::swap(o(a), o(b)); },
            [](void *p) { o(p).reset(); },
            [](void *p, int which)
            {
                const T &t = o(p);
                sim_clock_mark();
                switch (which)
                {
                    case V_START: sim_timer_value(which, t.start_tp().time_since_epoch().count()); break;
                    case V_LEAKED: sim_timer_value(which, t.leaked().count()); break;
                    case V_SEC: sim_timer_value(which, t.leaked_sec().count()); break;
                    case V_MILLI: sim_timer_value(which, t.leaked_milli_sec().count()); break;
                    case V_MICRO: sim_timer_value(which, t.leaked_micro_sec().count()); break;
                    default: sim_timer_value(which, t.leaked_nano_sec().count()); break;
                }
            },
            [](void *s) { vec()->push_back(std::move(o(s))); },
            [](void *s) { vec()->insert(vec()->begin(), std::move(o(s))); },
            [](std::size_t i) { vec()->erase(vec()->begin() + static_cast<std::ptrdiff_t>(i)); },
            [] { vec()->pop_back(); },
            [] { vec()->clear(); },
            [](std::size_t n) { vec()->reserve(n); },
            [] { std::rotate(vec()->begin(), vec()->begin() + 1, vec()->end()); },
            [](std::size_t i, void *d) { o(d) = std::move((*vec())[i]); },
            [](std::size_t i) -> void * { return &(*vec())[i]; },
            [] { return vec()->size(); },
            []
            {
                vec() = new std::vector<T>;
                g_held<T>.clear();
            },
            []
            {
                delete vec();
                vec() = nullptr;
            },
        };
    }
};
using C0 = SimClock<0, std::int64_t, std::nano>;
using C1 = SimClock<1, std::int64_t, std::micro>;
using C2 = SimClock<2, std::int64_t, std::ratio<1, 60>>;
using C3 = SimClock<3, std::int32_t, std::ratio<1>>;
}  // namespace
const TimerApi kTimer[kTimers] = {
    api_of<utils::timer, (std::int64_t{1} << 58)>::value(),
    api_of<utils::details::timer<32, 64, C0>, (std::int64_t{1} << 62) - (std::int64_t{1} << 40)>::value(),
    api_of<utils::details::timer<64, 128, C1>, (std::int64_t{1} << 52)>::value(),
    api_of<utils::details::timer<32, 64, C2>, (std::int64_t{1} << 36)>::value(),
    api_of<utils::details::timer<8, 8, C3>, (std::int64_t{1} << 29)>::value(),
};
}  // namespace sut

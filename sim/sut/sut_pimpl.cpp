#include <utils/utils.h>

#include <memory>

#include "boom.h"
#include "sut.h"
namespace sut
{
namespace
{
struct Tok
{
    int v;
};
// What the wrapped types have in common.  Kind of type: alignment, what may
// throw, what exists.
template <std::size_t Align, bool CopyThrows, bool MoveCtorThrows, bool MoveAssignThrows>
struct Base
{
    int v = 0;
    void event(int what, const void *other, std::int64_t val, bool can_throw)
    {
        int r = sim_obj(what, this, other, val, can_throw);
        if ((r & 3) == 1) boom(r);
        late = r;
    }
    int late = 0;
    void finish()
    {
        if (late)
        {
            const int r = late;
            late = 0;
            boom(r);
        }
    }
};
#define COMMON(N, CT) COMMON3(N, CT, CT, CT)
#define COMMON3(N, DT, IT, CT)                                                              \
    N() noexcept(!(DT)) { this->event(O_DEFAULT, nullptr, 0, DT); v = 1000; this->finish(); }      \
    explicit N(int x) noexcept(!(IT)) { this->event(O_INT, nullptr, x, IT); v = x; this->finish(); } \
    N(int x, int y) noexcept(!(CT)) { this->event(O_TWO, nullptr, x + y, CT); v = x + y; this->finish(); } \
    explicit N(Tok &t) noexcept(!(CT)) { this->event(O_TOKEN_L, nullptr, t.v, CT); v = t.v; this->finish(); } \
    explicit N(const Tok &t) noexcept(!(CT)) { this->event(O_TOKEN_CL, nullptr, t.v, CT); v = t.v; this->finish(); } \
    explicit N(Tok &&t) noexcept(!(CT)) { this->event(O_TOKEN_R, nullptr, t.v, CT); v = t.v; t.v = -1; this->finish(); } \
    N(Tok &a, Tok &&b, const char *s) noexcept(!(CT)) { this->event(O_MIXED, nullptr, a.v, CT); v = a.v + b.v + int(s[0]); b.v = -1; this->finish(); } \
    N(const Tok &a, const Tok &b, const char *) noexcept(!(CT)) { this->event(O_MIXED_OTHER, nullptr, a.v, CT); v = a.v + b.v; this->finish(); } \
    ~N() { sim_obj(O_DESTROY, this, nullptr, v, 0); }
#define COPYABLE(N, CT) COPY_CTOR(N, CT) COPY_ASSIGN(N, CT)
#define COPY_CTOR(N, CT) \
    N(const N &o) noexcept(!(CT)) { this->event(O_COPY, std::addressof(o), o.v, CT); v = o.v; this->finish(); }
#define COPY_ASSIGN(N, CT) \
    N &operator=(const N &o) noexcept(!(CT)) { this->event(O_COPY_ASSIGN, std::addressof(o), o.v, CT); v = o.v; this->finish(); return *this; }
// A move leaves -1 behind, also in a self-assignment.
#define MOVE_CTOR(N, MT) \
    N(N &&o) noexcept(!(MT)) { this->event(O_MOVE, std::addressof(o), o.v, MT); v = o.v; o.v = -1; this->finish(); }
#define MOVE_ASSIGN(N, MT) \
    N &operator=(N &&o) noexcept(!(MT)) { this->event(O_MOVE_ASSIGN, std::addressof(o), o.v, MT); int x = o.v; o.v = -1; v = std::addressof(o) == this ? -1 : x; this->finish(); return *this; }

alignas(64) unsigned char g_elsewhere[256];
struct AllThrow : Base<8, true, true, true>
{
    COMMON(AllThrow, true) COPYABLE(AllThrow, true) MOVE_CTOR(AllThrow, true) MOVE_ASSIGN(AllThrow, true)
    double pad[2] = {};
};
struct MovesSafely : Base<8, true, false, false>
{
    COMMON(MovesSafely, true) COPYABLE(MovesSafely, true) MOVE_CTOR(MovesSafely, false) MOVE_ASSIGN(MovesSafely, false)
    MovesSafely(std::initializer_list<int> l) : MovesSafely(0) { sim_obj(O_LIST, this, nullptr, std::int64_t(l.size()), 0); }
    char pad[37] = {};
};
struct alignas(64) NeverThrows : Base<64, false, false, false>
{
    COMMON(NeverThrows, false) COPYABLE(NeverThrows, false) MOVE_CTOR(NeverThrows, false) MOVE_ASSIGN(NeverThrows, false)
    char pad[100] = {};
};
struct MoveOnlyT : Base<8, true, false, true>
{
    COMMON(MoveOnlyT, true) MOVE_CTOR(MoveOnlyT, false) MOVE_ASSIGN(MoveOnlyT, true)
    MoveOnlyT(const MoveOnlyT &) = delete;
    MoveOnlyT &operator=(const MoveOnlyT &) = delete;
};
struct CopyOnly : Base<8, true, true, true>
{
    COMMON(CopyOnly, true) COPYABLE(CopyOnly, true)
    void *pad = nullptr;
};
struct MixedMoves : Base<8, true, false, true>  // asked through its class, it is elsewhere
{
    static void *operator new(std::size_t, void *) noexcept { return g_elsewhere; }
    static void operator delete(void *, void *) noexcept {}
    MixedMoves *operator&() noexcept { return reinterpret_cast<MixedMoves *>(g_elsewhere); }
    const MixedMoves *operator&() const noexcept { return reinterpret_cast<const MixedMoves *>(g_elsewhere); }
    COMMON(MixedMoves, true) COPYABLE(MixedMoves, true) MOVE_CTOR(MixedMoves, false) MOVE_ASSIGN(MixedMoves, true)
};
struct alignas(32) MixedMoves2 : Base<32, true, true, false>
{
    COMMON(MixedMoves2, true) COPYABLE(MixedMoves2, true) MOVE_CTOR(MixedMoves2, true) MOVE_ASSIGN(MixedMoves2, false)
};
// What may throw differs between operations that look alike.
struct CtorsThrow : Base<8, true, true, false>
{
    COMMON3(CtorsThrow, false, true, false) COPY_CTOR(CtorsThrow, true) COPY_ASSIGN(CtorsThrow, false)
    MOVE_CTOR(CtorsThrow, false) MOVE_ASSIGN(CtorsThrow, true)
};
struct AssignsThrow : Base<8, false, false, true>
{
    COMMON3(AssignsThrow, true, false, true) COPY_CTOR(AssignsThrow, false) COPY_ASSIGN(AssignsThrow, true)
    MOVE_CTOR(AssignsThrow, true) MOVE_ASSIGN(AssignsThrow, false)
    short pad[9] = {};
};

// Something to fall back on, should the rest fail.
struct DefaultSafe : Base<8, true, false, true>
{
    COMMON3(DefaultSafe, false, true, true) COPYABLE(DefaultSafe, true) MOVE_CTOR(DefaultSafe, true) MOVE_ASSIGN(DefaultSafe, true)
    int pad[3] = {};
};

template <class T>
using W = utils::fast_pimpl<T, sizeof(T), alignof(T)>;

template <class F>
int run(F &&f)
{
    return caught(f);
}
template <class T, class H>
struct api_of
{
    static constexpr bool kWrap = !std::is_same_v<T, H>;
    static constexpr bool kCopy = std::is_copy_constructible_v<T>;
    static constexpr bool kDeclaresMove = !std::is_same_v<T, CopyOnly>;
    using fc = utils::forwarding_constructor;
    static H &h(void *p) { return *static_cast<H *>(p); }
    static const H &h(const void *p) { return *static_cast<const H *>(p); }
    static T &t(void *p) { return *static_cast<T *>(p); }
    static T &get(H &x)
    {
        if constexpr (kWrap) return x.get();
        else return x;
    }
    static const T &cget(const H &x)
    {
        if constexpr (kWrap) return x.get();
        else return x;
    }
    static T *arrow(H &x)
    {
        if constexpr (kWrap) return x.operator->();
        else return std::addressof(x);
    }
    static const T *carrow(const H &x)
    {
        if constexpr (kWrap) return x.operator->();
        else return std::addressof(x);
    }
    template <class... A>
    static void fwd(void *m, A &&...a)
    {
        if constexpr (kWrap) ::new (m) H(fc{}, std::forward<A>(a)...);
        else ::new (m) H(std::forward<A>(a)...);
    }
    template <class... A>
    static H temp(A &&...a)
    {
        if constexpr (kWrap) return H(fc{}, std::forward<A>(a)...);
        else return H(std::forward<A>(a)...);
    }
    static H pass(H x) { return x; }
    static std::vector<H> *&vecp()
    {
        static std::vector<H> *v = nullptr;
        return v;
    }
    static int make(int how, void *m, void *src, int v, int *after)
    {
        Tok a{v}, b{v + 3};
        const Tok ca{v};
        int rc = 3;
        switch (how)
        {
            case P_DEFAULT: rc = run([&] { ::new (m) H(); }); break;
            case P_FWD_NONE: rc = run([&] { fwd(m); }); break;
            case P_FWD_INT: rc = run([&] { fwd(m, v); }); break;
            case P_FWD_TWO: rc = run([&] { fwd(m, v, 7); }); break;
            case P_FWD_LV: rc = run([&] { fwd(m, a); }); break;
            case P_FWD_CLV: rc = run([&] { fwd(m, ca); }); break;
            case P_FWD_RV: rc = run([&] { fwd(m, std::move(a)); }); break;
            case P_FWD_MIXED: rc = run([&] { fwd(m, a, std::move(b), "z"); }); break;
            case P_RETURNED: rc = run([&] { ::new (m) H(temp(v)); }); break;
            case P_MOVE: rc = run([&] { ::new (m) H(std::move(h(src))); }); break;
            case P_BARE_MOVE: rc = run([&] { ::new (m) H(std::move(t(src))); }); break;
            default:
                if constexpr (kCopy)
                {
                    switch (how)
                    {
                        case P_COPY: rc = run([&] { ::new (m) H(static_cast<const H &>(h(src))); }); break;
                        case P_COPY_NC: rc = run([&] { ::new (m) H(h(src)); }); break;
                        case P_COPY_CR: rc = run([&] { ::new (m) H(static_cast<const H &&>(h(src))); }); break;
                        case P_BARE_COPY: rc = run([&] { ::new (m) H(static_cast<const T &>(t(src))); }); break;
                        default:
                            rc = run(
                                [&]
                                {
                                    const T &s = t(src);
                                    auto take = [&](const H &x) { ::new (m) H(x); };
                                    if constexpr (kWrap) take(s);
                                    else take(H(s));
                                });
                            break;
                    }
                }
                break;
        }
        *after = a.v * 1000 + b.v;
        return rc;
    }
    static int assign(int how, void *d, void *s, int v, bool *self)
    {
        *self = true;
        auto chk = [&](H &r) { *self = std::addressof(r) == std::addressof(h(d)); };
        switch (how)
        {
            case PA_MOVE: return run([&] { chk(h(d) = std::move(h(s))); });
            case PA_BARE_MOVE: return run([&] { chk(h(d) = std::move(t(s))); });
            case PA_TEMP: return run([&] { chk(h(d) = temp(v)); });
            case PA_SWAP: return run([&] { std::swap(h(d), h(s)); });
            default: break;
        }
        if constexpr (kCopy)
        {
            switch (how)
            {
                case PA_COPY: return run([&] { chk(h(d) = static_cast<const H &>(h(s))); });
                case PA_COPY_NC: return run([&] { chk(h(d) = h(s)); });
                case PA_BARE_COPY: return run([&] { chk(h(d) = static_cast<const T &>(t(s))); });
                case PA_THROUGH_FUNCTION: return run([&] { chk(h(d) = pass(h(s))); });
                default: break;
            }
        }
        return 3;
    }
    static int vec(int what, void *slot, std::size_t at, int v)
    {
        auto &x = *vecp();
        auto pos = [&] { return x.begin() + static_cast<std::ptrdiff_t>(at); };
        switch (what)
        {
            case PV_PUSH_MOVE: return run([&] { x.push_back(std::move(h(slot))); });
            case PV_EMPLACE:
                return run(
                    [&]
                    {
                        if constexpr (kWrap) x.emplace_back(fc{}, v);
                        else x.emplace_back(v);
                    });
            case PV_INSERT: return run([&] { x.insert(pos(), std::move(h(slot))); });
            case PV_ERASE: return run([&] { x.erase(pos()); });
            case PV_POP: return run([&] { x.pop_back(); });
            case PV_CLEAR: return run([&] { x.clear(); });
            case PV_RESERVE: return run([&] { x.reserve(at); });
            case PV_RESIZE: return run([&] { x.resize(at); });
            case PV_ROTATE: return run([&] { std::rotate(x.begin(), pos(), x.end()); });
            case PV_TAKE: return run([&] { h(slot) = std::move(x[at]); });
            case PV_SORT:
                return run(
                    [&] { std::sort(x.begin(), x.end(), [](const H &l, const H &r) { return cget(l).v < cget(r).v; }); });
            default: break;
        }
        if constexpr (kCopy)
        {
            if (what == PV_PUSH_COPY) return run([&] { x.push_back(h(slot)); });
            if (what == PV_COPY)
                return run(
                    [&]
                    {
                        std::vector<H> y(x);
                        x = y;
                    });
        }
        return 3;
    }
    static int locals(int n, int v)
    {
        return run(
            [&]
            {
                H a(temp(v));
                H b[3];
                H c(std::move(a));
                for (auto &e : b) e = temp(v + 1);
                if (n) throw Boom{};
            });
    }
    template <class X>
    static constexpr void traits(X &r)
    {
        constexpr bool all[kTraits] = {
            std::is_nothrow_default_constructible_v<H>,
            std::is_nothrow_copy_constructible_v<H> && kCopy,
            std::is_nothrow_move_constructible_v<H>,
            std::is_nothrow_copy_assignable_v<H> && kCopy,
            std::is_nothrow_move_assignable_v<H>,
            std::is_nothrow_constructible_v<H, const T &> && kCopy,
            std::is_nothrow_constructible_v<H, T &&>,
            std::is_nothrow_assignable_v<H &, const T &> && kCopy,
            std::is_nothrow_assignable_v<H &, T &&>,
            std::is_nothrow_destructible_v<H>,
            std::is_nothrow_swappable_v<H>,
            [] {
                if constexpr (kWrap) return std::is_nothrow_constructible_v<H, fc, int>;
                else return std::is_nothrow_constructible_v<H, int>;
            }(),
            [] {
                if constexpr (kWrap) return std::is_nothrow_constructible_v<H, fc, Tok &, Tok &&, const char *>;
                else return std::is_nothrow_constructible_v<H, Tok &, Tok &&, const char *>;
            }(),
            [] {
                if constexpr (kWrap) return std::is_nothrow_constructible_v<H, fc>;
                else return std::is_nothrow_constructible_v<H>;
            }(),
        };
        for (int i = 0; i < kTraits; ++i) r[i] = all[i];
    }
    static constexpr PimplApi value()
    {
        PimplApi a{
            sizeof(H),
            alignof(H),
            sizeof(T),
            alignof(T),
            kCopy,
            kDeclaresMove,
            std::is_nothrow_copy_constructible_v<T>,
            {},
            &make,
            &assign,
            [](void *p) { h(p).~H(); },
            [](const void *p) -> int { return carrow(h(p))->v; },
            [](void *p) -> int { return get(h(p)).v; },
            [](void *p, int v, bool g)
            {
                if (g) get(h(p)).v = v;
                else arrow(h(p))->v = v;
            },
            &vec,
            [] { return vecp()->size(); },
            [](std::size_t i) -> const void * { return std::addressof((*vecp())[i]); },
            [] { vecp() = new std::vector<H>; },
            []
            {
                delete vecp();
                vecp() = nullptr;
            },
            &locals,
            [](const void *p) -> const void * { return std::addressof(cget(h(p))); },
        };
        traits(a.traits);
        return a;
    }
};
}  // namespace
#ifdef SUT_NO_MOVE_ONLY  // see check.py: PARTS
using Slot3 = MixedMoves;
#else
using Slot3 = MoveOnlyT;
#endif
#define ALL(X) X(AllThrow), X(MovesSafely), X(NeverThrows), X(Slot3), X(CopyOnly), X(MixedMoves), X(MixedMoves2), X(CtorsThrow), X(AssignsThrow), X(DefaultSafe)
#define WRAPPED(T) api_of<T, W<T>>::value()
#define BARE(T) api_of<T, T>::value()
const PimplApi kWrapped[kPimpls] = {ALL(WRAPPED)};
const PimplApi kBare[kPimpls] = {ALL(BARE)};
}  // namespace sut

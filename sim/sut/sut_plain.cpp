// Types people put into a wrapper that were not written for a simulation.
#include <utils/utils.h>

#include <any>
#include <map>
#include <memory>
#include <optional>

#include "sut.h"
namespace sut
{
namespace
{
enum class Colour : short
{
    red = 3
};
struct Aggregate
{
    int a;
    double b;
    void *p;
    Colour c;
    short s[3];
};
struct Nested
{
    Aggregate in;
    int *q;
};
struct HasDefault
{
    int x = 41;
    int y;
};
struct Shape
{
    virtual ~Shape() = default;
    virtual int area() const { return 1; }
};
struct Square : Shape
{
    int side = 7;
    Square() = default;
    explicit Square(int n) : side(n) {}
    int area() const override { return side * side; }
};
struct ByReference  // rebinds nothing, assigns through
{
    static int target;
    int &r = target;
    int own = 5;
    ByReference() = default;
    explicit ByReference(int n) : own(n) {}
    ByReference(const ByReference &o) : r(o.r), own(o.own) {}
    ByReference &operator=(const ByReference &o)
    {
        own = o.own + 1;
        return *this;
    }
};
int ByReference::target = 0;
struct SelfPointer  // knows where it lives
{
    SelfPointer *me = this;
    int n = 0;
    SelfPointer() = default;
    explicit SelfPointer(int x) : n(x) {}
    SelfPointer(const SelfPointer &o) : n(o.n) {}
    SelfPointer(SelfPointer &&o) : n(o.n) { o.n = -1; }
    SelfPointer &operator=(const SelfPointer &o)
    {
        n = o.n;
        return *this;
    }
    SelfPointer &operator=(SelfPointer &&o)
    {
        int k = o.n;
        o.n = -1;
        n = k;
        return *this;
    }
};
struct OwnNew  // places itself where its class says, if asked through the class
{
    static void *operator new(std::size_t, void *) noexcept
    {
        alignas(16) static unsigned char elsewhere[64];
        return elsewhere;
    }
    static void operator delete(void *, void *) noexcept {}
    int n = 9;
    const OwnNew *me = this;
    OwnNew() = default;
    explicit OwnNew(int x) : n(x) {}
    OwnNew(const OwnNew &o) : n(o.n) {}
    OwnNew &operator=(const OwnNew &o)
    {
        n = o.n;
        return *this;
    }
};
struct OwnAddress  // a handle: its address is that of what it refers to
{
    static OwnAddress &other()
    {
        alignas(16) static unsigned char elsewhere[64];
        return reinterpret_cast<OwnAddress &>(elsewhere);
    }
    OwnAddress *operator&() { return std::addressof(other()); }
    const OwnAddress *operator&() const { return std::addressof(other()); }
    int n = 11;
    const OwnAddress *me = this;
    OwnAddress() = default;
    explicit OwnAddress(int x) : n(x) {}
    OwnAddress(const OwnAddress &o) : n(o.n) {}
    OwnAddress &operator=(const OwnAddress &o)
    {
        n = o.n;
        return *this;
    }
};
struct ByAddress  // points at itself or at another one; its copies do likewise
{
    ByAddress *p = nullptr;
    int n = 13;
    ByAddress() : p(this) {}
    explicit ByAddress(int x) : p(x & 1 ? this : nullptr), n(x) {}
    ByAddress(const ByAddress &o) : p(o.p == &o ? this : o.p), n(o.n) {}
    ByAddress &operator=(const ByAddress &o)
    {
        p = o.p == &o ? this : o.p;
        n = o.n;
        return *this;
    }
};
using Str = std::string;
#ifdef SUT_NO_MOVE_ONLY  // see check.py: PARTS
using Uptr = std::shared_ptr<int>;
#else
using Uptr = std::unique_ptr<int>;
#endif
using Sptr = std::shared_ptr<const int>;
using Vec = std::vector<short>;
using Fun = std::function<int(int)>;
using Map = std::map<int, std::string>;
using Opt = std::optional<std::string>;
using List = std::vector<std::any>;  // a list of one is something else than a copy

std::int64_t bits(double d)
{
    std::int64_t x;
    std::memcpy(&x, &d, sizeof x);
    return x;
}
std::int64_t hash(const std::string &s)
{
    std::int64_t h = std::int64_t(s.size()) * 1000003;
    for (char c : s) h = h * 31 + c;
    return h;
}
using Out = std::int64_t *;
void snap(int x, Out o) { o[0] = x; }
void snap(double x, Out o) { o[0] = bits(x); }
void snap(const char *x, Out o) { o[0] = x ? x[0] : -1; }
void snap(const Aggregate &x, Out o)
{
    o[0] = x.a;
    o[1] = bits(x.b);
    o[2] = x.p != nullptr;
    o[3] = int(x.c);
    o[4] = x.s[0] + 7 * x.s[1] + 49 * x.s[2];
}
void snap(const Nested &x, Out o)
{
    snap(x.in, o);
    o[5] = x.q != nullptr;
}
void snap(const HasDefault &x, Out o)
{
    o[0] = x.x;
}
void snap(const Square &x, Out o)
{
    const Shape &s = x;
    o[0] = s.area();
}
void snap(const ByReference &x, Out o)
{
    o[0] = x.own;
    o[1] = &x.r == &ByReference::target;
}
void snap(const SelfPointer &x, Out o)
{
    o[0] = x.n;
    o[1] = x.me == &x;
}
void snap(const OwnNew &x, Out o)
{
    o[0] = x.n;
    o[1] = x.me == std::addressof(x);
}
void snap(const OwnAddress &x, Out o)
{
    o[0] = x.n;
    o[1] = x.me == std::addressof(x);
}
void snap(const ByAddress &x, Out o)
{
    o[0] = x.n;
    o[1] = x.p == &x ? 2 : x.p != nullptr;
}
void snap(const Str &x, Out o) { o[0] = hash(x); }
void snap(const Uptr &x, Out o) { o[0] = x ? *x : -1; }
void snap(const Sptr &x, Out o)
{
    o[0] = x ? *x : -1;
    o[1] = x.use_count();
}
void snap(const Vec &x, Out o)
{
    o[0] = std::int64_t(x.size());
    for (short e : x) o[1] = o[1] * 31 + e;
}
void snap(const Fun &x, Out o) { o[0] = x ? x(3) : -1; }
void snap(const Map &x, Out o)
{
    o[0] = std::int64_t(x.size());
    for (auto &e : x) o[1] = o[1] * 31 + e.first + hash(e.second);
}
void snap(const List &x, Out o)
{
    o[0] = std::int64_t(x.size());
    for (auto &e : x) o[1] = o[1] * 31 + (std::any_cast<int>(&e) ? *std::any_cast<int>(&e) : -7);
}
void snap(const Opt &x, Out o) { o[0] = x ? hash(*x) : -1; }

// How a T is built from a number: through one constructor argument.
template <class T>
struct from;
#define FROM(T, E)                       \
    template <>                          \
    struct from<T>                       \
    {                                    \
        static auto arg(int v) { return E; } \
    };
FROM(int, v)
FROM(double, double(v) / 2)
FROM(const char *, (v & 1) ? "odd" : "even")
FROM(Aggregate, (Aggregate{v, double(v), nullptr, Colour::red, {1, 2, short(v)}}))
FROM(Nested, (Nested{{v, 1.5, nullptr, Colour::red, {4, 5, 6}}, nullptr}))
FROM(HasDefault, (HasDefault{v, v}))
FROM(Square, v)
FROM(ByReference, v)
FROM(SelfPointer, v)
FROM(OwnNew, v)
FROM(OwnAddress, v)
FROM(ByAddress, v)
FROM(Str, std::string(std::size_t(v), char('a' + v % 26)))
FROM(Uptr, Uptr(new int(v)))
FROM(Sptr, std::make_shared<const int>(v))
FROM(Vec, Vec(std::size_t(v), short(v)))
FROM(Fun, [v](int x) { return x * v; })
FROM(Map, (Map{{v, "x"}, {v + 1, std::string(std::size_t(v), 'y')}}))
FROM(List, (List{std::any(v), std::any(v + 1)}))
FROM(Opt, std::string(std::size_t(v), 'o'))

template <class T>
using W = utils::fast_pimpl<T, sizeof(T), alignof(T)>;
template <class T, class H>
struct plain
{
    static constexpr bool kWrap = !std::is_same_v<T, H>;
    static constexpr bool kCopy = std::is_copy_constructible_v<T>;
    using fc = utils::forwarding_constructor;
    static T &get(H &x)
    {
        if constexpr (kWrap) return x.get();
        else return x;
    }
    static void look(H &x, std::int64_t *out)
    {
        snap(get(x), out);
        if constexpr (kWrap)
        {
            const H &c = x;
            out[6] = x.operator->() == std::addressof(get(x)) && c.operator->() == std::addressof(get(x)) &&
                     static_cast<void *>(std::addressof(x)) == static_cast<void *>(std::addressof(get(x)));
        }
        else out[6] = 1;
    }
    // Builds one in m, does something with it and another one in n.
    static void run(int how, int then, void *m, void *n, int v, std::int64_t *out)
    {
        H *p = nullptr;
        switch (how)
        {
            case 0: p = ::new (m) H(); break;
            case 1:
                if constexpr (kWrap) p = ::new (m) H(fc{});
                else p = ::new (m) H();
                break;
            case 2:
                if constexpr (kWrap) p = ::new (m) H(fc{}, from<T>::arg(v));
                else p = ::new (m) H(from<T>::arg(v));
                break;
            default:
            {
                T t(from<T>::arg(v));
                p = ::new (m) H(std::move(t));
                break;
            }
        }
        H *q = nullptr;
        look(*p, out);
        if (then == 0)
        {
            q = ::new (n) H(std::move(*p));
        }
        else if (then == 1)
        {
            q = ::new (n) H();
            *q = std::move(*p);
        }
        else if (then == 2)
        {
            q = ::new (n) H();
            std::swap(*p, *q);
        }
        else if (then == 3)
        {
            q = ::new (n) H();
            *q = T(from<T>::arg(v + 1));
        }
        else if constexpr (kCopy)
        {
            if (then == 4) q = ::new (n) H(static_cast<const H &>(*p));
            else if (then == 5)
            {
                q = ::new (n) H();
                *q = static_cast<const H &>(*p);
            }
            else if (then == 6)
            {
                *p = static_cast<const H &>(*p);
                q = ::new (n) H(static_cast<const T &>(get(*p)));
            }
            else
            {
                const T t(from<T>::arg(v + 2));
                q = ::new (n) H(t);
                *q = *p;
                *p = t;
            }
        }
        look(*p, out + 8);
        if (q)
        {
            look(*q, out + 16);
            q->~H();
        }
        p->~H();
    }
    static constexpr PlainApi value() { return {sizeof(H), alignof(H), sizeof(T), alignof(T), &run}; }
};
}  // namespace
#define ALL(X)                                                                                                       \
    X(int), X(double), X(const char *), X(Aggregate), X(Nested), X(HasDefault), X(Square), X(ByReference), X(SelfPointer), \
        X(OwnNew), X(OwnAddress), X(ByAddress), X(Str), X(Uptr), X(Sptr), X(Vec), X(Fun), X(Map), X(Opt), X(List)
#define WRAPPED(T) plain<T, W<T>>::value()
#define BARE(T) plain<T, T>::value()
const PlainApi kPlainWrapped[kPlains] = {ALL(WRAPPED)};
const PlainApi kPlainBare[kPlains] = {ALL(BARE)};
}  // namespace sut

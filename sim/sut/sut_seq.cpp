// Array builders and visitors, used with objects that may throw.
#include <utils/common.h>

#include "boom.h"
#include "sut.h"
namespace sut
{
namespace
{
template <class T, bool CopyThrows, bool MoveThrows>
struct Base
{
    int v = 0;
    int late = 0;
    void event(int what, const void *other, std::int64_t val, bool can_throw)
    {
        const int r = sim_obj(what, this, other, val, can_throw);
        if ((r & 3) == 1) boom(r);
        late = r;
    }
    void finish()
    {
        if (!late) return;
        const int r = late;
        late = 0;
        boom(r);
    }
};
#define MADE(N, CT)                                                                                \
    N() noexcept(!(CT)) { this->event(O_DEFAULT, nullptr, 0, CT); v = 1000; this->finish(); }      \
    explicit N(int x) noexcept(!(CT)) { this->event(O_INT, nullptr, x, CT); v = x; this->finish(); } \
    ~N() { sim_obj(O_DESTROY, this, nullptr, v, 0); }
#define COPIED(N, CT) \
    N(const N &o) noexcept(!(CT)) { this->event(O_COPY, std::addressof(o), o.v, CT); v = o.v; this->finish(); }
#define MOVED(N, MT) \
    N(N &&o) noexcept(!(MT)) { this->event(O_MOVE, std::addressof(o), o.v, MT); v = o.v; o.v = -1; this->finish(); }
struct CopyThrows : Base<CopyThrows, true, false>
{
    MADE(CopyThrows, true) COPIED(CopyThrows, true) MOVED(CopyThrows, false)
};
struct AllThrow : Base<AllThrow, true, true>
{
    MADE(AllThrow, true) COPIED(AllThrow, true) MOVED(AllThrow, true)
    char pad[5] = {};
};
struct CopyOnly : Base<CopyOnly, true, true>
{
    MADE(CopyOnly, true) COPIED(CopyOnly, true)
    void *pad = nullptr;
};
struct MoveOnly : Base<MoveOnly, true, true>
{
    MADE(MoveOnly, true) MOVED(MoveOnly, true)
};
struct alignas(64) Never : Base<Never, false, false>
{
    MADE(Never, false) COPIED(Never, false) MOVED(Never, false)
};

template <class T>
constexpr bool kCopies = std::is_copy_constructible_v<T>;
template <class T>
constexpr bool kMoves = !std::is_same_v<T, CopyOnly>;

// What a form says about itself while it runs.
struct Says
{
    SeqReport &r;
    template <class A>
    void result(const A &a, std::initializer_list<int> want)
    {
        r.sizes_differ = a.size() != want.size();
        auto w = want.begin();
        for (std::size_t i = 0; i < a.size() && i < want.size(); ++i, ++w) value(a[i].v, *w);
    }
    void value(int got, int want)
    {
        if (r.n < SeqReport::kMost) r.got[r.n] = got, r.want[r.n++] = want;
    }
};
// Looks at a source when it goes out of scope: after the form, or while an
// exception passes by.
template <class T>
struct Watched
{
    T &t;
    SeqReport &r;
    const int was;
    const bool given_away;
    Watched(T &x, SeqReport &rr, bool away) : t(x), r(rr), was(x.v), given_away(away && kMoves<T>) {}
    ~Watched()
    {
        const bool threw = !r.done;
        if (!given_away) r.sources_changed += t.v != was;
        else if (!threw) r.sources_kept += t.v != -1;
        else r.sources_changed += t.v != was && t.v != -1;
    }
};
template <class T, std::size_t N>
struct Source
{
    std::array<T, N> a;
    SeqReport &r;
    std::array<int, N> was{};
    const bool given_away;
    template <std::size_t... I>
    Source(SeqReport &rr, int v, bool away, std::index_sequence<I...>) : a{T(v + int(I))...}, r(rr), given_away(away && kMoves<T>)
    {
        for (std::size_t i = 0; i < N; ++i) was[i] = a[i].v;
    }
    Source(SeqReport &rr, int v, bool away) : Source(rr, v, away, std::make_index_sequence<N>{}) {}
    ~Source()
    {
        for (std::size_t i = 0; i < N; ++i)
        {
            const int t = a[i].v, w = was[i];
            if (!given_away) r.sources_changed += t != w;
            else if (r.done) r.sources_kept += t != -1;
            else r.sources_changed += t != w && t != -1;
        }
    }
};
template <class T>
struct Source<T, 0>
{
    std::array<T, 0> a;
    Source(SeqReport &, int, bool) {}
};

enum Form
{
    S_ARGS_LV,
    S_ARGS_MIXED,
    S_ARGS_CONST,
    S_ARGS_RV,
    S_VALUE_LV,
    S_VALUE_RV,
    S_VALUE_DEFAULT,
    S_VALUE_NONE,
    S_ZERO,
    S_ONE_LV,
    S_ONE_RV,
    S_TWO_LV,
    S_TWO_MIXED,
    S_TWO_RV,
    S_FOUR,
    S_EMPTY_FIRST,
    S_EMPTY_MIDDLE,
    S_TEMPORARIES,
    S_MANY_VALUE,
    S_MANY_ARRAYS,
    S_LONG_ARRAYS,
    S_NUMBERS,
    kBuilds,
    V_ARGS = kBuilds,
    V_ARGS_RV_F,
    V_ARGS_CONST_F,
    V_TUPLE,
    V_TUPLE_RV,
    V_TUPLE_CONST,
    V_TUPLE_REFS,
    V_TUPLE_EMPTY,
    V_ARRAY,
    V_PAIR,
    V_NONE,
    V_TUPLE_CONST_F,
    V_TUPLE_RV_F,
    V_MANY,
    V_MANY_ARGS,
    V_NESTED,
    V_NESTED_TUPLE,
    V_BUILTIN,
    V_BUILTIN_TUPLE,
    V_BUILTIN_ALIKE,
    kForms
};

// What a visit answers means nothing to the visits that follow.
struct Answer
{
    bool yes;
    explicit operator bool() const { return yes; }
};
struct Visitor
{
    SeqReport &r;
    int calls = 0;
    void (*nested)(void *) = nullptr;  // what the second call does
    void *context = nullptr;
    explicit Visitor(SeqReport &rr) : r(rr) {}
    Visitor(const Visitor &o) : r(o.r), calls(o.calls) { ++r.visitor_copied; }
    Visitor(Visitor &&o) : r(o.r), calls(o.calls) { ++r.visitor_copied; }
    template <class X>
    void see(X &&x, int as) const
    {
        using B = std::remove_reference_t<X>;
        const int category = (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<B> ? 1 : 0);
        const int t = sim_visit(std::addressof(x), category, as, x.v);
        if ((t & 3) == 1) boom(t);
        if (t == 2)
        {
            if constexpr (!std::is_const_v<B> && !std::is_lvalue_reference_v<X> && kMoves<B>) B taken(std::forward<X>(x));
        }
    }
    template <class X>
    auto operator()(X &&x) &
    {
        ++calls;
        see(std::forward<X>(x), 0);
        if (nested && calls == 2) nested(context);
        if constexpr (std::is_lvalue_reference_v<X>) return calls % 2 == 0;
        else return Answer{calls % 2 == 0};
    }
    template <class X>
    auto operator()(X &&x) const &
    {
        see(std::forward<X>(x), 1);
        return x.v % 2;
    }
    template <class X>
    void operator()(X &&x) &&
    {
        ++calls;
        see(std::forward<X>(x), 2);
    }
};

// Knows the type and the place of everything it is shown.
template <class X>
constexpr char kTag = 0;
struct Wants
{
    const void *tag;
    const void *at;  // null: wherever
    double value;
};
template <class X>
const void *place(X &x)
{
    if constexpr (std::is_function_v<X>) return reinterpret_cast<const void *>(&x);
    else return std::addressof(x);
}
template <class X>
double number(const X &x)
{
    if constexpr (std::is_arithmetic_v<X> || std::is_enum_v<X>) return double(x);
    else return 0;
}
template <class X>
Wants wants(X &&x, bool anywhere = false)
{
    return {&kTag<X &&>, anywhere ? nullptr : place(x), number(x)};
}
struct Builtins
{
    SeqReport &r;
    const Wants *w;
    int n, at = 0;
    template <class X>
    void operator()(X &&x)
    {
        const int i = at++;
        if (i >= n || r.n >= SeqReport::kMost) return;
        const Wants g = wants(std::forward<X>(x));
        r.want[r.n] = 7;
        r.got[r.n++] = (g.tag == w[i].tag) + 2 * (!w[i].at || g.at == w[i].at) + 4 * (g.value == w[i].value);
    }
};
inline void some_function(int) {}
enum class Hue : unsigned char
{
    blue = 200
};
void numbers(int v, SeqReport &r)
{
    using namespace utils;
    const auto put = [&](double got, double want)
    {
        std::memcpy(&r.got[r.n], &got, sizeof got);
        std::memcpy(&r.want[r.n++], &want, sizeof want);
    };
    int i = v;
    double d = v + 1e-9;
    const float f = float(v) + .5f;
    auto a = make_array(f, d, std::move(f), std::move(d));
    static_assert(std::is_same_v<decltype(a), std::array<double, 4>>);
    const double wa[] = {v + .5, v + 1e-9, v + .5, v + 1e-9};
    for (int k = 0; k < 4; ++k) put(a[std::size_t(k)], wa[k]);
    const long long big = (1ll << 40) + v;
    auto b = make_array(short(v), big, i);
    static_assert(std::is_same_v<decltype(b), std::array<long long, 3>>);
    put(double(b[0]), v);
    put(double(b[1] - (1ll << 40)), v);
    put(double(b[2]), v);
    auto p = make_array(&i, nullptr, static_cast<const int *>(&i));
    static_assert(std::is_same_v<decltype(p), std::array<const int *, 3>>);
    put(p[0] == &i && !p[1] && p[2] == &i, 1);
    const char word[] = "abc", other[] = "de";
    auto s = make_array(word, other);
    static_assert(std::is_same_v<decltype(s), std::array<const char *, 2>>);
    put(s[0] == word && s[1] == other, 1);
    auto t = make_array(std::string("x"), "yz", std::string(std::size_t(v % 40), 'q'));
    put(t[0] == "x" && t[1] == "yz" && t[2] == std::string(std::size_t(v % 40), 'q'), 1);
    auto z = make_zero_array<double, 5>();
    for (double e : z) put(e, 0);
    auto y = make_zero_array<const void *, 2>();
    put(!y[0] && !y[1], 1);
    auto w = make_array<unsigned char, 3>(static_cast<unsigned char>(v));
    for (auto e : w) put(e, v & 255);
    auto u = make_array<int, 2>();
    put(u[0] + u[1], 0);
    put(double(make_array<int>().size()), 0);
    const auto c = concatenate_arrays(w, make_array<unsigned char, 2>(static_cast<unsigned char>(v + 1)));
    put(double(c.size()), 5);
    for (std::size_t k = 0; k < c.size(); ++k) put(c[k], (v + (k > 2)) & 255);
    r.done = true;
}
void builtins(int form, int v, SeqReport &r)
{
    using namespace utils;
    int i = v;
    double d = v + .25;
    const long l = v + 1;
    bool yes = v & 1;
    Hue h = Hue::blue;
    char text[4] = "abc";
    const int many[3] = {v, v, v};
    const auto finish = [&](const Builtins &f)
    {
        if (f.at != f.n) r.calls_lost = true;
        r.done = true;
    };
    if (form == V_BUILTIN)
    {
        const Wants w[] = {wants(i), wants(2.5, true), wants(std::move(d)), wants('c', true), wants(l), wants(std::move(l)), wants(yes), wants(h), wants(Hue::blue, true), wants(text), wants("abc", true), wants(many), wants(some_function), wants(&some_function, true), wants(nullptr, true), wants(i)};
        Builtins f{r, w, int(std::size(w))};
        for_each_arg(f, i, 2.5, std::move(d), 'c', l, std::move(l), yes, h, Hue::blue, text, "abc", many, some_function, &some_function, nullptr, i);
        finish(f);
    }
    else if (form == V_BUILTIN_TUPLE)
    {
        std::tuple<int, double, char *, Hue, const long, bool, int &, const double &, int &&, std::nullptr_t> t(v, 2.5, text, h, l, yes, i, d, std::move(i), nullptr);
        const bool rv = v & 1;
        const Wants lv[] = {wants(std::get<0>(t)), wants(std::get<1>(t)), wants(std::get<2>(t)), wants(std::get<3>(t)), wants(std::get<4>(t)), wants(std::get<5>(t)), wants(i), wants(std::as_const(d)), wants(i), wants(std::get<9>(t))};
        const Wants rvs[] = {wants(std::move(std::get<0>(t))), wants(std::move(std::get<1>(t))), wants(std::move(std::get<2>(t))), wants(std::move(std::get<3>(t))), wants(std::move(std::get<4>(t))), wants(std::move(std::get<5>(t))), wants(i), wants(std::as_const(d)), wants(std::move(i)), wants(std::move(std::get<9>(t)))};
        Builtins f{r, rv ? rvs : lv, 10};
        if (rv) for_each_in_tuple(f, std::move(t));
        else for_each_in_tuple(f, t);
        finish(f);
    }
    else  // only numbers, and then only of few types
    {
        float q = float(v) / 2;
        const Wants w[] = {wants(i), wants(d), wants(std::move(q)), wants(3, true), wants(yes)};
        Builtins f{r, w, 5};
        for_each_arg(f, i, d, std::move(q), 3, yes);
        finish(f);
        const Wants w2[] = {wants(1, true), wants(2.5, true), wants('c', true)};
        Builtins g{r, w2, 3};
        for_each_arg(g, 1, 2.5, 'c');
        finish(g);
        std::pair<int, double> p(v, v + .5);
        const Wants w3[] = {wants(p.first), wants(p.second)};
        Builtins k{r, w3, 2};
        for_each_in_tuple(k, p);
        finish(k);
        std::array<double, 3> a{1. * v, 2. * v, 3. * v};
        const Wants w4[] = {wants(a[0]), wants(a[1]), wants(a[2])};
        Builtins m{r, w4, 3};
        for_each_in_tuple(m, a);
        finish(m);
    }
}

template <class T>
void builds(int form, int v, SeqReport &r)
{
    using namespace utils;
    if (form == S_NUMBERS) return numbers(v, r);
    Says s{r};
    const auto done = [&] { r.done = true; };
    if constexpr (kCopies<T>)
    {
        switch (form)
        {
            case S_ARGS_LV:
            {
                T a(v), b(v + 1), c(v + 2);
                Watched<T> wa(a, r, false), wb(b, r, false), wc(c, r, false);
                r.copies = 3;
                auto x = make_array(a, b, c);
                static_assert(std::is_same_v<decltype(x), std::array<T, 3>>);
                s.result(x, {v, v + 1, v + 2});
                return done();
            }
            case S_ARGS_MIXED:
            {
                T a(v), b(v + 1);
                Watched<T> wa(a, r, false), wb(b, r, true);
                r.copies = 1;
                auto x = make_array(a, std::move(b), T(v + 2));
                s.result(x, {v, v + 1, v + 2});
                return done();
            }
            case S_ARGS_CONST:
            {
                const T a(v), b(v + 1);
                r.copies = 2;
                auto x = make_array(a, std::move(b));
                s.result(x, {v, v + 1});
                s.value(a.v, v);
                s.value(b.v, v + 1);
                return done();
            }
#ifndef SUT_NO_VALUE_LV
            case S_VALUE_LV:
            {
                T a(v);
                Watched<T> wa(a, r, false);
                auto x = make_array<T, 4>(a);
                s.result(x, {v, v, v, v});
                return done();
            }
#endif
            case S_VALUE_RV:
            {
                T a(v);
                Watched<T> wa(a, r, true);
                auto x = make_array<T, 3>(std::move(a));
                s.result(x, {v, v, v});
                return done();
            }
            case S_VALUE_DEFAULT:
            {
                auto x = make_array<T, 3>();
                s.result(x, {1000, 1000, 1000});
                return done();
            }
#ifndef SUT_NO_VALUE_LV
            case S_VALUE_NONE:
            {
                T a(v);
                Watched<T> wa(a, r, false);
                auto x = make_array<T, 0>(a);
                r.sizes_differ = x.size() != 0;
                return done();
            }
#endif
            case S_ONE_LV:
            {
                Source<T, 3> a(r, v, false);
                r.copies = 3;
                auto x = concatenate_arrays(a.a);
                s.result(x, {v, v + 1, v + 2});
                return done();
            }
            case S_TWO_LV:
            {
                Source<T, 2> a(r, v, false);
                Source<T, 3> b(r, v + 10, false);
                r.copies = 5;
                auto x = concatenate_arrays(a.a, std::as_const(b.a));
                s.result(x, {v, v + 1, v + 10, v + 11, v + 12});
                return done();
            }
            case S_TWO_MIXED:
            {
                Source<T, 2> a(r, v, v & 1);
                Source<T, 1> b(r, v + 10, !(v & 1));
                r.copies = v & 1 ? 1 : 2;
                auto x = v & 1 ? concatenate_arrays(std::move(a.a), b.a) : concatenate_arrays(a.a, std::move(b.a));
                s.result(x, {v, v + 1, v + 10});
                return done();
            }
            case S_FOUR:
            {
                Source<T, 2> a(r, v, true);
                Source<T, 1> b(r, v + 10, false);
                Source<T, 3> c(r, v + 20, true);
                Source<T, 2> d(r, v + 30, false);
                r.copies = 3;
                auto x = concatenate_arrays(std::move(a.a), std::as_const(b.a), std::move(c.a), d.a);
                static_assert(std::is_same_v<decltype(x), std::array<T, 8>>);
                s.result(x, {v, v + 1, v + 10, v + 20, v + 21, v + 22, v + 30, v + 31});
                return done();
            }
            case S_MANY_VALUE:
            {
                T a(v);
                Watched<T> wa(a, r, true);
                auto x = make_array<T, 40>(std::move(a));
                r.sizes_differ = x.size() != 40;
                for (auto &e : x) s.value(e.v, v);
                return done();
            }
            case S_LONG_ARRAYS:
            {
                Source<T, 20> a(r, v, v & 1);
                Source<T, 17> b(r, v + 20, v & 2);
                r.copies = (v & 1 ? 0 : 20) + (v & 2 ? 0 : 17);
                auto x = v & 1   ? v & 2 ? concatenate_arrays(std::move(a.a), std::move(b.a)) : concatenate_arrays(std::move(a.a), b.a)
                         : v & 2 ? concatenate_arrays(a.a, std::move(b.a))
                                 : concatenate_arrays(a.a, b.a);
                r.sizes_differ = x.size() != 37;
                for (int i = 0; i < 37; ++i) s.value(x[std::size_t(i)].v, v + i);
                return done();
            }
            case S_EMPTY_FIRST:
            {
                Source<T, 0> a(r, 0, false);
                Source<T, 2> b(r, v, false);
                r.copies = 2;
                auto x = concatenate_arrays(a.a, b.a);
                s.result(x, {v, v + 1});
                return done();
            }
        }
    }
    switch (form)
    {
        case S_ARGS_RV:
        {
            T a(v);
            Watched<T> wa(a, r, true);
            r.copies = 0;
            auto x = make_array(std::move(a), T(v + 1));
            s.result(x, {v, v + 1});
            return done();
        }
        case S_ZERO:
        {
            auto x = make_zero_array<T, 3>();
            s.result(x, {1000, 1000, 1000});
            return done();
        }
        case S_ONE_RV:
        {
            Source<T, 2> a(r, v, true);
            r.copies = 0;
            auto x = concatenate_arrays(std::move(a.a));
            s.result(x, {v, v + 1});
            return done();
        }
        case S_TWO_RV:
        {
            Source<T, 2> a(r, v, true);
            Source<T, 2> b(r, v + 10, true);
            r.copies = 0;
            auto x = concatenate_arrays(std::move(a.a), std::move(b.a));
            s.result(x, {v, v + 1, v + 10, v + 11});
            return done();
        }
        case S_EMPTY_MIDDLE:
        {
            Source<T, 1> a(r, v, true);
            Source<T, 0> n(r, 0, false);
            Source<T, 2> b(r, v + 10, true);
            r.copies = 0;
            auto x = concatenate_arrays(std::move(a.a), n.a, std::move(b.a), std::array<T, 0>{});
            s.result(x, {v, v + 10, v + 11});
            return done();
        }
        case S_MANY_ARRAYS:
        {
            Source<T, 1> a(r, v, true), b(r, v + 1, true), c(r, v + 2, true), d(r, v + 3, true), e(r, v + 4, true), f(r, v + 5, true), g(r, v + 6, true);
            r.copies = 0;
            auto x = concatenate_arrays(std::move(a.a), std::move(b.a), std::move(c.a), std::move(d.a), std::move(e.a), std::move(f.a), std::move(g.a));
            s.result(x, {v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6});
            return done();
        }
        case S_TEMPORARIES:
        {
            r.copies = 0;
            auto x = concatenate_arrays(std::array<T, 2>{T(v), T(v + 1)}, std::array<T, 1>{T(v + 2)}, std::array<T, 1>{T(v + 3)});
            s.result(x, {v, v + 1, v + 2, v + 3});
            return done();
        }
    }
    r.impossible = true;
}

template <class T>
void visits(int form, int v, SeqReport &r)
{
    using namespace utils;
    if (form >= V_BUILTIN) return builtins(form, v, r);
    Visitor f(r);
    const auto expects = [&](const T &t, int category) { sim_expect(std::addressof(t), category, t.v); };
    const auto done = [&](int n)
    {
        if (f.calls != n) r.calls_lost = true;
        r.done = true;
    };
    switch (form)
    {
        case V_ARGS:
        case V_ARGS_RV_F:
        case V_ARGS_CONST_F:
        {
            T a(v), b(v + 1);
            const T c(v + 2);
            r.how = form == V_ARGS ? 0 : form == V_ARGS_RV_F ? 2 : 1;
            expects(a, 0);
            expects(b, 2);
            expects(c, 1);
            sim_expect(nullptr, 2, v + 3);
            if (form == V_ARGS) for_each_arg(f, a, std::move(b), c, T(v + 3));
            else if (form == V_ARGS_RV_F) for_each_arg(std::move(f), a, std::move(b), c, T(v + 3));
            else for_each_arg(std::as_const(f), a, std::move(b), c, T(v + 3));
            return done(form == V_ARGS_CONST_F ? 0 : 4);
        }
        case V_TUPLE:
        case V_TUPLE_RV:
        case V_TUPLE_CONST:
        {
            std::tuple<T, T, T> t{};
            std::get<0>(t).v = v;
            std::get<2>(t).v = v + 2;
            const int k = form == V_TUPLE ? 0 : form == V_TUPLE_RV ? 2 : 1;
            r.how = 0;
            expects(std::get<0>(t), k);
            expects(std::get<1>(t), k);
            expects(std::get<2>(t), k);
            if (form == V_TUPLE) for_each_in_tuple(f, t);
            else if (form == V_TUPLE_RV) for_each_in_tuple(f, std::move(t));
            else for_each_in_tuple(f, std::as_const(t));
            return done(3);
        }
        case V_TUPLE_REFS:
        {
            T a(v), b(v + 1);
            const T c(v + 2);
            expects(a, 0);
            expects(c, 1);
            expects(b, 2);
            for_each_in_tuple(f, std::forward_as_tuple(a, c, std::move(b)));
            return done(3);
        }
        case V_TUPLE_EMPTY:
            for_each_in_tuple(f, std::tuple<>{});
            return done(0);
        case V_ARRAY:
        {
            std::array<T, 4> a{T(v), T(v + 1), T(v + 2), T(v + 3)};
            for (auto &x : a) expects(x, 0);
            for_each_in_tuple(f, a);
            return done(4);
        }
        case V_PAIR:
        {
            std::pair<T, T> p{};
            p.second.v = v;
            expects(p.first, 2);
            expects(p.second, 2);
            for_each_in_tuple(f, std::move(p));
            return done(2);
        }
        case V_NONE: for_each_arg(f); return done(0);
        case V_TUPLE_CONST_F:
        case V_TUPLE_RV_F:
        {
            std::tuple<T, T> t{};
            std::get<1>(t).v = v;
            const bool rv = form == V_TUPLE_RV_F;
            r.how = rv ? -1 : 1;
            expects(std::get<0>(t), 0);
            expects(std::get<1>(t), 0);
            if (rv) for_each_in_tuple(std::move(f), t);
            else for_each_in_tuple(std::as_const(f), t);
            return done(rv ? 2 : 0);
        }
        case V_MANY:
        {
            std::array<T, 33> a{};
            for (std::size_t i = 0; i < a.size(); ++i) a[i].v = v + int(i);
            for (auto &x : a) expects(x, v & 1 ? 2 : 0);
            if (v & 1) for_each_in_tuple(f, std::move(a));
            else for_each_in_tuple(f, a);
            return done(33);
        }
        case V_MANY_ARGS:
        {
            T a(v), b(v + 1), c(v + 2), d(v + 3), e(v + 4), g(v + 5);
            for (auto *x : {&a, &b, &c, &d, &e, &g, &a, &b, &c, &d, &e, &g}) expects(*x, 0);
            for_each_arg(f, a, b, c, d, e, g, a, b, c, d, e, g);
            return done(12);
        }
        case V_NESTED:
        case V_NESTED_TUPLE:  // a visit within a visit of the same kind
        {
            struct Inner
            {
                Visitor f;
                T *a, *b, *c;
                bool tuple;
                static void show(Visitor &f, T &a, T &b, T &c, bool tuple)
                {
                    if (tuple)
                    {
                        std::tuple<T &, T &, T &> t(a, b, c);
                        for_each_in_tuple(f, t);
                    }
                    else for_each_arg(f, a, b, c);
                }
            };
            T a(v), b(v + 1), c(v + 2), d(v + 3), e(v + 4), g(v + 5);
            Inner in{Visitor(r), &d, &e, &g, form == V_NESTED_TUPLE};
            f.context = &in;
            f.nested = [](void *p)
            {
                auto &i = *static_cast<Inner *>(p);
                Inner::show(i.f, *i.a, *i.b, *i.c, i.tuple);
            };
            for (auto *x : {&a, &b, &d, &e, &g, &c}) expects(*x, 0);
            Inner::show(f, a, b, c, in.tuple);
            if (in.f.calls != 3) r.calls_lost = true;
            return done(3);
        }
    }
    r.impossible = true;
}
template <class T>
#ifdef SUT_NO_BUILD_MOVE_ONLY
constexpr bool kBuildsOf = kCopies<T>;
#else
constexpr bool kBuildsOf = true;
#endif
template <class T>
#ifdef SUT_NO_VISIT_MOVE_ONLY
constexpr bool kVisitsOf = kCopies<T>;
#else
constexpr bool kVisitsOf = true;
#endif
template <class T>
int run(int form, int v, SeqReport &r)
{
    return caught(
        [&]
        {
            if (form < kBuilds)
            {
                if constexpr (kBuildsOf<T>) builds<T>(form, v, r);
            }
            else if constexpr (kVisitsOf<T>) visits<T>(form, v, r);
        });
}
template <class T>
constexpr SeqApi api()
{
    return {sizeof(T), alignof(T), kCopies<T> && kMoves<T>, run<T>};
}
}  // namespace
const SeqApi kSeq[kSeqTypes] = {api<CopyThrows>(), api<AllThrow>(), api<CopyOnly>(), api<MoveOnly>(), api<Never>()};
const int kSeqBuilds = kBuilds, kSeqForms = kForms;
}  // namespace sut

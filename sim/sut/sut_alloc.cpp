#include <initializer_list>
#include <utils/utils.h>

#include "sut.h"
namespace um = utils::memory;
namespace sut
{
namespace
{
thread_local int g_copies, g_moves;
struct Probe
{
    int v;
    explicit Probe(int x) noexcept : v(x) {}
    Probe(const Probe &o) noexcept : v(o.v) { ++g_copies; }
    Probe(Probe &&o) noexcept : v(o.v)
    {
        ++g_moves;
        o.v = -1;
    }
};
struct MoveOnly
{
    int v;
    explicit MoveOnly(int x) noexcept : v(x) {}
    MoveOnly(MoveOnly &&o) noexcept : v(o.v) { o.v = -1; }
    MoveOnly(const MoveOnly &) = delete;
};
enum class Color : unsigned char
{
    red = 3
};
struct alignas(32) ObjA
{
    int v, kind;
    unsigned char pad[88] = {};
    void built(int k, int x)
    {
        v = x;
        kind = k;
        sim_built(this, 0, k, x);
    }
    ObjA() noexcept { built(A_NONE, 0); }
    explicit ObjA(int x) noexcept { built(A_INT, x); }
    explicit ObjA(Probe &p) noexcept { built(A_LVALUE, p.v); }
    explicit ObjA(const Probe &p) noexcept { built(A_CONST_LVALUE, p.v); }
    explicit ObjA(Probe &&p) noexcept
    {
        int x = p.v;
        p.v = -1;
        ++g_moves;
        built(A_RVALUE, x);
    }
    explicit ObjA(const Probe &&p) noexcept { built(A_CONST_RVALUE, p.v); }
    ObjA(Probe &a, Probe &&b, int i) noexcept
    {
        int x = a.v * 10000 + b.v * 100 + i;
        b.v = -1;
        ++g_moves;
        built(A_MIXED, x);
    }
    ObjA(const Probe &, const Probe &, int) noexcept { built(-1, 0); }
    explicit ObjA(const char *s) noexcept { built(A_TEXT, int(std::strlen(s))); }
    explicit ObjA(MoveOnly &&m) noexcept
    {
        int x = m.v;
        m.v = -1;
        built(A_MOVE_ONLY, x);
    }
    ObjA(int &r, Color) noexcept
    {
        ++r;
        built(A_INT_REF, r);
    }
    ObjA(int &&, Color) noexcept { built(-1, 0); }
    ObjA(const ObjA &) = delete;
    ~ObjA() { sim_destroyed(this, 0, v); }
};
struct ObjV
{
    int v;
    Probe p;
    explicit ObjV(Probe x) noexcept : v(x.v), p(x.v) { sim_built(this, 1, A_BYVAL_L, v); }
    ObjV(const ObjV &) = delete;
    ~ObjV() { sim_destroyed(this, 1, v); }
};
struct ObjT
{
    int v;
    double d[2];
    template <class X>
    explicit ObjT(X &&) noexcept
    {
        int k = -1;
        if (std::is_same_v<X, short>) k = A_T_SHORT;
        else if (std::is_same_v<X, bool &>) k = A_T_BOOL_L;
        else if (std::is_same_v<X, Color>) k = A_T_ENUM;
        else if (std::is_same_v<X, const long &>) k = A_T_CONST_L;
        else if (std::is_same_v<X, void *&>) k = A_T_PTR;
        v = k;
        sim_built(this, 2, k, v);
    }
    ObjT(const ObjT &) = delete;
    ~ObjT() { sim_destroyed(this, 2, v); }
};
alignas(64) unsigned char g_elsewhere[64];
struct ObjE  // who asks the class for a place, gets another one
{
    static void *operator new(std::size_t, void *) noexcept { return g_elsewhere; }
    static void operator delete(void *, void *) noexcept {}
    ObjE() noexcept { sim_built(this, 3, A_E_NONE, 0); }
    explicit ObjE(Probe &&p) noexcept
    {
        p.v = -1;
        ++g_moves;
        sim_built(this, 3, A_E_RVALUE, 0);
    }
    explicit ObjE(Probe &) noexcept { sim_built(this, 3, -1, 0); }
    ObjE(const ObjE &) = delete;
    ~ObjE() { sim_destroyed(this, 3, 0); }
};
struct alignas(256) ObjL
{
    int front;
    unsigned char body[1500];
    int back;
    void built(int k, int v)
    {
        front = v;
        back = ~v;
        sim_built(this, 4, k, v);
    }
    explicit ObjL(int v) noexcept { built(A_L_INT, v); }
    explicit ObjL(Probe &p) noexcept { built(A_L_LVALUE, p.v); }
    explicit ObjL(Probe &&p) noexcept { built(-1, p.v); }
    ObjL(const ObjL &) = delete;
    ~ObjL() { sim_destroyed(this, 4, back == ~front ? front : -2); }
};
struct ObjI  // like std::vector<int>
{
    int v;
    short s = 5;
    ObjI() noexcept : v(0) { sim_built(this, 5, A_LIST_NONE, v); }
    explicit ObjI(int n) noexcept : v(n) { sim_built(this, 5, A_LIST_ONE, v); }
    ObjI(int n, int x) noexcept : v(n * 100 + x) { sim_built(this, 5, A_LIST_TWO, v); }
    ObjI(std::initializer_list<int> l) noexcept : v(int(l.size())) { sim_built(this, 5, -1, v); }
    ObjI(const ObjI &) = delete;
    ~ObjI() { sim_destroyed(this, 5, v); }
};
struct ObjZ  // implicitly made: its numbers are zero, where its maker says so
{
    int z[3];
    struct Part
    {
        int one;
        Part() noexcept : one(1)
        {
            auto *o = reinterpret_cast<ObjZ *>(reinterpret_cast<char *>(this) - sizeof(z));
            sim_built(o, 6, A_Z_NONE, o->z[0] | o->z[1] | o->z[2]);
        }
        Part(const Part &) = delete;
        ~Part()
        {
            auto *o = reinterpret_cast<ObjZ *>(reinterpret_cast<char *>(this) - sizeof(z));
            sim_destroyed(o, 6, o->z[0] | o->z[1] | o->z[2]);
        }
    } part;
};
struct ObjB
{
    int v = 0;
    ObjB() noexcept {}
    ObjB(const ObjB &) = delete;
    virtual ~ObjB() {}
};
struct ObjD : ObjB
{
    double own[3] = {};
    ObjD() noexcept { sim_built(this, 7, A_D_NONE, v); }
    explicit ObjD(int x) noexcept
    {
        v = x;
        sim_built(this, 7, A_D_INT, v);
    }
    ~ObjD() override { sim_destroyed(this, 7, v); }
};
// Calls make(arguments...) with the arguments of the given kind.
template <class F>
void with_args(int kind, int v, ArgReport *r, F &&make)
{
    Probe a(v), b(v + 1);
    const Probe &ca = a;
    MoveOnly m(v);
    int i = v;
    bool fl = true;
    const long cl = 5;
    void *vp = nullptr;
    const int copies = g_copies, moves = g_moves;  // a constructor may do this, too
    g_copies = g_moves = 0;
#ifdef SUT_NO_ARGS  // see check.py: PARTS
    make(static_cast<ObjA *>(nullptr));
#else
    switch (kind)
    {
        case A_NONE: make(static_cast<ObjA *>(nullptr)); break;
        case A_INT: make(static_cast<ObjA *>(nullptr), v + 0); break;
        case A_LVALUE: make(static_cast<ObjA *>(nullptr), a); break;
        case A_CONST_LVALUE: make(static_cast<ObjA *>(nullptr), ca); break;
        case A_RVALUE: make(static_cast<ObjA *>(nullptr), std::move(a)); break;
        case A_CONST_RVALUE: make(static_cast<ObjA *>(nullptr), std::move(ca)); break;
        case A_MIXED: make(static_cast<ObjA *>(nullptr), a, std::move(b), 7); break;
        case A_TEXT: make(static_cast<ObjA *>(nullptr), "text"); break;
#ifdef SUT_NO_MOVE_ONLY
        case A_MOVE_ONLY: make(static_cast<ObjA *>(nullptr), v + 0); break;
#else
        case A_MOVE_ONLY: make(static_cast<ObjA *>(nullptr), std::move(m)); break;
#endif
        case A_INT_REF: make(static_cast<ObjA *>(nullptr), i, Color::red); break;
        case A_BYVAL_L: make(static_cast<ObjV *>(nullptr), a); break;
        case A_BYVAL_R: make(static_cast<ObjV *>(nullptr), std::move(a)); break;
        case A_T_SHORT: make(static_cast<ObjT *>(nullptr), short(2)); break;
        case A_T_BOOL_L: make(static_cast<ObjT *>(nullptr), fl); break;
        case A_T_ENUM: make(static_cast<ObjT *>(nullptr), Color::red); break;
        case A_T_CONST_L: make(static_cast<ObjT *>(nullptr), cl); break;
        case A_E_NONE: make(static_cast<ObjE *>(nullptr)); break;
        case A_E_RVALUE: make(static_cast<ObjE *>(nullptr), std::move(a)); break;
        case A_L_INT: make(static_cast<ObjL *>(nullptr), v + 0); break;
        case A_L_LVALUE: make(static_cast<ObjL *>(nullptr), a); break;
        case A_LIST_NONE: make(static_cast<ObjI *>(nullptr)); break;
        case A_LIST_ONE: make(static_cast<ObjI *>(nullptr), v + 0); break;
        case A_LIST_TWO: make(static_cast<ObjI *>(nullptr), v + 0, i); break;
        case A_Z_NONE: make(static_cast<ObjZ *>(nullptr)); break;
        case A_D_INT: make(static_cast<ObjD *>(nullptr), v + 0); break;
        case A_D_NONE: make(static_cast<ObjD *>(nullptr)); break;
        default: make(static_cast<ObjT *>(nullptr), vp); break;
    }
#endif
    if (r) *r = {a.v, b.v, i, m.v, g_copies, g_moves};
    g_copies = copies;
    g_moves = moves;
}
struct Elem96
{
    alignas(32) std::byte b[96];
};
struct Elem24
{
    void *a, *b, *c;
};
template <class T>
struct api_of
{
    using A = um::allocator<T>;
    static A &o(void *p) { return *static_cast<A *>(p); }
    template <class F>
    static auto typed(int type, F &&f)
    {
        switch (type)
        {
            case 0: return f(static_cast<ObjA *>(nullptr));
            case 1: return f(static_cast<ObjV *>(nullptr));
            case 2: return f(static_cast<ObjT *>(nullptr));
            case 3: return f(static_cast<ObjE *>(nullptr));
            case 4: return f(static_cast<ObjL *>(nullptr));
            case 5: return f(static_cast<ObjI *>(nullptr));
            case 6: return f(static_cast<ObjZ *>(nullptr));
            default: return f(static_cast<ObjD *>(nullptr));
        }
    }
    template <class F>
    static auto elem(int type, void *p, F &&f)
    {
#ifdef SUT_NO_MIXED  // see check.py: PARTS
        return (void)type, f(o(p));
#else
        switch (type)
        {
            case 0: return f(*static_cast<um::allocator<char> *>(p));
            case 1: return f(*static_cast<um::allocator<std::uint64_t> *>(p));
            case 2: return f(*static_cast<um::allocator<Elem24> *>(p));
            default: return f(*static_cast<um::allocator<Elem96> *>(p));
        }
#endif
    }
    static A pass(A x) { return x; }
    template <class X>
    static void from(int how, void *d, X &x)
    {
        switch (how & 7)
        {
            case 0: new (d) A(x); break;
            case 1: new (d) A(std::move(x)); break;
            case 2: new (d) A(std::move(std::as_const(x))); break;
            case 3: new (d) A(pass(x)); break;
            case 4: new (d) A(pass(std::move(x))); break;
            case 5: new (d) A{x}; break;
            default: new (d) A(std::as_const(x)); break;
        }
    }
    static constexpr AllocApi value()
    {
        return {
            sizeof(A),
            alignof(A),
            sizeof(T),
            alignof(T),
            [](void *p) { new (p) A(); },
            [](void *p, Res *r) { new (p) A(static_cast<um::memory_resource *>(r)); },
            [](void *d, void *s, int how) { from(how, d, o(s)); },
            [](void *d, int t, void *s, int how) { elem(t, s, [d, how](auto &x) { from(how, d, x); }); },
            [](void *p) { o(p).~A(); },
            [](void *p) -> Res * { return o(p).resource(); },
#ifdef SUT_NO_MIXED
            [](void *, int, void *) { return false; },
            [](void *, int, void *) { return true; },
#else
            [](void *p, int t, void *q) { return elem(t, q, [p](auto &x) { return o(p) == x; }); },
            [](void *p, int t, void *q) { return elem(t, q, [p](auto &x) { return o(p) != x; }); },
#endif
            [](void *p, std::size_t n) -> void * { return o(p).allocate(n); },
            [](void *p, void *q) { o(p).deallocate(static_cast<T *>(q)); },
            [](void *p, std::size_t n, std::size_t a) { return o(p).allocate_bytes(n, a); },
            [](void *p, std::size_t n) { return o(p).allocate_bytes(n); },
            [](void *p, void *q) { o(p).deallocate_bytes(q); },
            [](void *p, int t, std::size_t n) -> void *
            {
                return typed(t, [&](auto *u) -> void *
                             { return o(p).template allocate_object<std::remove_pointer_t<decltype(u)>>(n); });
            },
            [](void *p, int t, void *q)
            { typed(t, [&](auto *u) { o(p).deallocate_object(static_cast<decltype(u)>(q)); }); },
            [](void *p, int k, int v, ArgReport *r) -> void *
            {
                void *res = nullptr;
                with_args(k, v, r,
                          [&](auto *u, auto &&...args)
                          {
                              res = o(p).template new_object<std::remove_pointer_t<decltype(u)>>(
                                  std::forward<decltype(args)>(args)...);
                          });
                return res;
            },
            [](void *p, int k, int v, void *where, ArgReport *r)
            {
                with_args(k, v, r,
                          [&](auto *u, auto &&...args)
                          {
                              o(p).construct(static_cast<decltype(u)>(where),
                                             std::forward<decltype(args)>(args)...);
                          });
            },
            [](void *p, int t, void *q)
            {
                typed(t,
                      [&](auto *u)
                      {
                          auto *x = static_cast<decltype(u)>(q);
                          if constexpr (std::is_same_v<decltype(u), ObjD *>) o(p).delete_object(static_cast<ObjB *>(x));
                          else o(p).delete_object(x);
                      });
            },
            [](int t, void *q)
            {
                typed(t,
                      [&](auto *u)
                      {
                          using U = std::remove_pointer_t<decltype(u)>;
                          static_cast<U *>(q)->~U();
                      });
            },
        };
    }
};
}  // namespace
int obj_type_of(int k) { return k < A_BYVAL_L ? 0 : k <= A_BYVAL_R ? 1 : k <= A_T_PTR ? 2 : k <= A_E_RVALUE ? 3 : k <= A_L_LVALUE ? 4 : k <= A_LIST_NONE ? 5 : k == A_Z_NONE ? 6 : 7; }
constexpr std::size_t kObjSize[kObjTypes] = {sizeof(ObjA), sizeof(ObjV), sizeof(ObjT), sizeof(ObjE), sizeof(ObjL), sizeof(ObjI), sizeof(ObjZ), sizeof(ObjD)};
constexpr std::size_t kObjAlign[kObjTypes] = {alignof(ObjA), alignof(ObjV), alignof(ObjT), alignof(ObjE), alignof(ObjL), alignof(ObjI), alignof(ObjZ), alignof(ObjD)};
std::size_t obj_size(int t) { return kObjSize[t]; }
std::size_t obj_align(int t) { return kObjAlign[t]; }
const AllocApi kAlloc[kElems] = {api_of<char>::value(), api_of<std::uint64_t>::value(), api_of<Elem24>::value(),
                                 api_of<Elem96>::value()};
}  // namespace sut

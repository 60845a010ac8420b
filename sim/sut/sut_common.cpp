#include <utils/utils.h>

#include "sut.h"

namespace um = utils::memory;

namespace sut
{
namespace
{
struct alignas(64) Big
{
    std::byte b[192];
};
struct alignas(16) Mid
{
    std::byte b[80];
};
struct Small3
{
    void *a, *b, *c;
};
// A user-defined upstream, written the way the library's own resources are.
class sim_resource : public um::memory_resource
{
    friend class um::memory_resource;

   public:
    explicit sim_resource(int id) noexcept
        : um::memory_resource(&sim_resource::allocate<sim_resource>,
                              &sim_resource::deallocate<sim_resource>),
          id_(id)
    {
    }
    // Two objects may be handles of one resource.
    bool is_equal(const um::memory_resource &o) const noexcept override
    {
        if (sim_compares) sim_compares(id_);
        return &o == this || &o == same_;
    }
    const um::memory_resource *same_ = nullptr;

   private:
    void *allocate_impl(std::size_t s, std::size_t a) noexcept { return sim_up_alloc(id_, s, a); }
    void deallocate_impl(void *p) noexcept { sim_up_free(id_, p); }
    int id_;
};
um::memory_resource *const g_early_default = um::get_default_resource();
um::memory_resource *const g_early_system = um::system_memory_resource();
um::memory_resource *r(Res *p) { return static_cast<um::memory_resource *>(p); }
}  // namespace

namespace
{
constexpr Defaults kUnit = {
        [] { return static_cast<Res *>(um::system_memory_resource()); },
        [] { return static_cast<Res *>(um::null_memory_resource()); },
        [] { return static_cast<Res *>(um::get_default_resource()); },
        [](Res *p) { return static_cast<Res *>(um::set_default_resource(r(p))); },
        [](Res *p, std::size_t s, std::size_t a) { return r(p)->allocate(s, a); },
        [](Res *p, void *q) { r(p)->deallocate(q); },
    [] { return static_cast<Res *>(g_early_default); },
        [] { return static_cast<Res *>(g_early_system); },
};
}  // namespace
const Defaults &unit_a() { return kUnit; }
std::size_t sim_resource_size() { return sizeof(sim_resource); }
Res *sim_resource_make(void *mem, int owner)
{
    return static_cast<um::memory_resource *>(new (mem) sim_resource(owner));
}
Res *sim_resource_make_same(void *mem, int owner, Res *other)
{
    auto *a = new (mem) sim_resource(owner);
    auto *b = static_cast<sim_resource *>(r(other));
    a->same_ = b;
    b->same_ = a;
    return static_cast<um::memory_resource *>(a);
}
void *res_alloc(Res *p, std::size_t s, std::size_t a) { return r(p)->allocate(s, a); }
void *res_alloc_default(Res *p, std::size_t s) { return r(p)->allocate(s); }
template <class A>
static bool assign(A &a, const A &b, int how)
{
    if (how & 1)
    {
        if constexpr (std::is_assignable_v<A &, A &&>)
        {
            a = std::move(const_cast<A &>(b));
            return true;
        }
    }
    else if constexpr (std::is_assignable_v<A &, const A &>)
    {
        a = b;
        return true;
    }
    return false;
}
bool res_assign(Res *a, const Res *b, int how)
{
    return assign(*static_cast<um::memory_resource *>(a), *static_cast<const um::memory_resource *>(b), how);
}
void *res_alloc_type(Res *p, int which)
{
    switch (which)
    {
        case 0: return r(p)->allocate<char>();
        case 1: return r(p)->allocate<std::uint64_t>();
        case 2: return r(p)->allocate<Small3>();
        case 3: return r(p)->allocate<Big>();
        default: return r(p)->allocate<Mid>();
    }
}
void res_dealloc(Res *p, void *q) { r(p)->deallocate(q); }
bool res_is_equal(Res *a, Res *b) { return r(a)->is_equal(*r(b)); }
bool res_eq(Res *a, Res *b) { return *r(a) == *r(b); }
bool res_ne(Res *a, Res *b) { return *r(a) != *r(b); }
}  // namespace sut

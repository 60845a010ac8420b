#include <utils/utils.h>

#include "sut.h"
#include "sut_twin.inc"
namespace um = utils::memory;
namespace sut
{
namespace
{
template <std::size_t M, std::size_t B>
struct block_api
{
    using R = um::simple_resource<M, B>;
    using I = typename R::BIndex;
    static R &o(void *p) { return *static_cast<R *>(p); }
    template <std::size_t N>
    static R *arr(void *mem, void *buf, bool up, um::memory_resource *u)
    {
        auto &a = *static_cast<std::byte(*)[N]>(buf);
        return up ? new (mem) R(a, u) : new (mem) R(a);
    }
    static Res *construct(void *mem, void *buf, std::size_t n, int ctor, Res *up)
    {
        auto *u = static_cast<um::memory_resource *>(up);
        auto *b = static_cast<std::byte *>(buf);
        R *r = nullptr;
        const bool with_up = ctor == PTR_UP || ctor == ARRAY_UP;
        if (ctor == PTR_UP) r = new (mem) R(b, n, u);
        else if (ctor == PTR_DEFAULT) r = new (mem) R(b, n);
        else if (n == 1) r = arr<1>(mem, buf, with_up, u);
        else if (n == 7) r = arr<7>(mem, buf, with_up, u);
        else if (n == 64) r = arr<64>(mem, buf, with_up, u);
        else if (n == 100) r = arr<100>(mem, buf, with_up, u);
        else if (n == 257) r = arr<257>(mem, buf, with_up, u);
        else if (n == 1024) r = arr<1024>(mem, buf, with_up, u);
        else r = arr<4096>(mem, buf, with_up, u);
        return static_cast<um::memory_resource *>(r);
    }
    static constexpr BlockApi api = {
        R::kMaxBlockCount,
        R::kBlockSize,
        sizeof(R),
        alignof(R),
        &construct,
        [](void *p) { o(p).~R(); },
        [](void *p) { o(p).release(); },
        [](void *p) -> std::size_t { return o(p).free_count(); },
        [](void *p) -> std::size_t { return o(p).busy_count(); },
        [](void *p) -> std::size_t { return o(p).size(); },
        [](void *p, std::size_t i) -> bool { return o(p).in_use(static_cast<I>(i)); },
        [](void *p, std::size_t i) -> std::size_t { return o(p).block_size(static_cast<I>(i)); },
        [](void *p, std::size_t i) -> std::size_t { return o(p).block_size_in_bytes(static_cast<I>(i)); },
        [](void *p, std::size_t i) -> std::size_t { return std::as_const(o(p)).at(static_cast<I>(i)).prev_index(); },
        [](void *p, std::size_t i) -> std::size_t { return o(p).infos()[i].next_index(); },
        [](void *p) -> const void * { return o(p).data(); },
        &make_twin<R>,
    };
};
}  // namespace
}  // namespace sut

// A second resource made from a first one, in the ways that compile.
#pragma once
#include <type_traits>
#include <utility>
namespace sut
{
namespace
{
template <class R>
Res *make_twin(void *mem, void *src, int how)
{
    R &s = *static_cast<R *>(src);
    using B = utils::memory::memory_resource;
    R *d = nullptr;
    [[maybe_unused]] auto blank = [&] { return d = new (mem) R(static_cast<std::byte *>(nullptr), std::size_t{0}, static_cast<B *>(nullptr)); };
    switch (how)
    {
        case 0:
            if constexpr (std::is_copy_constructible_v<R>) d = new (mem) R(static_cast<const R &>(s));
            break;
        case 1:
            if constexpr (std::is_constructible_v<R, R &&>) d = new (mem) R(std::move(s));
            break;
        case 2:
            if constexpr (std::is_copy_assignable_v<R>) *blank() = static_cast<const R &>(s);
            break;
        case 3:
            if constexpr (std::is_assignable_v<R &, R &&>) *blank() = std::move(s);
            break;
        default:
            if constexpr (std::is_constructible_v<R, R &>) d = new (mem) R(s);
            break;
    }
    return static_cast<B *>(d);
}
}  // namespace
}  // namespace sut

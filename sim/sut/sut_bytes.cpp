// The byte primitives as a program calls them.
#include <utils/common.h>
#include <utils/memory/memory.h>

#include "sut.h"
namespace sut
{
namespace
{
constexpr int kCopies = 8;
void *move(void *d, const void *s, std::size_t n)
{
    return utils::memory::memmove(static_cast<std::byte *>(d), static_cast<const std::byte *>(s), n);
}
void copy(int form, void *d, const void *s, std::size_t n)
{
    using namespace utils::memory;
    switch (form)
    {
        case 0: utils::memory::memcpy(static_cast<std::byte *>(d), static_cast<const std::byte *>(s), n); break;
        case 1: utils::memory::memcpy(static_cast<char *>(d), static_cast<const unsigned char *>(s), n); break;
        case 2: utils::memory::memcpy(d, s, n); break;
        case 3: utils::memory::memcpy(d, static_cast<const std::byte *>(s), n); break;
        case 4: utils::memory::memcpy(static_cast<std::uint8_t *>(d), s, n); break;
        case 5: utils::memory::memcpy(static_cast<signed char *>(d), static_cast<const signed char *>(s), n); break;
        case 6: utils::memory::memcpy(static_cast<std::byte *>(d), static_cast<const char *>(s), n); break;
        default: utils::memory::memcpy(static_cast<char *>(d), static_cast<const char *>(s), n); break;
    }
}
bool same(const void *p, unsigned char v, std::size_t n) { return utils::memvcmp(p, v, n); }
void wipe(void *p, std::size_t n) { utils::memory::secure_zero_memory(static_cast<std::byte *>(p), n); }
}  // namespace
const BytesApi kBytes = {kCopies, move, copy, same, wipe};
}  // namespace sut

// A second translation unit of the "program under test".
#include <utils/utils.h>

#include "sut.h"

namespace um = utils::memory;
namespace
{
um::memory_resource *const g_early_default = um::get_default_resource();
um::memory_resource *const g_early_system = um::system_memory_resource();
}  // namespace
namespace sut
{
namespace
{
constexpr Defaults kUnit = {
        [] { return static_cast<Res *>(um::system_memory_resource()); },
        [] { return static_cast<Res *>(um::null_memory_resource()); },
        [] { return static_cast<Res *>(um::get_default_resource()); },
        [](Res *p)
        { return static_cast<Res *>(um::set_default_resource(static_cast<um::memory_resource *>(p))); },
        [](Res *p, std::size_t s, std::size_t a)
        { return static_cast<um::memory_resource *>(p)->allocate(s, a); },
        [](Res *p, void *q) { static_cast<um::memory_resource *>(p)->deallocate(q); },
    [] { return static_cast<Res *>(g_early_default); },
        [] { return static_cast<Res *>(g_early_system); },
};
}  // namespace
const Defaults &unit_b() { return kUnit; }
}  // namespace sut

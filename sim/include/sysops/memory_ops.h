// Stand-in for the `sysops` dependency (not available offline).  It is the seam
// through which the library reaches the operating system's allocator; here it
// leads into the simulator (simulated heap with fault injection).
#ifndef SIM_SYSOPS_MEMORY_OPS_H
#define SIM_SYSOPS_MEMORY_OPS_H
#include <cassert>
#include <climits>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <new>

extern "C" int sim_posix_memalign(void **, std::size_t, std::size_t);
extern "C" void *sim_aligned_alloc(std::size_t, std::size_t);
extern "C" void *sim_malloc(std::size_t);
extern "C" void sim_free(void *);

namespace sysops
{
namespace memory
{
struct ops
{
    static int posix_memalign(void **p, std::size_t a, std::size_t s) noexcept
    {
        return sim_posix_memalign(p, a, s);
    }
    static void *aligned_alloc(std::size_t a, std::size_t s) noexcept
    {
        return sim_aligned_alloc(a, s);
    }
    static void *malloc(std::size_t s) noexcept { return sim_malloc(s); }
    static void free(void *p) noexcept { sim_free(p); }
};
}  // namespace memory
}  // namespace sysops
#endif

#pragma once
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <string>
#include <vector>

#include "../engine.h"
#include "../sut/sut.h"

namespace sim
{
constexpr size_t kGuardBytes = 64;
constexpr size_t kPatternEdge = 2048;  // longer ranges keep a pattern at both ends

// Address inside the arena whose alignment is exactly 2^k.
inline unsigned char *aligned_spot(int k)
{
    size_t off = k < 22 ? (size_t{1} << 22) + (size_t{1} << k) : size_t{1} << k;
    return arena_base() + off;
}
// Bit 0: the heap may use the memory right after the buffer, bit 1: right
// before it.
inline void put_spots(unsigned char *p, size_t n, int64_t near_bits)
{
    if (!p || !n) return;
    if (near_bits & 1) g_heap.spots.push_back({reinterpret_cast<uintptr_t>(p) + n, false, false});
    if (near_bits & 2) g_heap.spots.push_back({reinterpret_cast<uintptr_t>(p), true, false});
}
inline void put_guards(unsigned char *p, size_t n)
{
    memset(p - kGuardBytes, 0xC3, kGuardBytes);
    memset(p + n, 0xC3, kGuardBytes);
}
inline bool guards_intact(const unsigned char *p, size_t n, int64_t near_bits = 0)
{
    for (size_t i = 1; i <= kGuardBytes; ++i)
        if ((!(near_bits & 2) && p[-long(i)] != 0xC3) || (!(near_bits & 1) && p[n + i - 1] != 0xC3)) return false;
    return true;
}
struct Live
{
    unsigned char *p;
    size_t size;
    size_t align;
    bool upstream;
    uint64_t key;
};
inline void store(const Live &l)
{
    if (l.size <= 2 * kPatternEdge)
        fill_pattern(l.p, l.size, l.key);
    else
    {
        fill_pattern(l.p, kPatternEdge, l.key);
        fill_pattern(l.p + l.size - kPatternEdge, kPatternEdge, l.key + 1);
    }
}
inline bool intact(const Live &l)
{
    if (l.size <= 2 * kPatternEdge) return check_pattern(l.p, l.size, l.key) < 0;
    return check_pattern(l.p, kPatternEdge, l.key) < 0 &&
           check_pattern(l.p + l.size - kPatternEdge, kPatternEdge, l.key + 1) < 0;
}
// The same history without its impossible and zero-byte requests must give the
// same answers: runs it again in a fresh program and compares.
template <class Run>
void compare_without_impossible(const Plan &p, Ctx &c, const Run &r)
{
    if (!c.on("A07") || c.stop || !r.saw_impossible) return;
    g_heap.reset();
    fresh_program();
    Ctx c2;
    c2.target = c.target;
    Run q(p, c2);
    q.skip_impossible = true;
    q.go();
    const size_t n = std::min(r.answers.size(), q.answers.size());
    for (size_t i = 0; i < n; ++i)
        if (r.answers[i] != q.answers[i])
            return c.violate("A07", "later-operations", strf("observation %zu would be another without the impossible requests before it", i));
    if (!c2.stop && r.answers.size() != q.answers.size())
        c.violate("A07", "later-operations", "other operations would follow without the impossible requests");
}
// How often something is done over and over: past what small counters hold.
inline int64_t many_times(Rng &r)
{
    static const int64_t n[] = {127, 128, 129, 255, 256, 257, 300, 1000, 32767, 32768, 65535, 65536, 65537, 70000};
    return r.chance(9, 10) ? n[r.below(7)] : r.pick(n);
}
// Some plans do one thing, or a few in turn, more often than a byte counts.
inline void over_and_over(Plan &p, Rng &r, unsigned den)
{
    if (!r.chance(1, den) || p.ops.empty()) return;
    static const size_t times[] = {127, 128, 254, 255, 256, 257, 300};
    const size_t i = r.below(p.ops.size()), n = std::min<size_t>(1 + (r.chance(1, 2) ? 0 : r.below(4)), p.ops.size() - i);
    std::vector<Op> more;
    for (size_t k = times[r.below(7)] / (r.chance(1, 2) ? 1 : n); k; --k) more.insert(more.end(), p.ops.begin() + long(i), p.ops.begin() + long(i + n));
    p.ops.insert(p.ops.begin() + long(i), more.begin(), more.end());
    count("op:repeated", more.size());
}
// One plan in four: threads that hand the objects over to each other.
inline void hand_over(Plan &p, Rng &r)
{
    if (!r.chance(1, 4)) return;
    int t = 0;
    const bool ends = r.chance(1, 2);
    for (Op &o : p.ops)
    {
        if (r.chance(1, 3)) t = int(r.below(3));
        o.thr = t + (ends && r.chance(1, 6) ? 3 : 0);  // + 3: a new thread, after the end of that one
    }
}
inline uintptr_t ad(const void *p) { return reinterpret_cast<uintptr_t>(p); }
inline size_t align_up(uintptr_t a, size_t al) { return (a + al - 1) & ~uintptr_t(al - 1); }
inline unsigned char *up_res_mem(int id) { return arena_base() + kObjOff - 4096 + size_t(id) * 128; }

// More than 4 GB of memory that costs next to nothing: the first 4 GB are the
// same 2 MB over and over, the 2 MB behind them are themselves.
struct Far
{
    static constexpr size_t kAll = size_t{1} << 32, kOwn = size_t{1} << 21;
    unsigned char *p = nullptr;
    unsigned char *own() const { return p + kAll; }
};
inline const Far &far_memory(int i)
{
    static Far f[2];
    static bool tried[2];
    if (tried[i]) return f[i];
    tried[i] = true;
    unsigned char *const at = arena_base() + (size_t(2 + 6 * i) << 30);
    const int fd = int(syscall(SYS_memfd_create, "far", 0));
    if (fd < 0 || ftruncate(fd, off_t(Far::kOwn))) return f[i];
    bool ok = true;
    for (size_t k = 0; ok && k < Far::kAll; k += Far::kOwn)
        ok = mmap(at + k, Far::kOwn, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == at + k;
    close(fd);
    if (ok) f[i].p = at;
    return f[i];
}
}  // namespace sim

// Uses of secure_zero_memory: memory that stays, and memory whose life ends
// right after the wipe, where a compiler would like to leave the wipe out.
#include <utils/memory/memory.h>
#include <utils/utils.h>

#include <optional>
#include <variant>

#include "sut.h"
namespace sut
{
namespace
{
using utils::memory::secure_zero_memory;
using utils::memory::secure_zero_memory_safe;

constexpr std::size_t kSize[] = {8, 9, 15, 16, 31, 32, 33, 48, 64, 100, 255, 256, 257, 1000, 2048};
constexpr int kSizes = int(sizeof kSize / sizeof *kSize);

template <std::size_t N>
struct Key
{
    std::byte b[N];
    Key() noexcept {}
    explicit Key(int freed) { sim_secret(b, N, freed); }
    ~Key() { secure_zero_memory(b, N); }
};
template <std::size_t N>
struct SafeKey
{
    std::byte b[N];
    explicit SafeKey(int freed) { sim_secret(b, N, freed); }
    ~SafeKey() { (void)secure_zero_memory_safe(b, sizeof b); }
};
template <std::size_t N>
struct TwoKeys
{
    Key<N> first;
    int between = 0;
    Key<N> second;
    explicit TwoKeys(int freed) : first(freed), second(freed) {}
};
// keeps what is in the memory it is built in
template <std::size_t N>
struct Found
{
    std::byte b[N];
    Found() noexcept {}
    ~Found() { secure_zero_memory(b, N); }
};
struct Left
{
};
enum Form
{
    R_PLAIN,
    R_SAFE,
    R_SAFE_NULL,
    R_SAFE_EMPTY,
    R_EMPTY,
    R_PIECES,
    R_DESTROYED,
    R_TWICE,
    kRoom,
    L_ARRAY = kRoom,
    L_SAFE,
    L_STD_ARRAY,
    L_KEY,
    L_SAFE_KEY,
    L_UNWOUND,
    L_TWO,
    L_OPTIONAL,
    L_LOOP,
    L_PART,
    L_VARIANT,
    L_MOVED_AWAY,
    L_ABORT,
    L_LAMBDA,
    H_NEW,
    H_VECTOR,
    H_KEY,
    H_SHARED,
    kForms
};
template <std::size_t N>
[[noreturn]] void leave_by_throwing()
{
    Key<N> k(0);
    throw Left{};
}
template <std::size_t N>
[[noreturn]] void leave_by_abort()
{
    std::byte b[N];
    sim_secret(b, N, 0);
    secure_zero_memory(b, N);
    utils::abort_if(true);
    std::abort();
}
template <std::size_t N>
int own(int form)
{
    switch (form)
    {
        case L_ARRAY:
        {
            std::byte b[N];
            sim_secret(b, N, 0);
            secure_zero_memory(b, N);
            return 0;
        }
        case L_SAFE:
        {
            std::byte b[N];
            sim_secret(b, N, 0);
            return secure_zero_memory_safe(b, N);
        }
        case L_STD_ARRAY:
        {
            std::array<std::byte, N> b;
            sim_secret(b.data(), b.size(), 0);
            secure_zero_memory(b.data(), b.size());
            return 0;
        }
        case L_KEY:
        {
            Key<N> k(0);
            return 0;
        }
        case L_SAFE_KEY:
        {
            SafeKey<N> k(0);
            return 0;
        }
        case L_UNWOUND:
            try
            {
                leave_by_throwing<N>();
            }
            catch (const Left &)
            {
            }
            return 0;
        case L_TWO:
        {
            TwoKeys<N> k(0);
            return 0;
        }
        case L_OPTIONAL:
        {
            std::optional<Key<N>> k;
            k.emplace(0);
            k.reset();
            return 0;
        }
        case L_LOOP:
            for (int i = 0; i < 3; ++i)
            {
                unsigned char b[N];
                sim_secret(b, N, 0);
                secure_zero_memory(reinterpret_cast<std::byte *>(b), N);
            }
            return 0;
        case L_PART:
        {
            struct
            {
                std::byte before[5];
                std::byte b[N];
                std::byte after[3];
            } s;
            sim_secret(s.b, N, 0);
            secure_zero_memory(s.b, N);
            return 0;
        }
        case L_VARIANT:
        {
            std::variant<int, Key<N>> k(std::in_place_index<1>, 0);
            k.template emplace<0>(1);
            return 0;
        }
        case L_MOVED_AWAY:
        {
            std::byte from[N], to[N];
            sim_secret(from, N, 0);
            utils::memory::memmove(to, from, N);
            secure_zero_memory(from, N);
            sim_secret(to, N, 0);
            secure_zero_memory(to, N);
            return 0;
        }
        case L_ABORT: leave_by_abort<N>();
        case L_LAMBDA:
        {
            const auto use = []
            {
                Key<N> k(0);
                return int(sizeof k) - int(N);
            };
            return use();
        }
        case H_NEW:
        {
            auto *b = new std::byte[N];
            sim_secret(b, N, 1);
            secure_zero_memory(b, N);
            delete[] b;
            return 0;
        }
        case H_VECTOR:
        {
            std::vector<std::byte> v(N);
            sim_secret(v.data(), v.size(), 1);
            secure_zero_memory(v.data(), v.size());
            return 0;
        }
        case H_KEY:
        {
            auto k = std::make_unique<Key<N>>(1);
            return 0;
        }
        case H_SHARED:
        {
            auto k = std::make_shared<SafeKey<N>>(1);
            return 0;
        }
    }
    return 0;
}
template <std::size_t N>
int destroyed(void *p)
{
    static_cast<Found<N> *>(p)->~Found();
    return 0;
}
template <std::size_t... I>
int own_ix(int form, int ix, std::index_sequence<I...>)
{
    int r = 0;
    (void)((int(I) == ix && (r = own<kSize[I]>(form), true)) || ...);
    return r;
}
template <std::size_t... I>
int destroyed_ix(int ix, void *p, std::index_sequence<I...>)
{
    int r = 0;
    (void)((int(I) == ix && (r = destroyed<kSize[I]>(p), true)) || ...);
    return r;
}
int call(int form, int ix, void *p, std::size_t n)
{
    auto *b = static_cast<std::byte *>(p);
    switch (form)
    {
        case R_PLAIN: secure_zero_memory(b, n); return 0;
        case R_SAFE: return secure_zero_memory_safe(b, n);
        case R_SAFE_NULL: return secure_zero_memory_safe(nullptr, n);
        case R_SAFE_EMPTY: return secure_zero_memory_safe(b, 0);
        case R_EMPTY: secure_zero_memory(b, 0); return 0;
        case R_PIECES:
            for (std::size_t i = 0; i < n;)
            {
                const std::size_t k = std::min<std::size_t>(n - i, 1 + i % 5);
                secure_zero_memory(b + i, k);
                i += k;
            }
            return 0;
        case R_DESTROYED: return destroyed_ix(ix, p, std::make_index_sequence<kSizes>());
        case R_TWICE:
            secure_zero_memory(b, n);
            return secure_zero_memory_safe(b, n);
        default: return own_ix(form, ix, std::make_index_sequence<kSizes>());
    }
}
std::size_t covers(int form, int ix, std::size_t n)
{
    switch (form)
    {
        case R_SAFE_NULL:
        case R_SAFE_EMPTY:
        case R_EMPTY: return 0;
        case R_DESTROYED: return kSize[ix];
        default: return n;
    }
}
}  // namespace
const WipeApi kWipe = {kRoom, kForms, H_NEW, L_ABORT, kSizes, [](int ix) { return kSize[ix]; }, call, covers};
}  // namespace sut

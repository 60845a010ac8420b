#include <utils/utils.h>

#include "sut.h"
namespace sut
{
namespace
{
struct Where
{
    const char *func;
    int line;
};
constexpr int kForms = 21;
Where g_where[kForms];
#define HERE(n) g_where[n] = {UTILS_FUNC, __LINE__}
#define COND (++*evaluated, cond)
#define LONG_16 "0123456789abcdef"
#define LONG_64 LONG_16 LONG_16 LONG_16 LONG_16
#define LONG_256 LONG_64 LONG_64 LONG_64 LONG_64
#define LONG_1K LONG_256 LONG_256 LONG_256 LONG_256

template <class A, std::size_t N>
struct Holder
{
    template <class B>
    void method(bool cond, int v, volatile int *continued, int *evaluated) const
    {
        HERE(10); UTILS_ABORT_IF(COND, "\nreason: in a method, %d", v);
        *continued = 1;
    }
    struct Guard
    {
        bool cond;
        int v;
        volatile int *continued;
        int *evaluated;
        ~Guard()
        {
            HERE(11); UTILS_ABORT_IF(COND, "\nreason: in a destructor, %d", v);
            *continued = 1;
        }
    };
};
void percent(bool cond, int v, volatile int *continued, int *evaluated);

void call(int form, bool cond, int v, const char *text, volatile int *continued, int *evaluated)
{
    switch (form)
    {
        case 0: utils::abort_if(COND); break;
        case 1: utils::abort_if(COND, "just text"); break;
        case 2: utils::abort_if(COND, "%s", text); break;
        case 3:
            utils::abort_if(COND, "v=%d s=%s z=%zu c=%c x=%#llx f=%.3f w=%5d%% %s", v, text, std::size_t(v) * 3, 'q',
                            0xfedcba9876543210ull, 2.5, v, "end");
            break;
        case 4: HERE(4); UTILS_ABORT_IF(COND); break;
        case 5: HERE(5); UTILS_ABORT_IF(COND, "\nreason: no arguments"); break;
        case 6: HERE(6); UTILS_ABORT_IF(COND, "\nreason: %d %s", v, text); break;
        case 7:
            HERE(7); UTILS_ABORT_IF(COND, " %s %d %s %d %s %d %s %d %s %d %s", text, v, "b", v + 1, "c", v + 2, "d", v + 3, "e", v + 4, text);
            break;
        case 8: HERE(8); UTILS_DEBUG_ABORT_IF(COND, "\nreason: debug %d", v); break;
        case 9: HERE(9); UTILS_DEBUG_ABORT_IF(COND); break;
        case 10: Holder<Where, 3>().method<char>(cond, v, continued, evaluated); return;
        case 11:
        {
            Holder<int, 5>::Guard g{cond, v, continued, evaluated};
            return;
        }
        case 12: utils::abort_if(COND, "%p %.2Lf %lld %s", static_cast<const void *>(text), 1.25L, -5000000000ll, text); break;
        case 13:
            [&]
            {
                HERE(13); UTILS_ABORT_IF(COND, "\nreason: in a lambda %d", v);
                *continued = 1;
            }();
            return;
        case 14: utils::abort_if(COND, ""); break;
        case 15: utils::abort_if(COND, nullptr); break;
        case 16: percent(cond, v, continued, evaluated); return;
        case 18: utils::abort_if(COND, text, v, v + 1); break;  // a format made at run time
        case 19: HERE(19); UTILS_ABORT_IF(COND, "\n" LONG_1K LONG_1K LONG_1K LONG_1K LONG_1K "<%d|%s>", v, text); break;
        case 20:
            utils::abort_if(COND, "%3$s %1$d %2$*1$d|%4$-8d|%5$.*4$s", 6, v, text, 3, "abcdef");
            break;
        default: HERE(17); UTILS_ABORT_IF(COND, "\n%s%s%s%s", text, text, text, text); break;
    }
    *continued = 1;
}
}  // namespace
const AbortApi kAbort = {
    kForms,
    __FILE__,
    &call,
    [](int f) { return f != 0 && f != 15; },
    [](int f) { return (f >= 4 && f <= 11) || f == 13 || f == 16 || f == 17 || f == 19; },
    [](int f) { return f == 8 || f == 9; },
    [](int f) { return g_where[f].line; },
    [](int f) { return g_where[f].func; },
#ifdef NDEBUG
    false,
#else
    true,
#endif
};
namespace
{
// A source file whose name looks like a format.
#line 700 "odd%20dir/100%s%n.cpp"
void percent(bool cond, int v, volatile int *continued, int *evaluated)
{
    HERE(16); UTILS_ABORT_IF(COND, "\nreason: odd file name, %d", v);
    *continued = 1;
}
}  // namespace
}  // namespace sut

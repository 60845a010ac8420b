// What simulated objects throw: a code says when (1 before the effect, 2 after
// it) and, above that, which of several kinds of exception.
#pragma once
#include <exception>
#include <new>
namespace sut
{
struct Boom
{
};
struct StdBoom : std::exception
{
};
constexpr int kBooms = 4;
[[noreturn]] inline void boom(int code)
{
    switch (code >> 2)
    {
        case 1: throw std::bad_alloc();
        case 2: throw StdBoom();
        case 3: throw 42;
        default: throw Boom();
    }
}
// 0, or 1 + 4 * kind
template <class F>
int caught(F &&f)
{
    try
    {
        f();
        return 0;
    }
    catch (const Boom &)
    {
        return 1;
    }
    catch (const std::bad_alloc &)
    {
        return 5;
    }
    catch (const StdBoom &)
    {
        return 9;
    }
    catch (int x)
    {
        return x == 42 ? 13 : 2;
    }
    catch (...)
    {
        return 2;
    }
}
}

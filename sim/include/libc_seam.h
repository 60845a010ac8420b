// Calls of the C library's byte functions go to the simulation's own
// (bytesw.cpp): instrumented, and unforgiving where the standard leaves the
// behaviour undefined. Force-included before everything else.
#pragma once
#include <string.h>
extern "C"
{
void *memcpy(void *, const void *, size_t) noexcept __asm__("sim_libc_memcpy");
void *memmove(void *, const void *, size_t) noexcept __asm__("sim_libc_memmove");
void *memset(void *, int, size_t) noexcept __asm__("sim_libc_memset");
int memcmp(const void *, const void *, size_t) noexcept __asm__("sim_libc_memcmp");
}

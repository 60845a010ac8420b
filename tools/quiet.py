#!/usr/bin/env python3
"""Edits that keep the behaviour: every check must stay quiet.  quiet.py [ID...]"""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/quiet"
SR, MO, ME, AL, TI, PI, CO = ("memory/simple_resource.h", "memory/monotonic_buffer_resource.h", "memory/memory.h",
                              "memory/allocator.h", "timer.h", "fast_pimpl.h", "common.h")
BLOCK = "A01 A02 A03 A04 A05 A06 A07 C03 C04 C05 D02 H01".split()
MONO = "A07 B01 B02 C03 C04 C05 D02 H01".split()
MEM = "A04 C01 C02 C03 C04 C05 D01 D02 H01 B02".split()
ALLOC = "A07 C03 C04 C05 D01 D02 H01".split()
TIMER = "C04 C05 E01 E02 E03".split()
PIMPL = "C04 C05 F01 F02".split()
ALL = sorted(set(BLOCK + MONO + MEM + ALLOC + TIMER + PIMPL + ["G01", "I01"]))
R = {}
R["sr-alloc-helper"] = (BLOCK, [(SR, '''                apply([this](BIndex aIndex) noexcept -> bool
                      { return not in_use(aIndex); },
                      [this, &pointer, aAlignment,
                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                      {
                          const auto block_size = block_size_in_bytes(aIndex);
                          std::byte *const block_pointer =
                              block_index_to_pointer(aIndex);
                          const auto skip =
                              skip_to_align(block_pointer, aAlignment);
                          if (skip <= block_size && aSize <= block_size - skip)
                          {
                              pointer = block_pointer + skip;
                              allocate_blocks(aIndex, pointer, aSize);
                              return 0;
                          }
                          return at(aIndex).next_index();
                      });
''', '''                pointer = take_first_fit(aSize, aAlignment);
'''), (SR, '''    void deallocate_impl(void *aPtr) noexcept
''', '''    std::byte *take_first_fit(const std::size_t aSize,
                              const std::size_t aAlignment) noexcept
    {
        for (BIndex i = 0;;)
        {
            if (!in_use(i))
            {
                const std::size_t room = block_size_in_bytes(i);
                std::byte *const begin = data_ + std::size_t{i} * BlockSize;
                const std::size_t skip = skip_to_align(begin, aAlignment);
                if (!(skip > room) && room - skip >= aSize)
                {
                    allocate_blocks(i, begin + skip, aSize);
                    return begin + skip;
                }
            }
            i = at(i).next_index();
            if (!i)
            {
                return nullptr;
            }
        }
    }

    void deallocate_impl(void *aPtr) noexcept
''')])
R["sr-dealloc-owns"] = (BLOCK, [(SR, '''        if ((aPtr >= static_cast<void *>(data_)) &&
            (aPtr < static_cast<void *>(data_ + this->size())))
        {
            const BIndex index = pointer_to_block_index(aPtr);
            deallocate_blocks(index);
        }
        else if (upstream_)
        {
            upstream_->deallocate(aPtr);
        }
        else
        {
            UTILS_ABORT_IF(aPtr < static_cast<void *>(data_),
                           "\\nreason: deallocating pointer(%p) is less than "
                           "simple_resource's "
                           "left boundary(%p)",
                           aPtr, data_);

            UTILS_ABORT_IF(
                (aPtr >= static_cast<void *>(data_ + this->size())) &&
                    !upstream_,
                "\\nreason: deallocating pointer(%p) is more than "
                "simple_resource's "
                "right boundary(%p)",
                aPtr, data_ + this->size());
        }
    }
''', '''        if (!owns(aPtr))
        {
            UTILS_ABORT_IF(!upstream_, "\\nreason: pointer(%p) is not in [%p, %p)", aPtr, data_, data_ + this->size());
            upstream_->deallocate(aPtr);
            return;
        }
        deallocate_blocks(pointer_to_block_index(aPtr));
    }

    bool owns(const void *aPtr) const noexcept
    {
        const auto at = reinterpret_cast<std::uintptr_t>(aPtr);
        const auto from = reinterpret_cast<std::uintptr_t>(data_);
        return data_ && at >= from && at - from < size();
    }
''')])
R["sr-release-loop"] = (BLOCK, [(SR, '''        apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
              [this](BIndex aIndex) mutable noexcept -> BIndex
              { return at(deallocate_blocks(aIndex)).next_index(); });
''', '''        BIndex i = 0;
        do
        {
            const BIndex here = in_use(i) ? deallocate_blocks(i) : i;
            i = at(here).next_index();
        } while (i != 0);
''')])
R["sr-release-reset"] = (BLOCK, [(SR, '''        apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
              [this](BIndex aIndex) mutable noexcept -> BIndex
              { return at(deallocate_blocks(aIndex)).next_index(); });
''', '''        in_use_.reset();
        infos_[0] = block_info{};
        free_count_ = 1;
        busy_count_ = 0;
''')])
R["sr-bool-array"] = (BLOCK, [(SR, "    std::bitset<MaxBlockCount> in_use_{};\n", "    bool in_use_[MaxBlockCount] = {};\n")])
R["sr-members"] = (BLOCK, [(SR, '''    std::size_t free_count_{};
    std::size_t busy_count_{};
};
''', '''    std::size_t free_count_{};
    std::size_t busy_count_{};
    const void *origin_{data_};
    unsigned long long generation_ = 0;
};
'''), (SR, '''    void set_prev(const BIndex aIndex, const BIndex aPrev) noexcept
    {
''', '''    void set_prev(const BIndex aIndex, const BIndex aPrev) noexcept
    {
        ++generation_;
''')])
R["sr-merge-rewrite"] = (BLOCK, [(SR, '''        block_info &info = at(aIndex);
        assert(not in_use(aIndex));
        const BIndex merged =
            merge_if_both_not_in_use(info.prev_index(), aIndex);
        return merge_if_both_not_in_use(merged, info.next_index());
''', '''        assert(!in_use(aIndex));
        const BIndex before = at(aIndex).prev_index();
        const BIndex after = at(aIndex).next_index();
        BIndex merged = aIndex;
        if (before != aIndex)
        {
            merged = merge_if_both_not_in_use(before, aIndex);
        }
        return after ? merge_if_both_not_in_use(merged, after) : merged;
''')])
R["sr-dtor-helper"] = (BLOCK, [(SR, '''        UTILS_ABORT_IF(busy_count_,
                       "\\nreason: simple_resource is being destroyed while %d "
                       "of its regions "
                       "are in use.",
                       busy_count_);
    }
''', '''        require_all_free();
    }

    void require_all_free() const noexcept
    {
        const auto n = static_cast<int>(busy_count());
        UTILS_ABORT_IF(n != 0, "\\nreason: destroyed while %d of its regions are in use.", n);
    }
''')])
R["sr-ctor"] = (BLOCK, [(SR, '''    simple_resource(std::byte *const aBuffer, const std::size_t aSize) noexcept
        : simple_resource(
              details::origin_and_block_count<BlockSize, MaxBlockCount>(aBuffer,
                                                                        aSize),
              get_default_resource())
''', '''    simple_resource(std::byte *const aBuffer, const std::size_t aSize) noexcept
        : simple_resource(aBuffer, aSize, get_default_resource())
'''), (SR, '''    if (aBuffer && aSize)
    {
        const auto kSkip = skip_to_align(aBuffer, BlockSize);
        if (kSkip < aSize)
        {
            const auto count = (aSize - kSkip) / BlockSize;
            if (count > 0)
            {
                block_count = count;
                first_block_ptr = aBuffer + kSkip;
            }
        }
    }

    return {first_block_ptr, block_count};
''', '''    if (!aBuffer)
    {
        return {first_block_ptr, block_count};
    }
    const std::size_t skip = skip_to_align(aBuffer, BlockSize);
    block_count = skip > aSize ? 0 : (aSize - skip) / BlockSize;
    if (block_count)
    {
        first_block_ptr = aBuffer + skip;
    }
    return std::make_tuple(first_block_ptr, block_count);
''')])
R["sr-split-order"] = (BLOCK, [(SR, '''    aResource.set_in_use(aFirst);

    using BIndex = typename Resource::BIndex;
    const BIndex next = aLast + 1;
    auto &free_info = aResource.at(aFreeFirst);

    aResource.set_prev_next(aFirst, aFreeFirst, next);

    aResource.set_prev_next(next, aFirst, free_info.next_index());

    aResource.set_prev(free_info.next_index(), next);
    aResource.set_next(aFreeFirst, aFirst);

    ++aResource.free_count_;
    ++aResource.busy_count_;
''', '''    using BIndex = typename Resource::BIndex;
    const BIndex rest = static_cast<BIndex>(aLast + 1);
    const BIndex after = aResource.at(aFreeFirst).next_index();
    ++aResource.busy_count_;
    ++aResource.free_count_;
    aResource.set_prev(after, rest);
    aResource.set_next(aFreeFirst, aFirst);
    aResource.set_prev_next(rest, aFirst, after);
    aResource.set_prev_next(aFirst, aFreeFirst, rest);
    aResource.set_in_use(aFirst);
''')])
R["sr-block-size"] = (BLOCK, [(SR, '''        std::size_t next_index = at(aIndex).next_index();
        if (!next_index)
        {
            next_index = block_count_;
        }
        return next_index - aIndex;
''', '''        const std::size_t end = at(aIndex).next_index();
        return (end ? end : block_count_) - aIndex;
''')])
R["mo-offset"] = (MONO, [(MO, '''        if (data_)
        {
            const auto skip = skip_to_align(next_, aAlignment);
            const auto room = static_cast<std::size_t>(data_ + size_ - next_);
            if (skip <= room && aSize <= room - skip)
            {
                pointer = next_ + skip;
                next_ = pointer + aSize;
            }
        }
''', '''        if (data_)
        {
            std::byte *const from = data_ + used_;
            const std::size_t gap = skip_to_align(from, aAlignment);
            const std::size_t left = size_ - used_;
            if (gap <= left && left - gap >= aSize)
            {
                pointer = from + gap;
                used_ += gap + aSize;
            }
        }
'''), (MO, "    std::byte *next_{};\n", "    std::size_t used_{};\n"), (MO, "        , next_(data_)\n", ""),
    (MO, "{ next_ = data_; }", "{ used_ = 0; }")])
R["mo-std-align"] = (MONO, [(MO, '''            const auto skip = skip_to_align(next_, aAlignment);
            const auto room = static_cast<std::size_t>(data_ + size_ - next_);
            if (skip <= room && aSize <= room - skip)
            {
                pointer = next_ + skip;
                next_ = pointer + aSize;
            }
''', '''            void *at = next_;
            std::size_t room = size_ - static_cast<std::size_t>(next_ - data_);
            if (std::align(aAlignment, aSize, at, room))
            {
                pointer = static_cast<std::byte *>(at);
                next_ = pointer + aSize;
            }
'''), (MO, "#include <functional>\n", "#include <functional>\n#include <memory>\n")])
R["mo-helpers"] = (MONO, [(MO, '''        const auto ptr = static_cast<std::byte *>(aPtr);
        const bool in_buffer = !std::less<std::byte *>{}(ptr, data_) &&
                               std::less<std::byte *>{}(ptr, data_ + size_);
        if (ptr && !in_buffer && upstream_)
        {
            upstream_->deallocate(ptr);
        }
    }
''', '''        if (!aPtr || !upstream_ || contains(aPtr))
        {
            return;
        }
        upstream_->deallocate(aPtr);
    }

    bool contains(const void *aPtr) const noexcept
    {
        return reinterpret_cast<std::uintptr_t>(aPtr) -
                   reinterpret_cast<std::uintptr_t>(data_) <
               size_;
    }
'''), (MO, '''        if (!pointer && upstream_)
        {
            pointer = static_cast<std::byte *>(
                upstream_->allocate(aSize, aAlignment));
        }

        return pointer;
''', '''        if (pointer)
        {
            return pointer;
        }
        return upstream_ ? upstream_->allocate(aSize, aAlignment) : nullptr;
''')])
R["me-malloc"] = (MEM, [(ME, '''    void *result;
#ifdef''', '''    void *result = nullptr;
#ifdef'''), (ME, '''    aAlignment = aAlignment >= sizeof(void *) ? aAlignment : sizeof(void *);
    if (sysops::memory::ops::posix_memalign(&result, aAlignment, aSize))
    {
        result = 0;
    }
''', '''    const int error = sysops::memory::ops::posix_memalign(
        &result, std::max(aAlignment, sizeof(void *)), aSize);
    if (error != 0)
    {
        return nullptr;
    }
''')])
R["me-free-null"] = (MEM, [(ME, '''#else
    sysops::memory::ops::free(aPtr);
''', '''#else
    if (aPtr)
    {
        sysops::memory::ops::free(aPtr);
    }
''')])
R["me-dispatch"] = (ALL, [(ME, "return std::invoke(allocate_, this, aSize, aAlignment);", "return (this->*allocate_)(aSize, aAlignment);"),
    (ME, "std::invoke(deallocate_, this, aPtr);", "const auto f = deallocate_;\n        (this->*f)(aPtr);"),
    (ME, '''        return allocate(sizeof(T), alignof(T));''', '''        void *const result = this->allocate(sizeof(T), alignof(T));
        return result;''')])
R["me-orders"] = (MEM, [(ME, "default_resource.exchange(aResource)", "default_resource.exchange(aResource, std::memory_order_acq_rel)"),
    (ME, "default_resource.load()", "default_resource.load(std::memory_order_acquire)")])
R["me-cas-loop"] = (MEM, [(ME, "    return details::default_resource.exchange(aResource);", '''    memory_resource *old = details::default_resource.load();
    while (!details::default_resource.compare_exchange_weak(old, aResource))
    {
    }
    return old;''')])
R["me-accessor"] = (MEM, [(ME, '''inline std::atomic<memory_resource *> default_resource =
    system_memory_resource();
''', '''inline std::atomic<memory_resource *> &default_resource() noexcept
{
    static std::atomic<memory_resource *> r{system_memory_resource()};
    return r;
}
'''), (ME, "details::default_resource.exchange", "details::default_resource().exchange"),
    (ME, "details::default_resource.load", "details::default_resource().load")])
R["me-equal"] = (MEM + ["D02"], [(ME, "        return a.is_equal(b);", "        return &a == &b || a.is_equal(b);"),
    (ME, "        return !(a == b);", "        const bool same = a == b;\n        return !same;")])
R["al-one-path"] = (ALLOC, [(AL, '''        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(T))
        {
            return nullptr;
        }
        return static_cast<T*>(
            resource_->allocate(aCount * sizeof(T), alignof(T)));
''', '''        return this->template allocate_object<T>(aCount);
'''), (AL, "void deallocate(T* aPtr) noexcept { resource_->deallocate(aPtr); }", "void deallocate(T* aPtr) noexcept { deallocate_bytes(aPtr); }"),
    (AL, '''        if (aPtr)
        {
            aPtr->~U();
            deallocate_object(aPtr);
        }
''', '''        if (!aPtr)
        {
            return;
        }
        std::destroy_at(aPtr);
        resource_->deallocate(aPtr);
'''), (AL, "#include <limits>\n", "#include <limits>\n#include <memory>\n")])
R["al-new-inline"] = (ALLOC, [(AL, '''        U* ptr = this->allocate_object<U>();
        if (ptr)
        {
            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
        }
        return ptr;
''', '''        void* const place = allocate_bytes(sizeof(U), alignof(U));
        return place ? ::new (place) U(std::forward<CtorArgs>(aArgs)...) : nullptr;
'''), (AL, '''        return *aLhs.resource_ == *aRhs.resource_;
''', '''        const memory_resource& mine = *aLhs.resource();
        return mine.is_equal(*aRhs.resource());
''')])
R["ti-finish"] = (TIMER, [(TI, '''        if (callback_)
        {
            std::invoke(callback_, data_, *this);
        }
        start_ = taken.start_;
''', '''        finish();
        start_ = taken.start_;
'''), (TI, '''    ~timer()
    {
        if (callback_)
        {
            std::invoke(callback_, data_, *this);
        }
    }
''', '''    ~timer() { finish(); }
'''), (TI, '''    void take_callback(timer &aOther) noexcept
''', '''    void finish() noexcept
    {
        if (const auto f = std::exchange(callback_, nullptr))
        {
            f(data_, *this);
        }
    }

    void take_callback(timer &aOther) noexcept
''')])
R["ti-take"] = (TIMER, [(TI, '''        if (callback_)
        {
            relocate_(data_, aOther.data_);
            aOther.callback_ = nullptr;
        }
''', '''        if (!callback_)
        {
            return;
        }
        aOther.callback_ = nullptr;
        std::invoke(relocate_, data_, aOther.data_);
'''), (TI, '''        FinishCallback &stored = callback<FinishCallback>(aSrc);
        ::new (static_cast<void *>(aDst)) FinishCallback(std::move(stored));
        stored.~FinishCallback();
''', '''        FinishCallback *const from = reinterpret_cast<FinishCallback *>(aSrc);
        ::new (static_cast<void *>(aDst)) FinishCallback(std::move(*from));
        from->~FinishCallback();
''')])
R["ti-leaked"] = (TIMER, [(TI, '''    duration leaked() const noexcept { return clock::now() - start_; }
''', '''    duration leaked() const noexcept
    {
        const time_point now = clock::now();
        return now - start_;
    }

    template <typename To>
    To leaked_as() const noexcept
    {
        return std::chrono::duration_cast<To>(leaked());
    }
'''), (TI, "return std::chrono::duration_cast<std::chrono::seconds>(leaked());", "return leaked_as<std::chrono::seconds>();"),
   (TI, "return std::chrono::duration_cast<std::chrono::microseconds>(leaked());", "return leaked_as<std::chrono::microseconds>();"),
   (TI, "void reset() noexcept { start_ = clock::now(); }", "void reset() noexcept\n    {\n        const auto now = clock::now();\n        start_ = now;\n    }")])
R["ti-members"] = (TIMER, [(TI, '''    time_point start_ = clock::now();
    typename impl::callback_t callback_{};
    typename impl::relocate_t relocate_{};
    alignas(MaxCallbackAlignment) std::byte data_[MaxCallbackSize]{};
''', '''    alignas(MaxCallbackAlignment) std::byte data_[MaxCallbackSize];
    time_point start_;
    typename impl::callback_t callback_;
    typename impl::relocate_t relocate_;
    int kind_ = 0;
''')])
R["ti-move-assign"] = (TIMER, [(TI, '''        if (this == &aOther)
        {
            return *this;
        }
        timer taken{std::move(aOther)};
        if (callback_)
        {
            std::invoke(callback_, data_, *this);
        }
        start_ = taken.start_;
        callback_ = taken.callback_;
        relocate_ = taken.relocate_;
        take_callback(taken);
        return *this;
''', '''        if (this != std::addressof(aOther))
        {
            timer taken(std::move(aOther));
            this->~timer();
            ::new (static_cast<void *>(this)) timer(std::move(taken));
        }
        return *this;
'''), (TI, "#include <chrono>\n", "#include <chrono>\n#include <memory>\n")])
R["pi-construct"] = (PIMPL, [(PI, "        ::new (static_cast<void *>(data_)) T(aOther.get());", "        construct(aOther.get());"),
    (PI, "        ::new (static_cast<void *>(data_)) T(std::move(aOther));", "        construct(std::move(aOther));"),
    (PI, "        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));", "        construct(static_cast<T &&>(aOther.get()));"),
    (PI, "        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);", "        construct(std::forward<Args>(args)...);"),
    (PI, "   private:\n    alignas(Alignment) std::byte data_[Size]{};", '''   private:
    template <typename... Args>
    void construct(Args &&...args)
    {
        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
    }

    alignas(Alignment) std::byte data_[Size];''')])
R["pi-launder"] = (PIMPL, [(PI, "T &get() noexcept { return reinterpret_cast<T &>(*this); }", "T &get() noexcept { return *std::launder(reinterpret_cast<T *>(data_)); }"),
    (PI, "        get() = std::move(aOther.get());", "        T &from = aOther.get();\n        get() = static_cast<T &&>(from);"),
    (PI, "        get().~T();", "        T *const p = std::addressof(get());\n        p->~T();")])
R["pi-delegate"] = (PIMPL, [(PI, '''        get() = aOther.get();
        return *this;
''', '''        return *this = aOther.get();
'''), (PI, '''        get() = std::move(aOther.get());
        return *this;
''', '''        return *this = std::move(aOther.get());
'''), (PI, '''    fast_pimpl(const fast_pimpl &aOther) noexcept(
        std::is_nothrow_copy_constructible_v<T>)
    {
        ::new (static_cast<void *>(data_)) T(aOther.get());
    }
''', '''    fast_pimpl(const fast_pimpl &aOther) noexcept(
        std::is_nothrow_copy_constructible_v<T>)
    {
        ::new (static_cast<void *>(std::addressof(get()))) T(*aOther.operator->());
    }
''')])
R["co-abort-helper"] = (["A06", "G01"], [(CO, '''    if (aCondition)
    {
        if (aFormat)
        {
            std::va_list arglist;
            va_start(arglist, aFormat);
            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
            std::fflush(stderr);
        }
        std::abort();
    }
}
''', '''    if (!aCondition)
    {
        return;
    }
    std::va_list arglist;
    va_start(arglist, aFormat);
    if (aFormat != nullptr)
    {
        std::vfprintf(stderr, aFormat, arglist);
        std::fflush(stderr);
    }
    va_end(arglist);
    std::abort();
}
''')])
R["co-abort-macro"] = (["A06", "G01"], [(CO, '''    utils::abort_if(condition,                                           \\
                    "[ERROR]\\nfile: %s\\nline: " UTILS_STR(__LINE__)      \\
                    "\\nfunc: %s" format_str,                             \\
                    __FILE__, UTILS_FUNC, __VA_ARGS__)
''', '''    do                                                                   \\
    {                                                                    \\
        const bool utils_failed = static_cast<bool>(condition);          \\
        if (utils_failed)                                                \\
        {                                                                \\
            utils::abort_if(true,                                        \\
                            "[ERROR]\\nfile: %s\\nline: %d"                \\
                            "\\nfunc: %s" format_str,                     \\
                            __FILE__, __LINE__, UTILS_FUNC, __VA_ARGS__); \\
        }                                                                \\
    } while (0)
''')])
R["co-align"] = (ALL, [(CO, '''    const std::uintptr_t ptrAsUInt = reinterpret_cast<std::uintptr_t>(aPtr);
    return next_multiple_of(aAlignment, ptrAsUInt) - ptrAsUInt;
''', '''    const auto at = reinterpret_cast<std::uintptr_t>(aPtr);
    const std::uintptr_t mask = aAlignment - 1;
    return (aAlignment - (at & mask)) & mask;
'''), (CO, '''    const std::size_t value = aBlockAlignment + aBlockSize - 1;
''', '''    std::size_t value = aBlockSize - 1;
    value += aBlockAlignment;
'''), (CO, '''    return ((reinterpret_cast<std::uintptr_t>(aPtr) & (aAlignment - 1)) == 0);
''', '''    return reinterpret_cast<std::uintptr_t>(aPtr) % aAlignment == 0;
'''), (CO, "    return (aValue == 0) ? 0 : 1 + bits_count(aValue >> 1);", '''    uint8_t n = 0;
    for (uint64_t v = aValue; v; v >>= 1)
    {
        ++n;
    }
    return n;''')])
BYTES, SEQ = ["I01", "I02"], ["J01", "J02"]
R["co-foreach"] = (SEQ, [(CO, '''    using I = std::initializer_list<int>;
    (void)I{(std::forward<F>(f)(std::forward<Ts>(ts)), 0)...};
''', '''    (static_cast<void>(std::forward<F>(f)(std::forward<Ts>(ts))), ...);
'''), (CO, '''    std::apply([&f](auto&&... xs)
               { for_each_arg(f, std::forward<decltype(xs)>(xs)...); },
               std::forward<T>(t));
''', '''    std::apply(
        [&f](auto&&... xs)
        {
            [[maybe_unused]] const int done[] = {
                0, (static_cast<void>(f(std::forward<decltype(xs)>(xs))), 0)...};
        },
        std::forward<T>(t));
''')])
R["co-foreach-index"] = (SEQ, [(CO, '''template <typename F, typename T>
void for_each_in_tuple(F&& f, T&& t)
{
    std::apply([&f](auto&&... xs)
               { for_each_arg(f, std::forward<decltype(xs)>(xs)...); },
               std::forward<T>(t));
}
''', '''namespace details
{
template <typename F, typename T, std::size_t... I>
void for_each_at(F& f, [[maybe_unused]] T&& t, std::index_sequence<I...>)
{
    (static_cast<void>(f(std::get<I>(std::forward<T>(t)))), ...);
}
}  // namespace details

template <typename F, typename T>
void for_each_in_tuple(F&& f, T&& t)
{
    details::for_each_at(
        f, std::forward<T>(t),
        std::make_index_sequence<std::tuple_size_v<std::decay_t<T>>>{});
}
''')])
R["co-arrays"] = (SEQ, [(CO, '''    return concatenate_arrays(
        concatenate_2_arrays(std::forward<A1>(aArray1),
                             std::forward<A2>(aArray2), Indices1{}, Indices2{}),
        std::forward<RestArrays>(aArrays)...);
''', '''    auto head =
        concatenate_2_arrays(std::forward<A1>(aArray1),
                             std::forward<A2>(aArray2), Indices1{}, Indices2{});
    if constexpr (sizeof...(RestArrays) == 0)
    {
        return head;
    }
    else
    {
        return concatenate_arrays(std::move(head),
                                  std::forward<RestArrays>(aArrays)...);
    }
'''), (CO, '''    return details::make_array_with_value_impl<T>(
        aValue, std::make_index_sequence<N>{});
''', '''    using Indices = std::make_index_sequence<N>;
    return details::make_array_with_value_impl<T>(std::move(aValue),
                                                  Indices{});
'''), (CO, '''    return {std::forward<T>(aArgs)...};
''', '''    std::array<CommonT, sizeof...(T)> result{std::forward<T>(aArgs)...};
    return result;
''')])
R["co-arrays-fold-right"] = (SEQ, [(CO, '''    return concatenate_arrays(
        concatenate_2_arrays(std::forward<A1>(aArray1),
                             std::forward<A2>(aArray2), Indices1{}, Indices2{}),
        std::forward<RestArrays>(aArrays)...);
''', '''    if constexpr (sizeof...(RestArrays) == 0)
    {
        return concatenate_2_arrays(std::forward<A1>(aArray1),
                                    std::forward<A2>(aArray2), Indices1{},
                                    Indices2{});
    }
    else
    {
        return concatenate_arrays(
            std::forward<A1>(aArray1),
            concatenate_arrays(std::forward<A2>(aArray2),
                               std::forward<RestArrays>(aArrays)...));
    }
'''),])
R["co-memvcmp"] = (BYTES, [(CO, '''    return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);
''', '''    for (const unsigned char* const end = mm + size; mm != end; ++mm)
    {
        if (*mm != val)
        {
            return false;
        }
    }
    return true;
''')])
R["co-memvcmp-words"] = (BYTES, [(CO, '''    return (*mm == val) && (memcmp(mm, mm + 1, size - 1) == 0);
''', '''    std::uint64_t want = 0;
    std::memset(&want, val, sizeof want);
    std::size_t i = 0;
    for (; size - i >= sizeof want; i += sizeof want)
    {
        std::uint64_t word;
        std::memcpy(&word, mm + i, sizeof word);
        if (word != want)
        {
            return false;
        }
    }
    while (i < size && mm[i] == val)
    {
        ++i;
    }
    return i == size;
''')])
R["me-bytes"] = (BYTES, [(ME, '''        return static_cast<std::byte *>(std::memmove(aDst, aSrc, aCount));
''', '''        if (aDst <= aSrc || aDst >= aSrc + aCount)
        {
            for (std::size_t i = 0; i != aCount; ++i)
            {
                aDst[i] = aSrc[i];
            }
        }
        else
        {
            for (std::size_t i = aCount; i-- != 0;)
            {
                aDst[i] = aSrc[i];
            }
        }
        return aDst;
'''), (ME, '''        std::memcpy(aTo, aFrom, aCount);
    }
}
''', '''        auto *to = reinterpret_cast<unsigned char *>(aTo);
        const auto *from = reinterpret_cast<const unsigned char *>(aFrom);
        while (aCount)
        {
            *to++ = *from++;
            --aCount;
        }
    }
}
''')])
R["me-copy-by-move"] = (BYTES, [(ME, '''        std::memcpy(aTo, aFrom, aCount);
    }
}
''', '''        std::memmove(aTo, aFrom, aCount);
    }
}
'''), (ME, '''        return static_cast<std::byte *>(std::memmove(aDst, aSrc, aCount));
''', '''        if (aCount)
        {
            std::memmove(aDst, aSrc, aCount);
        }
        return aDst;
''')])
R["me-wipe"] = (BYTES, [(ME, '''        volatile std::byte *const buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }
''', '''        std::memset(aPtr, 0, aSize);
        asm volatile("" : : "r"(aPtr) : "memory");
'''), (ME, '''    if (!aPtr)
    {
        return -1;
    }

    if (!aSize)
    {
        return -2;
    }

    secure_zero_memory(aPtr, aSize);
    return 0;
''', '''    if (aPtr && aSize)
    {
        secure_zero_memory(aPtr, aSize);
        return 0;
    }
    return aPtr ? -2 : -1;
''')])
R["me-wipe-words"] = (BYTES, [(ME, '''        volatile std::byte *const buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }
''', '''        volatile std::byte *buf = aPtr;
        while (aSize && reinterpret_cast<std::uintptr_t>(buf) % 8)
        {
            *buf = std::byte{};
            ++buf;
            --aSize;
        }
        for (; aSize >= 8; aSize -= 8, buf += 8)
        {
            typedef std::uint64_t __attribute__((may_alias)) word;
            *reinterpret_cast<volatile word *>(buf) = 0;
        }
        for (; aSize; --aSize)
        {
            *buf = std::byte{};
            ++buf;
        }
''')])

R["sr-one-split"] = (BLOCK, [(SR, '''        if (aFreeRegion == first)
        {
            if (last != last_of_free)
            {
                details::allocate_begin_matched(*this, aFreeRegion, last,
                                                last_of_free);
            }
            else
            {
                details::allocate_matched(*this, aFreeRegion);
            }
        }
        else
        {
            if (last != last_of_free)
            {
                details::allocate_not_matched(*this, aFreeRegion, first, last,
                                              last_of_free);
            }
            else
            {
                details::allocate_end_matched(*this, aFreeRegion, first, last);
            }
        }
''', '''        // from the right to the left, one cut each
        if (last != last_of_free)
        {
            cut(aFreeRegion, static_cast<BIndex>(last + 1));
        }
        if (first != aFreeRegion)
        {
            cut(aFreeRegion, first);
        }
        set_in_use(first);
        --free_count_;
        ++busy_count_;
'''), (SR, '''    inline BIndex pointer_to_block_index(void''', '''    // Two free regions out of one
    void cut(const BIndex aRegion, const BIndex aWhere) noexcept
    {
        const BIndex after = at(aRegion).next_index();
        infos_[aWhere].prev_index_ = aRegion;
        infos_[aWhere].next_index_ = after;
        infos_[aRegion].next_index_ = aWhere;
        if (after)
        {
            infos_[after].prev_index_ = aWhere;
        }
        ++free_count_;
    }

    inline BIndex pointer_to_block_index(void''')])
R["sr-counts-on-demand"] = (BLOCK, [(SR, '''    constexpr std::size_t free_count() const noexcept { return free_count_; }

    constexpr std::size_t busy_count() const noexcept { return busy_count_; }
''', '''    std::size_t free_count() const noexcept
    {
        return block_count_ ? count_regions(false) : 0;
    }

    std::size_t busy_count() const noexcept
    {
        return block_count_ ? count_regions(true) : 0;
    }
'''), (SR, '''    BIndex deallocate_blocks(const BIndex''', '''    std::size_t count_regions(const bool aInUse) const noexcept
    {
        std::size_t n = 0;
        BIndex i = 0;
        do
        {
            n += in_use(i) == aInUse;
            i = at(i).next_index();
        } while (i);
        return n;
    }

    BIndex deallocate_blocks(const BIndex''')])
R["sr-swap-info"] = (BLOCK, [(SR, '''        BIndex prev_index_{};
        BIndex next_index_{};
''', '''        BIndex next_index_{};
        BIndex prev_index_{};
'''), (SR, "        return static_cast<BIndex>((ptr - begin) / BlockSize);", "        return static_cast<BIndex>((ptr - begin) >>\n                                   ctz(std::uint64_t{BlockSize}));"),
    (SR, "        return data_ + aIndex * BlockSize;", "        return &data_[std::size_t{aIndex} * BlockSize];")])
R["sr-apply-for"] = (BLOCK, [(SR, '''        BIndex i = 0;
        do
        {
            block_info &info = at(i);
            if (std::invoke(aPredicate, i))
            {
                i = std::invoke(aAction, i);
            }
            else
            {
                i = info.next_index();
            }
        } while (i);
''', '''        for (BIndex i = 0, next = 0;; i = next)
        {
            const bool match = aPredicate(i);
            next = match ? aAction(i) : at(i).next_index();
            if (next == 0)
            {
                break;
            }
        }
''')])
R["sr-guards-first"] = (BLOCK, [(SR, '''        if ((aPtr >= static_cast<void *>(data_)) &&
            (aPtr < static_cast<void *>(data_ + this->size())))
        {
            const BIndex index = pointer_to_block_index(aPtr);
            deallocate_blocks(index);
        }
        else if (upstream_)
''', '''        const auto address = reinterpret_cast<std::uintptr_t>(aPtr);
        const auto begin = reinterpret_cast<std::uintptr_t>(data_);
        if (data_ && address - begin < block_count_ * BlockSize)
        {
            deallocate_blocks(static_cast<BIndex>((address - begin) / BlockSize));
            return;
        }
        if (upstream_)
''')])
R["mo-end"] = (MONO, [(MO, "    std::byte *data_{};\n    std::size_t size_{};\n", "    std::byte *data_{};\n    std::byte *end_{};\n"),
    (MO, "        , size_(aBuffer ? aSize : 0)\n", "        , end_(data_ ? data_ + aSize : nullptr)\n"),
    (MO, "std::size_t size() const noexcept { return size_; }", "std::size_t size() const noexcept\n    {\n        return static_cast<std::size_t>(end_ - data_);\n    }"),
    (MO, "static_cast<std::size_t>(data_ + size_ - next_)", "static_cast<std::size_t>(end_ - next_)"),
    (MO, "std::less<std::byte *>{}(ptr, data_ + size_)", "std::less<std::byte *>{}(ptr, end_)")])
R["mo-early-return"] = (MONO, [(MO, '''        std::byte *pointer{};
        if (data_)
        {
            const auto skip = skip_to_align(next_, aAlignment);
            const auto room = static_cast<std::size_t>(data_ + size_ - next_);
            if (skip <= room && aSize <= room - skip)
            {
                pointer = next_ + skip;
                next_ = pointer + aSize;
            }
        }

        if (!pointer && upstream_)
        {
            pointer = static_cast<std::byte *>(
                upstream_->allocate(aSize, aAlignment));
        }

        return pointer;
''', '''        if (void *const taken = take(aSize, aAlignment))
        {
            return taken;
        }
        return upstream_ ? upstream_->allocate(aSize, aAlignment) : nullptr;
'''), (MO, '''    void deallocate_impl(void *aPtr) noexcept
''', '''    void *take(const std::size_t aSize, const std::size_t aAlignment) noexcept
    {
        if (!data_)
        {
            return nullptr;
        }
        const std::size_t used = static_cast<std::size_t>(next_ - data_);
        const std::size_t skip = skip_to_align(next_, aAlignment);
        if (skip > size_ - used || aSize > size_ - used - skip)
        {
            return nullptr;
        }
        std::byte *const result = next_ + skip;
        next_ = result + aSize;
        return result;
    }

    void deallocate_impl(void *aPtr) noexcept
''')])
R["me-mutex"] = ("C02 C03 C05".split(), [(ME, "#include <functional>\n", "#include <functional>\n#include <mutex>\n"),
    (ME, '''inline std::atomic<memory_resource *> default_resource =
    system_memory_resource();
''', '''inline memory_resource *default_resource = system_memory_resource();
inline std::mutex default_resource_mutex;
'''), (ME, "    return details::default_resource.exchange(aResource);", '''    const std::lock_guard<std::mutex> lock(details::default_resource_mutex);
    memory_resource *const old = details::default_resource;
    details::default_resource = aResource;
    return old;'''), (ME, "    return details::default_resource.load();", '''    const std::lock_guard<std::mutex> lock(details::default_resource_mutex);
    return details::default_resource;''')])
R["me-union"] = (MEM, [(ME, '''    alignas(details::system_memory_resource) static std::byte
        buf[sizeof(details::system_memory_resource)];
    static memory_resource *const r =
        ::new (static_cast<void *>(buf)) details::system_memory_resource;
    return r;
''', '''    static union holder
    {
        details::system_memory_resource resource;
        holder() : resource() {}
        ~holder() {}
    } h;
    return &h.resource;
'''), (ME, "    friend memory_resource * ::utils::memory::system_memory_resource() noexcept;\n\n    system_memory_resource()", "    friend memory_resource * ::utils::memory::system_memory_resource() noexcept;\n\n   public:\n    system_memory_resource()")])
R["al-helpers"] = (ALLOC, [(AL, '''        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
''', '''        static_assert(sizeof(U) > 0);
        void* const place = aPtr;
        ::new (place) U(static_cast<Args&&>(aArgs)...);
'''), (AL, '''        if (aPtr)
        {
            aPtr->~U();
            deallocate_object(aPtr);
        }
''', '''        if (!aPtr)
        {
            return;
        }
        memory_resource* const resource = resource_;
        aPtr->~U();
        resource->deallocate(aPtr);
''')])
R["ti-table"] = (TIMER, [(TI, '''        , callback_{&impl::template call_finish_callback<
              typename impl::template storable_t<FinishCallback>>}
        , relocate_{&impl::template relocate_callback<
              typename impl::template storable_t<FinishCallback>>}
''', '''        , how_{&table_for<typename impl::template storable_t<FinishCallback>>}
'''), (TI, '''        , callback_(aOther.callback_)
        , relocate_(aOther.relocate_)
''', '''        , how_(aOther.how_)
'''), (TI, '''        if (callback_)
        {
            std::invoke(callback_, data_, *this);
        }
    }

    template <
''', '''        finish();
    }

    template <
'''), (TI, '''        if (callback_)
        {
            std::invoke(callback_, data_, *this);
        }
        start_ = taken.start_;
        callback_ = taken.callback_;
        relocate_ = taken.relocate_;
''', '''        finish();
        how_ = taken.how_;
        start_ = taken.start_;
'''), (TI, '''        if (callback_)
        {
            relocate_(data_, aOther.data_);
            aOther.callback_ = nullptr;
        }
''', '''        if (how_)
        {
            how_->relocate(data_, aOther.data_);
            aOther.how_ = nullptr;
        }
'''), (TI, '''    typename impl::callback_t callback_{};
    typename impl::relocate_t relocate_{};
''', '''    const table *how_{};
'''), (TI, '''    void take_callback(timer''', '''    struct table
    {
        typename impl::callback_t finish;
        typename impl::relocate_t relocate;
    };

    template <typename Stored>
    static constexpr table table_for{
        &impl::template call_finish_callback<Stored>,
        &impl::template relocate_callback<Stored>};

    void finish() noexcept
    {
        if (how_)
        {
            how_->finish(data_, *this);
        }
    }

    void take_callback(timer''')])
R["ti-now-local"] = (TIMER, [(TI, "    duration leaked() const noexcept { return clock::now() - start_; }", '''    duration leaked() const noexcept
    {
        const time_point now = clock::now();
        const duration passed = now - start_;
        return passed;
    }'''), (TI, "    time_point start_ = clock::now();\n", "    time_point start_;\n"),
    (TI, "    void reset() noexcept { start_ = clock::now(); }", "    void reset() noexcept\n    {\n        timer &self = *this;\n        self.start_ = impl::clock::now();\n    }")])
R["pi-storage"] = (PIMPL, [(PI, "    alignas(Alignment) std::byte data_[Size]{};", "    struct alignas(Alignment) storage\n    {\n        unsigned char bytes[Size];\n    };\n    storage data_;"),
    (PI, "static_cast<void *>(data_)", "static_cast<void *>(&data_)"),
    (PI, "        get().~T();", "        T *const value = std::addressof(get());\n        value->~T();"),
    (PI, "T &get() noexcept { return reinterpret_cast<T &>(*this); }", "T &get() noexcept\n    {\n        return *static_cast<T *>(static_cast<void *>(data_.bytes));\n    }"),
    (PI, "const T &get() const noexcept { return reinterpret_cast<const T &>(*this); }", "const T &get() const noexcept\n    {\n        return *static_cast<const T *>(static_cast<const void *>(data_.bytes));\n    }")])
R["co-arith"] = (ALL, [(CO, "    return (aValue == 0) ? 0 : 1 + bits_count(aValue >> 1);", '''    uint8_t n = 0;
    for (uint64_t rest = aValue; rest; rest >>= 1)
    {
        ++n;
    }
    return n;'''), (CO, "    return ((reinterpret_cast<std::uintptr_t>(aPtr) & (aAlignment - 1)) == 0);", "    return reinterpret_cast<std::uintptr_t>(aPtr) % aAlignment == 0;"),
    (CO, "    return (aValue + aMultiple - 1) & -aMultiple;", "    const std::uintptr_t mask = aMultiple - 1;\n    return (aValue + mask) & ~mask;"),
    (CO, "    return aValue && ((aValue & (aValue - 1)) == 0);", "    return aValue != 0 && (aValue & (~aValue + 1)) == aValue;")])
R["co-abort-fputs"] = (["A06", "G01"], [(CO, '''        if (aFormat)
        {
            std::va_list arglist;
            va_start(arglist, aFormat);
            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
            std::fflush(stderr);
        }
        std::abort();
''', '''        if (nullptr != aFormat)
        {
            std::FILE *const out = stderr;
            std::va_list arguments;
            va_start(arguments, aFormat);
            static_cast<void>(std::vfprintf(out, aFormat, arguments));
            va_end(arguments);
            static_cast<void>(std::fflush(out));
        }
        std::abort();
''')])
R["co-value-array"] = (SEQ, [(CO, '''    if constexpr (std::is_copy_constructible_v<T>)
    {
        return static_cast<const T&>(aValue);
    }
    else
    {
        return std::move(aValue);
    }
''', '''    using result = std::conditional_t<std::is_copy_constructible_v<T>, const T&,
                                      T&&>;
    return static_cast<result>(aValue);
''')])
R["co-zero-array"] = (SEQ, [(CO, "    return {(static_cast<void>(I), T{})...};", "    std::array<T, sizeof...(I)> result{((void)I, T{})...};\n    return result;")])
R["me-wipe-memset"] = (BYTES, [(ME, '''inline constexpr void secure_zero_memory(std::byte *aPtr,
''', '''namespace details
{
inline void wipe(void *aPtr, std::size_t aSize) noexcept
{
    void *(*const volatile set)(void *, int, std::size_t) = &std::memset;
    set(aPtr, 0, aSize);
}
}  // namespace details

inline constexpr void secure_zero_memory(std::byte *aPtr,
'''), (ME, '''        volatile std::byte *const buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }
''', '''        if (aSize)
        {
            details::wipe(aPtr, aSize);
        }
''')])
R["me-wipe-barrier"] = (BYTES, [(ME, '''        volatile std::byte *const buf = aPtr;
        for (std::size_t i = 0; i < aSize; ++i)
        {
            *(buf + i) = std::byte{};
        }
''', '''        details::wipe(aPtr, aSize);
'''), (ME, '''inline constexpr void secure_zero_memory(std::byte *aPtr,
''', '''namespace details
{
inline void wipe(std::byte *aPtr, std::size_t aSize) noexcept
{
    std::fill_n(aPtr, aSize, std::byte{});
    __asm__ __volatile__("" : : "r"(aPtr) : "memory");
}
}  // namespace details

inline constexpr void secure_zero_memory(std::byte *aPtr,
''')])
R["co-abort-buffer"] = (["A06", "G01"], [(CO, '''            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
            std::fflush(stderr);
''', '''            std::va_list again;
            va_copy(again, arglist);
            const int length = std::vsnprintf(nullptr, 0, aFormat, arglist);
            va_end(arglist);
            if (length > 0)
            {
                std::string text(static_cast<std::size_t>(length) + 1, '\\0');
                std::vsnprintf(&text[0], text.size(), aFormat, again);
                std::fwrite(text.data(), 1, static_cast<std::size_t>(length),
                            stderr);
            }
            va_end(again);
            std::fflush(stderr);
'''), (CO, "namespace utils\n{\ntemplate <typename T>\nstruct is_uint\n", "#include <string>\nnamespace utils\n{\ntemplate <typename T>\nstruct is_uint\n")])
R["co-abort-locked"] = (["A06", "G01"], [(CO, '''            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
            std::fflush(stderr);
''', '''            flockfile(stderr);
            vfprintf(stderr, aFormat, arglist);
            va_end(arglist);
            funlockfile(stderr);
            std::fflush(nullptr == stderr ? stdout : stderr);
''')])
R["co-arrays-tuple"] = (SEQ, [(CO, '''    using Indices1 = std::make_index_sequence<std_array_size_v<A1>>;
    using Indices2 = std::make_index_sequence<std_array_size_v<A2>>;
    return concatenate_arrays(
        concatenate_2_arrays(std::forward<A1>(aArray1),
                             std::forward<A2>(aArray2), Indices1{}, Indices2{}),
        std::forward<RestArrays>(aArrays)...);
''', '''    using result_t = std::array<std_array_data_t<A1>,
                                std_array_sizes_sum<A1, A2, RestArrays...>>;
    const auto refs = [](auto&& aArray)
    {
        return std::apply(
            [](auto&&... aElements)
            {
                return std::forward_as_tuple(
                    std::forward<decltype(aElements)>(aElements)...);
            },
            std::forward<decltype(aArray)>(aArray));
    };
    return std::apply(
        [](auto&&... aElements)
        {
            return result_t{
                std::forward<decltype(aElements)>(aElements)...};
        },
        std::tuple_cat(refs(std::forward<A1>(aArray1)),
                       refs(std::forward<A2>(aArray2)),
                       refs(std::forward<RestArrays>(aArrays))...));
''')])
R["al-friends"] = (ALLOC, [(AL, '''    friend bool operator==(const allocator& aLhs,
                           const allocator& aRhs) noexcept
    {
        return *aLhs.resource_ == *aRhs.resource_;
    }

    friend bool operator!=(const allocator& aLhs,
                           const allocator& aRhs) noexcept
    {
        return !(aLhs == aRhs);
    }
''', '''    template <typename L, typename R>
    friend bool same_resource(const allocator<L>& aLhs,
                              const allocator<R>& aRhs) noexcept;

    friend bool operator==(const allocator& aLhs,
                           const allocator& aRhs) noexcept
    {
        return same_resource(aLhs, aRhs);
    }

    friend bool operator!=(const allocator& aLhs,
                           const allocator& aRhs) noexcept
    {
        return !same_resource(aLhs, aRhs);
    }
'''), (AL, '''template <class T1, class T2>
bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
{
    return *aLhs.resource() == *aRhs.resource();
}
''', '''template <typename L, typename R>
bool same_resource(const allocator<L>& aLhs, const allocator<R>& aRhs) noexcept
{
    return *aLhs.resource() == *aRhs.resource();
}

template <class T1, class T2>
bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
{
    return same_resource(aLhs, aRhs);
}
''')])
R["ti-exchange"] = (TIMER, [(TI, '''            relocate_(data_, aOther.data_);
            aOther.callback_ = nullptr;
''', '''            const auto relocate = aOther.relocate_;
            aOther.callback_ = nullptr;
            relocate(data_, aOther.data_);
'''), (TI, '''        stored(aTimer);
        stored.~FinishCallback();
''', '''        stored(aTimer);
        std::destroy_at(std::addressof(stored));
'''), (TI, "#include <chrono>\n", "#include <chrono>\n#include <memory>\n")])
R["pi-destroy-at"] = (PIMPL, [(PI, "        get().~T();\n", "        T *const object = std::addressof(get());\n        std::destroy_at(object);\n"),
 (PI, '''        get() = std::move(aOther.get());
        return *this;
''', '''        T &source = aOther.get();
        T &target = get();
        target = std::move(source);
        return *this;
''')])
R["sr-search-pair"] = (BLOCK, [(SR, '''                apply([this](BIndex aIndex) noexcept -> bool
                      { return not in_use(aIndex); },
                      [this, &pointer, aAlignment,
                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                      {
                          const auto block_size = block_size_in_bytes(aIndex);
                          std::byte *const block_pointer =
                              block_index_to_pointer(aIndex);
                          const auto skip =
                              skip_to_align(block_pointer, aAlignment);
                          if (skip <= block_size && aSize <= block_size - skip)
                          {
                              pointer = block_pointer + skip;
                              allocate_blocks(aIndex, pointer, aSize);
                              return 0;
                          }
                          return at(aIndex).next_index();
                      });
''', '''                // best fit: the smallest region that can hold it
                std::size_t best_size = 0;
                BIndex best = 0;
                apply([this](BIndex aIndex) noexcept -> bool
                      { return not in_use(aIndex); },
                      [this, &pointer, &best, &best_size, aAlignment,
                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                      {
                          const auto block_size = block_size_in_bytes(aIndex);
                          std::byte *const block_pointer =
                              block_index_to_pointer(aIndex);
                          const auto skip =
                              skip_to_align(block_pointer, aAlignment);
                          if (skip <= block_size &&
                              aSize <= block_size - skip &&
                              (!pointer || block_size < best_size))
                          {
                              pointer = block_pointer + skip;
                              best = aIndex;
                              best_size = block_size;
                          }
                          return at(aIndex).next_index();
                      });
                if (pointer)
                {
                    allocate_blocks(best, pointer, aSize);
                }
''')])

def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or list(R)
    sh = lambda c: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.isdir(S):
        subprocess.check_call(["cp", "-a", "/repo", S])
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (S, S))
    env = dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/quiet-build")
    bad = 0
    for i in ids:
        props, edits = R[i]
        miss = None
        for f, old, new in edits:
            p = "%s/sources/include/utils/%s" % (S, f)
            s = open(p).read()
            if old not in s:
                miss = (f, old)
                break
            open(p, "w").write(s.replace(old, new))
        if miss:
            print(i, "does not apply:", miss)
            bad += 1
        else:
            res = []
            for p in props:
                r = subprocess.run(["python3", HERE + "/check.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    res.append("%s rc=%d %s" % (p, r.returncode, r.stdout[-600:]))
            print(i, "quiet" if not res else "LOUD " + "\n   ".join(res), flush=True)
            bad += bool(res)
        sh("git -C %s checkout -q -- ." % S)
    print("%d of %d loud" % (bad, len(ids)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())

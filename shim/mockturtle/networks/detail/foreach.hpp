// Stand-in for mockturtle/networks/detail/foreach.hpp (absent offline): applies fn to every element in order and stops after the
// first one for which a bool-valued fn returns false. fn takes the element, or the element and its index.
#pragma once
#include <cstdint>
#include <functional>
#include <type_traits>
#include <utility>

namespace mockturtle::detail
{
template <class Fn, class El>
bool apply_element(Fn& fn, El&& e, uint32_t index)
{
    if constexpr (std::is_invocable_v<Fn&, El, uint32_t>)
    {
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, El, uint32_t>, bool>) return fn(std::forward<El>(e), index);
        else
        {
            fn(std::forward<El>(e), index);
            return true;
        }
    }
    else
    {
        (void)index;
        if constexpr (std::is_same_v<std::invoke_result_t<Fn&, El>, bool>) return fn(std::forward<El>(e));
        else
        {
            fn(std::forward<El>(e));
            return true;
        }
    }
}
template <class Iterator, class ElementType = typename Iterator::value_type, class Fn>
Iterator foreach_element(Iterator begin, Iterator end, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t i = counter_offset;
    while (begin != end)
    {
        if (!apply_element(fn, *begin, i++)) return begin;
        ++begin;
    }
    return begin;
}
template <class Iterator, class ElementType, class Transform, class Fn>
Iterator foreach_element_transform(Iterator begin, Iterator end, Transform&& transform, Fn&& fn, uint32_t counter_offset = 0)
{
    uint32_t i = counter_offset;
    while (begin != end)
    {
        if (!apply_element(fn, transform(*begin), i++)) return begin;
        ++begin;
    }
    return begin;
}
}  // namespace mockturtle::detail

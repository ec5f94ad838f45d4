// Stand-in for mockturtle/traits.hpp (absent offline): the type aliases and the network concept fiction's traits refer to.
#pragma once
#include <type_traits>
#include <utility>

namespace mockturtle
{
template <typename Ntk>
using signal = typename Ntk::signal;
template <typename Ntk>
using node = typename Ntk::node;
template <class Ntk, class = void>
struct is_network_type : std::false_type
{};
template <class Ntk>
struct is_network_type<Ntk, std::void_t<typename Ntk::signal, typename Ntk::node, typename Ntk::storage>> : std::true_type
{};
template <class Ntk>
inline constexpr bool is_network_type_v = is_network_type<Ntk>::value;

#define FV_HAS(name, arg)                                                                                                      \
    template <class Ntk, class = void>                                                                                         \
    struct has_##name : std::false_type                                                                                        \
    {};                                                                                                                        \
    template <class Ntk>                                                                                                       \
    struct has_##name<Ntk, std::void_t<decltype(std::declval<Ntk>().name(std::declval<arg<Ntk>>()))>> : std::true_type        \
    {};                                                                                                                        \
    template <class Ntk>                                                                                                       \
    inline constexpr bool has_##name##_v = has_##name<Ntk>::value;
FV_HAS(is_and, node)
FV_HAS(is_or, node)
FV_HAS(is_maj, node)
FV_HAS(is_xor, node)
FV_HAS(is_pi, node)
#undef FV_HAS
}  // namespace mockturtle

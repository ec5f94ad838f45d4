// shared ghost helpers for the coordinate contracts
#pragma once
#include "fv.hpp"
#include <fiction/layouts/coordinates.hpp>
#include <string>

namespace cs
{
using ucoord = fiction::offset::ucoord_t;
using cube   = fiction::cube::coord_t;
using sqd    = fiction::siqad::coord_t;

constexpr uint32_t U31 = 0x7fffffffu;

inline std::string key(const char* n, const char* s)
{
    return std::string(n) + s;
}
template <class C>
struct gen;
template <>
struct gen<ucoord>
{
    static ucoord live(const char* nx, const char* ny, const char* nz)
    {
        const auto x = fv::any_in<uint32_t>(nx, 0, U31), y = fv::any_in<uint32_t>(ny, 0, U31);
        const auto z = fv::any_in<uint32_t>(nz, 0, 1);
        return ucoord{x, y, z};
    }
    // 0 <= every component, small enough that a successor exists in the type
    static ucoord box(const char* nx, const char* ny, const char* nz)
    {
        const auto x = fv::any_in<uint32_t>(nx, 0, U31 - 1), y = fv::any_in<uint32_t>(ny, 0, U31 - 1);
        const auto z = fv::any_in<uint32_t>(nz, 0, 1);
        return ucoord{x, y, z};
    }
};
template <>
struct gen<cube>
{
    static cube live(const char* nx, const char* ny, const char* nz)
    {
        return cube{fv::any<int32_t>(nx), fv::any<int32_t>(ny), fv::any<int32_t>(nz)};
    }
    static cube box(const char* nx, const char* ny, const char* nz)
    {
        const auto x = fv::any_in<int32_t>(nx, 0, 0x7ffffffe), y = fv::any_in<int32_t>(ny, 0, 0x7ffffffe),
                   z = fv::any_in<int32_t>(nz, 0, 0x7ffffffe);
        return cube{x, y, z};
    }
};
template <>
struct gen<sqd>
{
    static sqd live(const char* nx, const char* ny, const char* nz)
    {
        const auto z = fv::any_in<uint32_t>(nz, 0, 1);
        return sqd{fv::any<int32_t>(nx), fv::any<int32_t>(ny), z};
    }
    static sqd box(const char* nx, const char* ny, const char* nz)
    {
        const auto x = fv::any_in<int32_t>(nx, 0, 0x7ffffffe), y = fv::any_in<int32_t>(ny, 0, 0x7ffffffe);
        const auto z = fv::any_in<uint32_t>(nz, 0, 1);
        return sqd{x, y, z};
    }
};
#define LIVE(C, n) cs::gen<C>::live(#n ".x", #n ".y", #n ".z")
#define BOX(C, n)  cs::gen<C>::box(#n ".x", #n ".y", #n ".z")

// componentwise mathematical views
template <class C>
inline int64_t X(const C& c)
{
    return static_cast<int64_t>(c.x);
}
template <class C>
inline int64_t Y(const C& c)
{
    return static_cast<int64_t>(c.y);
}
template <class C>
inline int64_t Z(const C& c)
{
    return static_cast<int64_t>(c.z);
}
// the documented lexicographic order: (z,y,x) for offset/cube, (y,z,x) for SiQAD
template <class C>
inline bool spec_less(const C& a, const C& b)
{
    if constexpr (std::is_same_v<C, sqd>)
    {
        if (Y(a) != Y(b)) return Y(a) < Y(b);
        if (Z(a) != Z(b)) return Z(a) < Z(b);
        return X(a) < X(b);
    }
    else
    {
        if (Z(a) != Z(b)) return Z(a) < Z(b);
        if (Y(a) != Y(b)) return Y(a) < Y(b);
        return X(a) < X(b);
    }
}
template <class C>
inline bool same(const C& a, const C& b)
{
    return a.is_dead() == b.is_dead() && X(a) == X(b) && Y(a) == Y(b) && Z(a) == Z(b);
}
template <class C>
inline bool in_box(const C& c, const C& ar)
{
    return !c.is_dead() && X(c) >= 0 && Y(c) >= 0 && Z(c) >= 0 && X(c) <= X(ar) && Y(c) <= Y(ar) && Z(c) <= Z(ar);
}
}  // namespace cs

// Charge distribution surfaces for the contracts of C24
#pragma once
#include "hashpolicy.hpp"
#include "fv.hpp"
#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/cell_level_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <utility>
#include <vector>
using namespace fiction;
using cs      = sidb_charge_state;
using qube    = cube::coord_t;
using layout  = cell_level_layout<sidb_technology, clocked_layout<cartesian_layout<qube>>>;
using surface = charge_distribution_surface<layout>;
static constexpr qube between{2, 0, 0};
[[maybe_unused]] static uint64_t power(uint64_t b, uint64_t e)
{
    uint64_t r = 1;
    for (uint64_t i = 0; i < e; ++i) r *= b;
    return r;
}
// a layout of N sites, and a surface without electrostatics on it
[[maybe_unused]] static surface sites(int n, uint8_t base, cds_configuration conf = cds_configuration::CHARGE_LOCATION_ONLY)
{
    layout l{};
    for (int i = n; i > 0; --i) l.assign_cell_type({i == 1 ? 1 : 2 * i + 1 - (i > 3 ? 1 : 0), 0, 0}, sidb_technology::cell_type::NORMAL);
    sidb_simulation_parameters p{};
    p.base = base;
#ifndef FV_SYMBOLIC
    conf = cds_configuration::CHARGE_LOCATION_AND_ELECTROSTATIC;
#endif
    surface s{l, p, cs::NEGATIVE, conf};
    s.assign_base_number(base);
    return s;
}
[[maybe_unused]] static cs any_charge(const char* name, int states)
{
    const auto g = fv::any_in<int8_t>(name, -1, static_cast<int8_t>(states - 2));
    ASSUME(g >= -1 && g <= states - 2);
    return static_cast<cs>(g);
}
// every site has any of the first `states` charges
[[maybe_unused]] static void any_charges(surface& s, int states = 3)
{
    for (uint64_t i = 0; i < s.strg->cell_charge.size(); ++i)
    {
        const char name[3]{static_cast<char>('a' + i / 26), static_cast<char>('a' + i % 26), 0};
        s.strg->cell_charge[i] = any_charge(name, states);
    }
}
static int sign_of(cs c) { return c == cs::NEGATIVE ? -1 : c == cs::POSITIVE ? 1 : 0; }
// the number whose digits are the charges of all sites but one, the first site being the most significant
[[maybe_unused]] static uint64_t encodes(const surface& s, uint64_t base, int skip)
{
    uint64_t r = 0;
    for (uint64_t i = 0; i < s.strg->cell_charge.size(); ++i)
        if (static_cast<int>(i) != skip) r = r * base + static_cast<uint64_t>(sign_of(s.strg->cell_charge[i]) + 1);
    return r;
}
[[maybe_unused]] static bool digits_of(const surface& s, int base, int skip)
{
    bool ok = true;
    for (uint64_t i = 0; i < s.strg->cell_charge.size(); ++i)
        if (static_cast<int>(i) != skip) ok = ok && sign_of(s.strg->cell_charge[i]) <= base - 2 && s.strg->cell_charge[i] != cs::NONE;
    return ok;
}

// C24 charge distributions: the charge index and the charge configuration encode each other
#include "charges.hpp"
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: bounded = 1 to 5, 8, 40, and 63 sites; all charge configurations and indices for each
//FV: replace = charge_distribution_surface<.*>::update_local_internal_potential\( -> fvspec_potentials
//FV: replace = charge_distribution_surface<.*>::validity_check\(\)$ -> fvspec_validity
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C02
//FV: trust = mockturtle::detail::foreach_element_transform is replaced by a stand-in with its documented meaning
//FV: trust = update_local_internal_potential and validity_check change neither charges nor indices: C24_energy proves that, callers are checked against it
// they belong to C24_energy
#ifdef FV_SYMBOLIC
FV_SPEC(void, potentials)(surface& s, charge_distribution_history) { s.strg->local_int_pot = s.strg->local_pot_caused_by_defects; }
FV_SPEC(void, validity)(surface&) {}
#endif

template <int N, int Base>
static void index_to_configuration()
{
    surface    s   = sites(N, Base);
    const auto top = power(Base, N) - 1;
    CHECKN("the largest index", s.get_max_charge_index() == top);
    any_charges(s);  // whatever came before
    const auto ix = fv::any_in<uint64_t>("index", 0, top);
    ASSUME(ix <= top);
    s.assign_charge_index(ix);
    CHECKN("the configuration has the digits of the index", encodes(s, Base, -1) == ix);
    CHECKN("states are those of the base", digits_of(s, Base, -1));
    CHECKN("the index is kept", s.get_charge_index_and_base() == std::pair<uint64_t, uint8_t>(ix, Base));
    s.charge_distribution_to_index();
    CHECKN("the configuration leads back to the index", s.get_charge_index_and_base() == std::pair<uint64_t, uint8_t>(ix, Base));
}
template <int N, int Base>
static void configuration_to_index()
{
    surface s = sites(N, Base);
    any_charges(s, Base);
    s.charge_distribution_to_index();
    CHECKN("the index has the charges as digits", s.get_charge_index_and_base() == std::pair<uint64_t, uint8_t>(encodes(s, Base, -1), Base));
    s.assign_charge_index(0, charge_distribution_mode::KEEP_CHARGE_DISTRIBUTION);
    s.charge_distribution_to_index_general();
    CHECKN("the index has the charges as digits, generally", s.get_charge_index_and_base() == std::pair<uint64_t, uint8_t>(encodes(s, Base, -1), Base));
    CHECKN("the largest index bounds it", s.get_max_charge_index() == power(Base, N) - 1);
}
template <int N, int Base, int D>
static void with_dependent()
{
    surface s = sites(N, Base);
    s.assign_dependent_cell(s.index_to_cell(D));
    const auto top = power(Base, N - 1) - 1;
    CHECKN("the largest index leaves the dependent site out", s.get_max_charge_index() == top);
    any_charges(s);
    const auto ix = fv::any_in<uint64_t>("index", 1, top);
    ASSUME(ix >= 1 && ix <= top);
    s.assign_charge_index(ix);
    CHECKN("the other sites have the digits of the index", encodes(s, Base, D) == ix && digits_of(s, Base, D));
    s.charge_distribution_to_index();
    CHECKN("the configuration leads back to the index", s.get_charge_index_and_base().first == ix);
    s.assign_base_number(5 - Base);
    CHECKN("another base", s.get_max_charge_index() == power(5 - Base, N - 1) - 1 && s.get_charge_index_and_base().second == 5 - Base);
}
template <int N, int Base>
static void successor()
{
    surface    s   = sites(N, Base);
    const auto top = power(Base, N) - 1;
    any_charges(s, Base);
    s.charge_distribution_to_index();
    const auto ix = s.get_charge_index_and_base().first;
    ASSUME(ix < top);
    s.increase_charge_index_by_one(dependent_cell_mode::FIXED, energy_calculation::KEEP_OLD_ENERGY_VALUE);
    CHECKN("the index grows by one", s.get_charge_index_and_base().first == ix + 1);
    CHECKN("the configuration follows", encodes(s, Base, -1) == ix + 1 && digits_of(s, Base, -1));
}
template <int N, int Base>
static void last()
{
    surface s = sites(N, Base);
    s.assign_charge_index(s.get_max_charge_index());
    const auto before = s.get_all_sidb_charges();
    s.increase_charge_index_by_one(dependent_cell_mode::FIXED, energy_calculation::KEEP_OLD_ENERGY_VALUE);
    bool same = true;
    for (int i = 0; i < N; ++i) same = same && s.get_charge_state_by_index(i) == before[i] && before[i] == (Base == 2 ? cs::NEUTRAL : cs::POSITIVE);
    CHECKN("nothing comes after the last index", same && s.get_charge_index_and_base().first == power(Base, N) - 1);
}
FV_PROOF(decode_1_2) { index_to_configuration<1, 2>(); }
FV_PROOF(decode_1_3) { index_to_configuration<1, 3>(); }
FV_PROOF(decode_2_3) { index_to_configuration<2, 3>(); }
FV_PROOF(decode_3_2) { index_to_configuration<3, 2>(); }
FV_PROOF(decode_3_3) { index_to_configuration<3, 3>(); }
FV_PROOF(decode_5_2) { index_to_configuration<5, 2>(); }
FV_PROOF(decode_4_3) { index_to_configuration<4, 3>(); }
FV_PROOF(encode_1) { configuration_to_index<1, 3>(); }
FV_PROOF(encode_3) { configuration_to_index<3, 3>(); }
FV_PROOF(encode_3_2) { configuration_to_index<3, 2>(); }
FV_PROOF(encode_8) { configuration_to_index<8, 3>(); }
FV_PROOF(encode_40) { configuration_to_index<40, 3>(); }
FV_PROOF(encode_63) { configuration_to_index<63, 2>(); }
FV_PROOF(dependent_2_0) { with_dependent<2, 3, 0>(); }
FV_PROOF(dependent_2_1) { with_dependent<2, 2, 1>(); }
FV_PROOF(dependent_4_0) { with_dependent<4, 2, 0>(); }
FV_PROOF(dependent_4_1) { with_dependent<4, 3, 1>(); }
FV_PROOF(dependent_4_3) { with_dependent<4, 3, 3>(); }
FV_PROOF(next_3_2) { successor<3, 2>(); }
FV_PROOF(next_3_3) { successor<3, 3>(); }
FV_PROOF(last_3) { last<3, 3>(); }
FV_PROOF(last_40) { last<40, 3>(); }
FV_PROOF(last_63) { last<63, 2>(); }
FV_PROOF(single_changes)
{
    surface s = sites(3, 3);
    any_charges(s, 3);
    const auto before = s.get_all_sidb_charges();
    const auto c      = any_charge("new", 3);
    s.charge_distribution_to_index();
    const auto ix = s.get_charge_index_and_base().first;
    s.assign_charge_state(s.index_to_cell(1), c, charge_index_mode::KEEP_CHARGE_INDEX);
    CHECKN("the charge is assigned", s.get_charge_state_by_index(1) == c && s.get_charge_state(s.index_to_cell(1)) == c);
    CHECKN("no other charge is", s.get_charge_state_by_index(0) == before[0] && s.get_charge_state_by_index(2) == before[2]);
    CHECKN("the index is kept on demand", s.get_charge_index_and_base().first == ix);
    s.assign_charge_state(s.index_to_cell(1), c);
    CHECKN("the index follows", s.get_charge_index_and_base().first == encodes(s, 3, -1));
    s.assign_charge_state_by_index(1, before[1]);
    CHECKN("the index follows by index", s.get_charge_index_and_base().first == ix);
    s.assign_charge_state({40, 0, 0}, c);
    CHECKN("a cell that is not there", s.get_charge_index_and_base().first == ix && s.get_charge_state({40, 0, 0}) == cs::NONE && s.get_charge_state_by_index(3) == cs::NONE);
    s.assign_all_charge_states(c);
    CHECKN("all charges", s.get_charge_state_by_index(0) == c && s.get_charge_state_by_index(1) == c && s.get_charge_state_by_index(2) == c && s.get_charge_index_and_base().first == encodes(s, 3, -1));
}
FV_PROOF(counting)
{
    surface s = sites(3, 3);
    any_charges(s, 3);
    uint64_t n = 0, z = 0, p = 0;
    for (int i = 0; i < 3; ++i)
    {
        const auto c = s.get_charge_state_by_index(i);
        n += c == cs::NEGATIVE, z += c == cs::NEUTRAL, p += c == cs::POSITIVE;
    }
    CHECKN("sites of each charge are counted", s.num_negative_sidbs() == n && s.num_neutral_sidbs() == z && s.num_positive_sidbs() == p);
    CHECKN("a charge exists if a site has it", s.charge_exists(cs::NEGATIVE) == (n > 0) && s.charge_exists(cs::NEUTRAL) == (z > 0) && s.charge_exists(cs::POSITIVE) == (p > 0) && !s.charge_exists(cs::NONE));
}
FV_PROOF(order)
{
    surface s = sites(4, 2);
    bool    ok = true;
    for (int i = 0; i < 4; ++i)
    {
        ok = ok && s.cell_to_index(s.index_to_cell(i)) == i && (i == 0 || s.index_to_cell(i - 1) < s.index_to_cell(i)) && !s.is_empty_cell(s.index_to_cell(i));
    }
    CHECKN("sites are numbered in ascending order", ok && s.get_sidb_order().size() == 4);
    const auto x = fv::any_in<int>("x", -2, 40);
    const qube c{x, 0, 0};
    CHECKN("every site has its index, other cells have none", (s.cell_to_index(c) == -1) == s.is_empty_cell(c));
}
template <int D>
static void copies()
{
    surface s = sites(3, 3);
    any_charges(s, 3);
    s.charge_distribution_to_index();
    const auto before = s.get_all_sidb_charges();
    const auto ix     = s.get_charge_index_and_base();
    surface    t      = D == 0 ? surface{s} : D == 1 ? s.clone() : sites(2, 2);
    if (D == 2) t = s;
    const auto charges = t.get_all_sidb_charges();
    CHECKN("a copy has the same charges and index", charges.size() == 3 && charges[0] == before[0] && charges[1] == before[1] && charges[2] == before[2] && t.get_charge_index_and_base() == ix);
    CHECKN("a copy has the same sites", t.num_cells() == 3 && !t.is_empty_cell(s.index_to_cell(2)) && t.index_to_cell(2) == s.index_to_cell(2));
    const auto c = any_charge("new", 3);
    t.assign_charge_state_by_index(1, c);
    CHECKN("the copy's index is that of its charges", t.get_charge_index_and_base().first == encodes(t, 3, -1));
    CHECKN("the original is left alone", s.get_charge_state_by_index(1) == before[1] && s.get_charge_index_and_base() == ix);
}
FV_PROOF(copy) { copies<0>(); }
FV_PROOF(clone) { copies<1>(); }
FV_PROOF(assignment) { copies<2>(); }
FV_PROOF(adding)
{
    surface    s = sites(3, 3);
    any_charges(s, 3);
    const auto before = s.get_all_sidb_charges();
    const auto c      = any_charge("new", 3);
    s.add_sidb(between, c);
    const auto after = s.get_all_sidb_charges();
    CHECKN("sites stay sorted with their charges", after.size() == 4 && s.cell_to_index(between) == 1 && after[0] == before[0] && after[1] == c && after[2] == before[1] && after[3] == before[2]);
}
// a split into sites with two and with three states, as used by the exact simulation
template <int T>
static void split()
{
    surface s = sites(4, 3);
    s.set_sidb_simulation_engine(sidb_simulation_engine::QUICKEXACT);
    s.assign_dependent_cell(s.index_to_cell(1));
    // sites 0 and 3 of 0, 2, 3 have three states (T == 2), or only site 2
    if (T == 2) s.strg->three_state_cells = {s.index_to_cell(0), s.index_to_cell(3)}, s.strg->sidb_order_without_three_state_cells = {s.index_to_cell(2)};
    else s.strg->three_state_cells = {s.index_to_cell(2)}, s.strg->sidb_order_without_three_state_cells = {s.index_to_cell(0), s.index_to_cell(3)};
    s.assign_base_number_to_three();
    CHECKN("the largest indices of both parts", s.get_max_charge_index() == power(2, 3 - T) - 1 && s.get_max_charge_index_sub_layout() == power(3, T) - 1);
    any_charges(s, 2);
    const auto dep  = s.get_charge_state_by_index(1);
    const auto two  = fv::any_in<uint64_t>("two", 0, 3), three = fv::any_in<uint64_t>("three", 0, 8);
    ASSUME(two <= s.get_max_charge_index() && three < s.get_max_charge_index_sub_layout());
    // the configuration of these indices
    const auto d2 = [&](int i) { return static_cast<cs>(static_cast<int>((two >> i) & 1) - 1); };
    const auto d3 = [&](int i) { return static_cast<cs>(static_cast<int>(i == 0 ? three % 3 : three / 3) - 1); };
    if (T == 2) s.strg->cell_charge[0] = d3(1), s.strg->cell_charge[3] = d3(0), s.strg->cell_charge[2] = d2(0);
    else s.strg->cell_charge[2] = d3(0), s.strg->cell_charge[0] = d2(1), s.strg->cell_charge[3] = d2(0);
    s.strg->charge_index_and_base.first = two;
    s.strg->charge_index_sublayout      = three;
    const auto before = s.get_all_sidb_charges();
    s.increase_charge_index_of_sub_layout_by_one(dependent_cell_mode::FIXED, energy_calculation::KEEP_OLD_ENERGY_VALUE, charge_distribution_history::CONSIDER);
    const uint64_t n = three + 1;
    const auto     e = [&](int i) { return static_cast<cs>(static_cast<int>(i == 0 ? n % 3 : n / 3) - 1); };
    if (T == 2) CHECKN("the next configuration", s.get_charge_state_by_index(0) == e(1) && s.get_charge_state_by_index(3) == e(0) && s.get_charge_state_by_index(2) == d2(0));
    else CHECKN("the next configuration", s.get_charge_state_by_index(2) == e(0) && s.get_charge_state_by_index(0) == d2(1) && s.get_charge_state_by_index(3) == d2(0));
    CHECKN("the dependent site is left alone", s.get_charge_state_by_index(1) == dep);
    CHECKN("the indices", s.get_charge_index_of_sub_layout() == n && s.get_charge_index_and_base().first == two);
    // the history names each site whose charge has changed, with its former charge
    bool complete = true, sound = true;
    for (uint64_t i = 0; i < 4; ++i)
    {
        bool named = false;
        for (const auto& [cell, old] : s.strg->cell_history)
            if (cell == i) named = true, sound = sound && old == charge_state_to_sign(before[i]);
        complete = complete && named == (before[i] != s.get_charge_state_by_index(i));
    }
    CHECKN("the history names exactly the changes", complete);
    CHECKN("the history has the former charges", sound);
    s.charge_distribution_to_index();
    CHECKN("the configuration leads back to the index of the three-state part", s.get_charge_index_of_sub_layout() == n);
}
FV_PROOF(split_1) { split<1>(); }
FV_PROOF(split_2) { split<2>(); }
// Gray codes: bit i is the charge of site i, the dependent site left out
template <int D>
static void gray()
{
    surface s = sites(4, 2);
    s.assign_dependent_cell(s.index_to_cell(D));
    const auto old = fv::any_in<uint64_t>("old", 0, 7), bit = fv::any_in<uint64_t>("bit", 0, 3);
    ASSUME(old < 8 && bit <= 3);
    const auto now  = bit == 3 ? old : old ^ (1ull << bit);
    const auto site = [](int i) { return i < D ? i : i + 1; };
    for (int i = 0; i < 3; ++i) s.strg->cell_charge[site(i)] = ((old >> i) & 1) != 0 ? cs::NEGATIVE : cs::NEUTRAL;
    const auto dep = any_charge("dependent", 3);
    s.strg->cell_charge[D] = dep;
    s.assign_charge_index_by_gray_code(now, old, dependent_cell_mode::FIXED, energy_calculation::KEEP_OLD_ENERGY_VALUE, charge_distribution_history::CONSIDER);
    bool ok = s.get_charge_state_by_index(D) == dep;
    for (int i = 0; i < 3; ++i) ok = ok && s.get_charge_state_by_index(site(i)) == (((now >> i) & 1) != 0 ? cs::NEGATIVE : cs::NEUTRAL);
    CHECKN("charges are the bits of the code", ok && s.get_charge_index_and_base().first == now);
    bool history = true;
    if (bit == 3) history = s.strg->cell_history_gray_code.first == -1;
    else
        for (int i = 0; i < 3; ++i)
            if (bit == static_cast<uint64_t>(i)) history = s.strg->cell_history_gray_code == std::pair<int64_t, int8_t>(site(i), ((old >> i) & 1) != 0 ? -1 : 0);
    CHECKN("the history names the changed site and its former charge", history);
}
FV_PROOF(gray_0) { gray<0>(); }
FV_PROOF(gray_2) { gray<2>(); }
FV_PROOF(gray_3) { gray<3>(); }

// C24 charge distributions: potentials, energy, and physical validity follow from the charges
#include "charges.hpp"
//FV: shim = .
//FV: pipe = inline
//FV: cxx = -fno-access-control
//FV: bounded = up to three sites; all charges and all potentials that are integers within 50 V (history_* and dependent_follow_*: one matrix of potentials)
//FV: trust = phmap's hash maps are replaced by a stand-in with their mathematical meaning; that the keys' hashes respect equality is C02
//FV: trust = mockturtle::detail::foreach_element_transform is replaced by a stand-in with its documented meaning
using hist = charge_distribution_history;
// small integers, so that every sum is exact
static double any_potential(const char* what, int i, int j)
{
    const char name[5]{what[0], static_cast<char>('0' + i), static_cast<char>('0' + j), 0, 0};
    const auto v = fv::any_in<int8_t>(name, -50, 50);
    ASSUME(v >= -50 && v <= 50);
    return static_cast<double>(v);
}
// N sites with any charges, any symmetric potentials between them, any potentials of defects; the inner potentials are arbitrary
template <int N, int Base = 3>
static surface charged()
{
    surface s  = sites(N, Base);
    auto&   st = *s.strg;
    any_charges(s, Base);
    st.pot_mat = std::vector<std::vector<double>>(N, std::vector<double>(N, 0.0));
    st.local_pot_caused_by_defects = st.local_int_pot = st.local_ext_pot = std::vector<double>(N, 0.0);
    for (int i = 0; i < N; ++i)
    {
        for (int j = 0; j < i; ++j) st.pot_mat[i][j] = st.pot_mat[j][i] = any_potential("v", i, j);
        st.local_pot_caused_by_defects[i] = any_potential("d", i, 0);
        st.local_int_pot[i]               = any_potential("p", i, 0);
        st.local_ext_pot[i]               = any_potential("e", i, 0);
    }
    return s;
}
static double potential_at(const surface& s, int i)
{
    double r = 0.0;
    for (uint64_t j = 0; j < s.strg->cell_charge.size(); ++j) r += s.strg->pot_mat[i][j] * static_cast<double>(charge_state_to_sign(s.strg->cell_charge[j]));
    return s.strg->local_pot_caused_by_defects[i] + r;
}
static bool follow(const surface& s, int skip = -1)
{
    bool ok = true;
    for (int i = 0; i < static_cast<int>(s.strg->cell_charge.size()); ++i)
        if (i != skip) ok = ok && s.strg->local_int_pot[i] == potential_at(s, i);
    return ok;
}
template <int N>
static void potentials()
{
    surface    s      = charged<N>();
    const auto before = s.get_all_sidb_charges();
    const auto energy = s.strg->system_energy;
    s.update_local_internal_potential();
    CHECKN("every site feels the defects and the charges of all sites", follow(s));
    CHECKN("charges and energy are left alone", s.strg->cell_charge == before && s.strg->system_energy == energy);
    CHECKN("reported by index and by cell", *s.get_local_internal_potential_by_index(1) == s.strg->local_int_pot[1] && *s.get_local_internal_potential(s.index_to_cell(1)) == s.strg->local_int_pot[1] && *s.get_local_potential_by_index(1) == s.strg->local_int_pot[1] + s.strg->local_ext_pot[1] && !s.get_local_potential_by_index(N) && !s.get_local_internal_potential({40, 0, 0}));
}
FV_PROOF(potentials_2) { potentials<2>(); }
FV_PROOF(potentials_3) { potentials<3>(); }
// the update by history, for all charges before and after; fixed potentials
static void fixed_potentials(surface& s)
{
    auto& st   = *s.strg;
    st.pot_mat = {{0.0, 1.0, 4.0}, {1.0, 0.0, 16.0}, {4.0, 16.0, 0.0}};
    st.local_pot_caused_by_defects = {256.0, 512.0, 1024.0};
    st.local_int_pot = st.local_ext_pot = {0.0, 0.0, 0.0};
}
static void assign(surface& s, int code, int base)
{
    for (int i = 0; i < 3; ++i, code /= base) s.strg->cell_charge[i] = static_cast<cs>(code % base - 1);
}
FV_PROOF(history_base_2)
{
    surface s = sites(3, 2);
    fixed_potentials(s);
    bool ok = true;
    for (int before = 0; before < 8; ++before)
        for (int bit = -1; bit < 3; ++bit)
        {
            assign(s, before, 2);
            s.update_local_internal_potential();
            s.strg->cell_history_gray_code = {bit, bit < 0 ? 0 : charge_state_to_sign(s.strg->cell_charge[bit])};
            assign(s, bit < 0 ? before : before ^ (1 << bit), 2);
            s.update_local_internal_potential(hist::CONSIDER);
            ok = ok && follow(s);
        }
    CHECKN("the update by history is the recomputation", ok);
}
FV_PROOF(history_base_3)
{
    surface s = sites(3, 3);
    fixed_potentials(s);
    bool ok = true;
    for (int before = 0; before < 27; ++before)
        for (int after = 0; after < 27; ++after)
        {
            assign(s, before, 3);
            s.update_local_internal_potential();
            const auto old = s.get_all_sidb_charges();
            assign(s, after, 3);
            s.strg->cell_history.clear();
            for (uint64_t i = 0; i < 3; ++i)
                if (old[i] != s.strg->cell_charge[i]) s.strg->cell_history.emplace_back(i, charge_state_to_sign(old[i]));
            s.update_local_internal_potential(hist::CONSIDER);
            ok = ok && follow(s);
        }
    CHECKN("the update by history is the recomputation", ok);
}
static double energy_of(const surface& s, bool external)
{
    double r = 0.0, x = 0.0;
    for (uint64_t i = 0; i < s.strg->cell_charge.size(); ++i)
    {
        const auto q = static_cast<double>(charge_state_to_sign(s.strg->cell_charge[i]));
        x += s.strg->local_ext_pot[i] * q;
        r += s.strg->local_int_pot[i] * q;
    }
    return external ? x + 0.5 * r : 0.5 * r;
}
FV_PROOF(energy)
{
    surface    s      = charged<3>();
    const auto before = s.get_all_sidb_charges();
    const auto pots   = s.strg->local_int_pot;
    s.strg->local_external_potential_map[s.index_to_cell(1)] = any_potential("x", 1, 0);
    s.strg->engine = sidb_simulation_engine::QUICKEXACT;
    s.recompute_electrostatic_potential_energy();
    CHECKN("external potentials are those applied", s.strg->local_ext_pot[0] == 0.0 && s.strg->local_ext_pot[1] == s.strg->local_external_potential_map[s.index_to_cell(1)] && s.strg->local_ext_pot[2] == 0.0);
    CHECKN("half of each charge's inner energy and all of its external energy", s.get_electrostatic_potential_energy() == energy_of(s, true));
    CHECKN("charges and potentials are left alone", s.strg->cell_charge == before && s.strg->local_int_pot == pots);
}
FV_PROOF(energy_quicksim)
{
    surface s = charged<3>();
    s.strg->engine = sidb_simulation_engine::QUICKSIM;
    s.recompute_electrostatic_potential_energy();
    CHECKN("half of each charge's inner energy", s.get_electrostatic_potential_energy() == energy_of(s, false));
}
// thresholds: mu- and mu+ shifted by the external potential, with the error margin
FV_PROOF(thresholds)
{
    surface s = charged<2>();
    s.strg->simulation_parameters.mu_minus = -0.25;
    s.determine_effective_charge_transition_thresholds();
    const auto mu = s.strg->simulation_parameters.mu_minus, mup = s.strg->simulation_parameters.mu_plus();
    bool       ok = true;
    for (int i = 0; i < 2; ++i)
    {
        const auto e = s.strg->local_ext_pot[i];
        ok = ok && s.get_effective_charge_transition_thresholds(i) == std::array<double, 4>{e - mu + constants::ERROR_MARGIN, e - mup - constants::ERROR_MARGIN, e - mu - constants::ERROR_MARGIN, e - mup + constants::ERROR_MARGIN};
    }
    CHECKN("transition levels, shifted by the external potential", ok);
}
static bool populated(const surface& s)
{
    bool ok = true;
    for (uint64_t i = 0; i < s.strg->cell_charge.size(); ++i)
    {
        const auto  v = -s.strg->local_int_pot[i];
        const auto& b = s.strg->charge_transition_threshold_bounds[i];
        const auto  c = s.strg->cell_charge[i];
        ok = ok && (c == cs::NEGATIVE ? v < b[0] : c == cs::POSITIVE ? v > b[1] : v > b[2] && v < b[3]);
    }
    return ok;
}
// moving an electron from a site to one with fewer electrons never gains energy
static bool stable(const surface& s)
{
    const auto& st = *s.strg;
    bool        ok = true;
    for (uint64_t i = 0; i < st.cell_charge.size(); ++i)
        for (uint64_t j = 0; j < st.cell_charge.size(); ++j)
            if (i != j && sign_of(st.cell_charge[i]) < sign_of(st.cell_charge[j]))
                ok = ok && !(st.local_ext_pot[i] - st.local_ext_pot[j] + (0.5 * (st.local_int_pot[i] - st.local_int_pot[j] - st.pot_mat[i][j])) < -constants::ERROR_MARGIN);
    return ok;
}
template <int N>
static void validity()
{
    surface s = charged<N>();
    s.strg->charge_transition_threshold_bounds.resize(N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < 4; ++j) s.strg->charge_transition_threshold_bounds[i][j] = any_potential("t", i, j);
    s.strg->validity = fv::any_in<uint8_t>("was", 0, 1) != 0;
    const auto before = s.get_all_sidb_charges();
    s.validity_check();
    CHECKN("valid if and only if every site may have its charge and no electron gains by moving", s.is_physically_valid() == (populated(s) && stable(s)));
    CHECKN("configuration stability", s.is_configuration_stable() == stable(s));
    CHECKN("charges are left alone", s.strg->cell_charge == before);
}
FV_PROOF(validity_1) { validity<1>(); }
FV_PROOF(validity_2) { validity<2>(); }
FV_PROOF(validity_3) { validity<3>(); }
// the dependent site takes the charge its potential asks for; the others' potentials follow
template <int Base>
static void dependent()
{
    surface s = charged<3, Base>();
    s.strg->charge_index_and_base.second = Base;
    s.strg->charge_transition_threshold_bounds.resize(3);
    for (int j = 0; j < 4; ++j) s.strg->charge_transition_threshold_bounds[1][j] = any_potential("t", 1, j);
    s.strg->dependent_cell       = s.index_to_cell(1);
    s.strg->dependent_cell_index = 1;
    s.update_local_internal_potential();
    const auto before = s.get_all_sidb_charges();
    const auto v      = -s.strg->local_int_pot[1];
    const auto b      = s.strg->charge_transition_threshold_bounds[1];
    s.update_charge_state_of_dependent_cell();
    const auto c = s.get_charge_state_by_index(1);
    CHECKN("its charge is the one its potential asks for", c == (v < b[0] ? cs::NEGATIVE : v > b[1] ? Base == 3 ? cs::POSITIVE : before[1] : cs::NEUTRAL));
    CHECKN("its potential does not depend on it", -s.strg->local_int_pot[1] == v);
    CHECKN("the other charges are left alone", s.get_charge_state_by_index(0) == before[0] && s.get_charge_state_by_index(2) == before[2]);
}
// ... for all charges; fixed potentials
template <int Base>
static void dependent_follow()
{
    surface s = sites(3, Base);
    fixed_potentials(s);
    s.strg->charge_index_and_base.second = Base;
    s.strg->dependent_cell       = s.index_to_cell(1);
    s.strg->dependent_cell_index = 1;
    bool ok = true, asked = true;
    for (int before = 0; before < (Base == 2 ? 8 : 27); ++before)
        for (int want = -1; want < Base - 1; ++want)
        {
            assign(s, before, Base);
            s.update_local_internal_potential();
            const auto v = -s.strg->local_int_pot[1];
            const auto lower = want < 0 ? v + 1.0 : v - 1.0, upper = want > 0 ? v - 1.0 : v + 1.0;
            s.strg->charge_transition_threshold_bounds.assign(3, {lower, upper, lower, upper});
            s.update_charge_state_of_dependent_cell();
            asked = asked && sign_of(s.get_charge_state_by_index(1)) == want;
            ok    = ok && follow(s);
        }
    CHECKN("its charge is the one asked for", asked);
    CHECKN("the potentials follow", ok);
}
FV_PROOF(dependent_follow_2) { dependent_follow<2>(); }
FV_PROOF(dependent_follow_3) { dependent_follow<3>(); }
FV_PROOF(dependent_base_2) { dependent<2>(); }
FV_PROOF(dependent_base_3) { dependent<3>(); }
static bool same(double x, double y) { return x == y || (x != x && y != y); }
FV_PROOF(matrices)
{
    surface s = sites(3, 3);
    s.initialize_nm_distance_matrix();
    s.initialize_potential_matrix();
    bool ok = true, dist = true, by_cell = true, sign = true;
    for (uint64_t i = 0; i < 3; ++i)
        for (uint64_t j = 0; j < 3; ++j)
        {
            const auto a = s.index_to_cell(i), b = s.index_to_cell(j);
            const auto d = s.get_nm_distance_by_indices(i, j), v = s.get_chargeless_potential_by_indices(i, j);
            dist = dist && same(d, sidb_nm_distance<surface>(s, a, b)) && same(s.get_nm_distance_between_sidbs(a, b), d);
            ok      = ok && same(v, s.chargeless_potential_at_given_distance(d));
            by_cell = by_cell && same(s.get_chargeless_potential_between_sidbs(a, b), v);
            sign    = sign && same(s.get_potential_between_sidbs(a, b), v * charge_state_to_sign(s.get_charge_state(b)));
        }
    CHECKN("distances are those of the sites", dist);
    CHECKN("potentials are the same by cell", by_cell);
    CHECKN("a site's potential has the sign of its charge", sign);
    CHECKN("potentials are those of the distances", ok);
    CHECKN("sites elsewhere are infinitely far", s.get_chargeless_potential_between_sidbs(s.index_to_cell(0), {40, 0, 0}) == 0.0 && s.get_potential_between_sidbs({40, 0, 0}, s.index_to_cell(0)) == 0.0);
    CHECKN("no site acts on itself", s.get_chargeless_potential_by_indices(1, 1) == 0.0 && s.get_nm_distance_by_indices(2, 2) == 0.0);
}
FV_PROOF(external)
{
    surface    s  = charged<2>();
    const auto v0 = any_potential("x", 0, 0), v1 = any_potential("x", 1, 0), g = any_potential("g", 0, 0);
    s.assign_local_external_potential({{s.index_to_cell(0), v0}});
    CHECKN("applied where asked for", *s.get_local_external_potential_by_index(0) == v0 && *s.get_local_external_potential_by_index(1) == 0.0);
    s.assign_local_external_potential({{s.index_to_cell(1), v1}});
    CHECKN("applied where asked for, too", *s.get_local_external_potential_by_index(0) == v0 && *s.get_local_external_potential_by_index(1) == v1);
    s.assign_global_external_potential(g);
    CHECKN("added everywhere", *s.get_local_external_potential_by_index(0) == v0 + g && *s.get_local_external_potential(s.index_to_cell(1)) == v1 + g);
    CHECKN("thresholds follow", s.get_effective_charge_transition_thresholds(1)[0] == v1 + g - s.strg->simulation_parameters.mu_minus + constants::ERROR_MARGIN);
    s.reset_local_external_potentials();
    CHECKN("reset", *s.get_local_external_potential_by_index(0) == 0.0 && *s.get_local_external_potential_by_index(1) == 0.0 && s.get_local_external_potential_map().empty());
}

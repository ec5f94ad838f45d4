// C14 cell technologies: every cell kind is recognised by exactly its own predicates; marks keep the meaning of the type they stand for
#include "fv.hpp"
#include <fiction/technology/cell_technologies.hpp>
using namespace fiction;

static int b(bool x) { return x ? 1 : 0; }
#define T static_cast<uint8_t>(c)

FV_PROOF(qca_types)
{
    using t = qca_technology;
    const auto c = fv::any<t::cell_type>("c");
    CHECK(t::is_empty_cell(c) == (T == ' '));
    CHECK(t::is_normal_cell(c) == (T == 'x'));
    CHECK(t::is_input_cell(c) == (T == 'i'));
    CHECK(t::is_output_cell(c) == (T == 'o'));
    CHECK(t::is_const_0_cell(c) == (T == '0'));
    CHECK(t::is_const_1_cell(c) == (T == '1'));
    CHECK(t::is_constant_cell(c) == (T == '0' || T == '1'));
    CHECK(b(t::is_empty_cell(c)) + b(t::is_normal_cell(c)) + b(t::is_input_cell(c)) + b(t::is_output_cell(c)) + b(t::is_const_0_cell(c)) + b(t::is_const_1_cell(c)) <= 1);
}
template <class t>
static void modes(const char* n)
{
    using m       = typename t::cell_mode;
    const auto c  = fv::any<m>(n);
    const int sum = b(t::is_normal_cell_mode(c)) + b(t::is_rotated_cell_mode(c)) + b(t::is_vertical_cell_mode(c)) + b(t::is_crossover_cell_mode(c));
    CHECK(t::is_normal_cell_mode(c) == (T == 0));
    CHECK(t::is_rotated_cell_mode(c) == (T == 1));
    CHECK(t::is_vertical_cell_mode(c) == (T == 2));
    CHECK(t::is_crossover_cell_mode(c) == (T == 3));
    CHECK(sum == b(T < 4));
}
FV_PROOF(modes)
{
    modes<qca_technology>("q");
    modes<mol_qca_technology>("m");
}
FV_PROOF(mol_qca_types)
{
    using t = mol_qca_technology;
    const auto c = fv::any<t::cell_type>("c");
    CHECK(t::is_empty_cell(c) == (T == ' '));
    CHECK(t::is_normal_cell1(c) == (T == 'a'));
    CHECK(t::is_normal_cell2(c) == (T == 'b'));
    CHECK(t::is_normal_cell3(c) == (T == 'c'));
    CHECK(t::is_normal_cell4(c) == (T == 'd'));
    CHECK(t::is_normal_cell(c) == (T >= 'a' && T <= 'd'));
    CHECK(t::is_input_cell(c) == (T == 'i'));
    CHECK(t::is_output_cell(c) == (T == 'o'));
    CHECK(t::is_const_0_cell(c) == (T == '0'));
    CHECK(t::is_const_1_cell(c) == (T == '1'));
    CHECK(t::is_constant_cell(c) == (T == '0' || T == '1'));
    CHECK(b(t::is_empty_cell(c)) + b(t::is_normal_cell1(c)) + b(t::is_normal_cell2(c)) + b(t::is_normal_cell3(c)) + b(t::is_normal_cell4(c)) + b(t::is_input_cell(c)) +
              b(t::is_output_cell(c)) + b(t::is_const_0_cell(c)) + b(t::is_const_1_cell(c)) <= 1);
    // the k-th normal type encodes clock number k-1; all other types fall back to 0
    CHECK(t::cell_clock_number(c) == (t::is_normal_cell(c) ? static_cast<uint64_t>(T - 'a') : 0u));
}
FV_PROOF(inml_types)
{
    using t = inml_technology;
    const auto c = fv::any<t::cell_type>("c");
    CHECK(t::is_empty_cell(c) == (T == ' '));
    CHECK(t::is_normal_cell(c) == (T == 'x'));
    CHECK(t::is_input_cell(c) == (T == 'i'));
    CHECK(t::is_output_cell(c) == (T == 'o'));
    CHECK(t::is_slanted_edge_up_magnet(c) == (T == 'u'));
    CHECK(t::is_slanted_edge_down_magnet(c) == (T == 'd'));
    CHECK(t::is_slanted_edge_magnet(c) == (T == 'u' || T == 'd'));
    CHECK(t::is_inverter_magnet(c) == (T == 'n'));
    CHECK(t::is_crosswire_magnet(c) == (T == 'c'));
    CHECK(t::is_fanout_coupler_magnet(c) == (T == 'f'));
    CHECK(b(t::is_empty_cell(c)) + b(t::is_normal_cell(c)) + b(t::is_input_cell(c)) + b(t::is_output_cell(c)) + b(t::is_slanted_edge_up_magnet(c)) +
              b(t::is_slanted_edge_down_magnet(c)) + b(t::is_inverter_magnet(c)) + b(t::is_crosswire_magnet(c)) + b(t::is_fanout_coupler_magnet(c)) <= 1);
    CHECK(t::is_normal_cell_mode(t::cell_mode{}));
}
FV_PROOF(sidb_types)
{
    using t = sidb_technology;
    const auto c = fv::any<t::cell_type>("c");
    CHECK(t::is_empty_cell(c) == (T == ' '));
    CHECK(t::is_normal_cell(c) == (T == 'x'));
    CHECK(t::is_input_cell(c) == (T == 'i'));
    CHECK(t::is_output_cell(c) == (T == 'o'));
    CHECK(t::is_logic_cell(c) == (T == 'l'));
    CHECK(b(t::is_empty_cell(c)) + b(t::is_normal_cell(c)) + b(t::is_input_cell(c)) + b(t::is_output_cell(c)) + b(t::is_logic_cell(c)) <= 1);
    CHECK(t::is_normal_cell_mode(t::cell_mode{}));
}
// applying a mark changes a cell to the type of the same name
template <class t>
static void marks(const char* n)
{
    const auto m = fv::any<typename t::cell_mark>(n);
    const auto c = static_cast<typename t::cell_type>(m);
    CHECK((m == t::cell_mark::EMPTY) == t::is_empty_cell(c));
    CHECK((m == t::cell_mark::INPUT) == t::is_input_cell(c));
    CHECK((m == t::cell_mark::OUTPUT) == t::is_output_cell(c));
}
FV_PROOF(marks)
{
    marks<qca_technology>("q");
    marks<mol_qca_technology>("m");
    marks<inml_technology>("i");
    marks<sidb_technology>("s");
    const auto m = fv::any<sidb_technology::cell_mark>("l");
    CHECK((m == sidb_technology::cell_mark::LOGIC) == sidb_technology::is_logic_cell(static_cast<sidb_technology::cell_type>(m)));
}

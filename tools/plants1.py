C='include/fiction/layouts/coordinates.hpp'
H='#include <cstdio>\n#include <cstdint>\n#define REQ(x) do{ if(!(x)){ std::printf("failed: %s\\n", #x); return 1; } }while(0)\n'
BUGS=[
dict(id='C01-unpack-y', property='C01', file=C, edits=[('y{static_cast<decltype(y)>((t << 2ull) >> 33ull)}','y{static_cast<decltype(y)>((t << 3ull) >> 34ull)}')],
 needs='a row number of 2^30 or more', breaks='unpacking a packed coordinate drops the top bit of the row and halves... (shifts by one bit too many at both ends)',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\nint main(){ using u=fiction::offset::ucoord_t; const u c{5u,(1u<<30)+8u,1u}; const u r{static_cast<uint64_t>(c)}; REQ(r==c); const u d{1u,6u,0u}; REQ(u{static_cast<uint64_t>(d)}==d); return 0; }\n'),
dict(id='C02-siqad-order', property='C02', file=C, edits=[('        if (z != other.z)\n        {\n            return z < other.z;\n        }\n\n        return x < other.x;','        if (x == other.x)\n        {\n            return z < other.z;\n        }\n\n        return z <= other.z && x < other.x;')],
 needs='two SiQAD coordinates of the same dimer row in different dimers and columns', breaks='< is no longer total within a dimer row: (5,y,0) and (3,y,1) are unordered',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\nint main(){ using s=fiction::siqad::coord_t; const s a{5,2,0}, b{3,2,1}; REQ((a<b)!=(b<a)); REQ(a<b); return 0; }\n'),
dict(id='C03-siqad-wrap', property='C03', file=C, edits=[('            x = 0;\n            y += z;\n            z = !z;','            x = 0;\n            z = !z;\n            y += z;')],
 needs='iteration crosses from the first to the second dimer of a row', breaks='wrapping computes the carry after toggling: rows are skipped and the order is wrong',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\n#include <vector>\nint main(){ using s=fiction::siqad::coord_t; fiction::coord_iterator<s> it{s{1,1,1}, s{0,0,0}}; std::vector<s> v; for(int i=0;i<8;++i){ v.push_back(*it); ++it; } REQ((v[2]==s{0,0,1})); REQ((v[4]==s{0,1,0})); REQ((*it).is_dead()); return 0; }\n'),
dict(id='C03-offset-layer', property='C03', file=C, edits=[('            if (z == 1)\n            {\n                *this = aspect_ratio.get_dead();','            if (z == aspect_ratio.z)\n            {\n                *this = aspect_ratio.get_dead();\n                z     = 0;')],
 needs='a coordinate that overruns the last row of the topmost layer in a two-layer box', breaks='the end marker loses its layer, so that exhausted iteration does not equal the dead bound',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\nint main(){ using u=fiction::offset::ucoord_t; const u ar{2u,2u,1u}; u c{3u,2u,1u}; c.wrap(ar); REQ(c==ar.get_dead()); return 0; }\n'),
dict(id='C04-negative-row', property='C04', file=C, edits=[('return {coord.x, (coord.y + (coord.y % 2)) / 2, (coord.y % 2 == 0 ? 0 : 1)};','return {coord.x, coord.y / 2, (coord.y % 2 == 0 ? 0 : 1)};')],
 needs='a negative odd row', breaks='negative odd rows are rounded towards zero, so converting back returns a different row',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\nint main(){ using c=fiction::cube::coord_t; for(int y=-5;y<6;++y){ const c a{1,y}; REQ((fiction::siqad::to_fiction_coord<c>(fiction::siqad::to_siqad_coord(a))==a)); } return 0; }\n'),
dict(id='C04-siqad-minus', property='C04', file=C, edits=[('y - other.y - static_cast<decltype(y)>(!z && other.z), z - other.z}','y - other.y - static_cast<decltype(y)>(z < other.z || (other.y < 0 && z && other.z)), z - other.z}')],
 needs='subtracting a coordinate with a negative dimer row where both are second dimers', breaks='subtraction borrows although both dimers are equal',
 demo=H+'#include <fiction/layouts/coordinates.hpp>\nint main(){ using s=fiction::siqad::coord_t; const s a{1,2,1}, b{1,-3,1}; REQ(((a+b)-b==a)); REQ((a-b==s{0,5,0})); return 0; }\n'),
]
G='include/fiction/algorithms/iter/gray_code_iterator.hpp'
BUGS+=[
dict(id='C09-backward-jump', property='C09', file=G, edits=[('        current_iteration -= m;','        current_iteration -= static_cast<unsigned int>(m);')],
 needs='a backward jump by a negative distance', breaks='a negative distance is converted to 32-bit unsigned, so it - (-3) moves back by 2^32-3',
 demo=H+'#include <fiction/algorithms/iter/gray_code_iterator.hpp>\nint main(){ fiction::gray_code_iterator it{0}; it=10; it-=-3; REQ(it==13ull); return 0; }\n'),
dict(id='C10-cartesian-empty', property='C10', file='include/fiction/utils/math_utils.hpp', edits=[('        all_combinations = expanded_products;','        if (!expanded_products.empty())\n        {\n            all_combinations = expanded_products;\n        }')],
 needs='one of the sets is empty', breaks='an empty set is skipped instead of making the product empty',
 demo=H+'#include <fiction/utils/math_utils.hpp>\nint main(){ const std::vector<std::vector<int>> s{{1,2},{},{3}}; REQ(fiction::cartesian_combinations(s).empty()); return 0; }\n'),
dict(id='C11-abs-int64', property='C11', file='include/fiction/utils/math_utils.hpp', edits=[('return static_cast<T>(std::abs(static_cast<int64_t>(n)));','return static_cast<T>(std::fabs(static_cast<double>(n)));')],
 needs='a 64-bit value above 2^53 in magnitude', breaks='magnitudes beyond 2^53 are rounded to a double',
 demo=H+'#include <fiction/utils/math_utils.hpp>\nint main(){ const int64_t v=-((1ll<<53)+1); REQ(fiction::integral_abs(v)==((1ll<<53)+1)); return 0; }\n'),
dict(id='C12-glyphs', property='C12', file='include/fiction/technology/sidb_charge_state.hpp', edits=[('        if (cs == sidb_charge_state::NONE)\n        {\n            continue;\n        }','        if (cs == sidb_charge_state::NONE)\n        {\n            if (config_str.tellp() > 0)\n            {\n                break;\n            }\n            continue;\n        }')],
 needs='a configuration with an empty position between charged ones', breaks='everything after an inner empty position is dropped from the text',
 demo=H+'#include <fiction/technology/sidb_charge_state.hpp>\nint main(){ using s=fiction::sidb_charge_state; REQ(fiction::charge_configuration_to_string({s::NONE,s::NEGATIVE,s::NONE,s::POSITIVE})=="-+"); return 0; }\n'),
dict(id='C13-extent-none', property='C13', file='include/fiction/technology/sidb_defects.hpp', edits=[('        if (neutral_defect_spacing_overwrite.has_value())\n        {\n            return *neutral_defect_spacing_overwrite;\n        }','        if (neutral_defect_spacing_overwrite.has_value() && neutral_defect_spacing_overwrite->second > 0)\n        {\n            return *neutral_defect_spacing_overwrite;\n        }')],
 needs='an overwritten neutral spacing with vertical component zero', breaks='such an overwrite is ignored',
 demo=H+'#include <fiction/technology/sidb_defects.hpp>\nint main(){ using namespace fiction; const auto r=defect_extent(sidb_defect{sidb_defect_type::SILOXANE}, std::nullopt, std::make_pair<uint16_t,uint16_t>(5,0)); REQ(r.first==5 && r.second==0); return 0; }\n'),
dict(id='C13-hash-bytes', property='C13', file='include/fiction/technology/sidb_defects.hpp', edits=[('        fiction::hash_combine(h, defect.type, defect.charge, defect.epsilon_r, defect.lambda_tf);','        fiction::hash_combine(h, defect.type, defect.charge, __builtin_signbit(defect.epsilon_r) != 0, defect.epsilon_r, defect.lambda_tf);')],
 needs='two equal defects with permittivities +0.0 and -0.0', breaks='equal defects hash differently',
 demo=H+'#include <fiction/technology/sidb_defects.hpp>\nint main(){ using namespace fiction; const sidb_defect a{sidb_defect_type::DB,0,0.0,1.0}, b{sidb_defect_type::DB,0,-0.0,1.0}; REQ(a==b); REQ(std::hash<sidb_defect>{}(a)==std::hash<sidb_defect>{}(b)); return 0; }\n'),
dict(id='C14-clock-number', property='C14', file='include/fiction/technology/cell_technologies.hpp', edits=[],
 needs='', breaks='', demo=''),
dict(id='C15-direction-flags', property='C15', file='include/fiction/technology/cell_ports.hpp', edits=[('        fiction::hash_combine(h, port.x, port.y);','        fiction::hash_combine(h, port.x, port.y, port.pi && port.po);')],
 needs='a port that is both primary input and output compared with a plain port at the same location', breaks='equal positions hash differently',
 demo=H+'#include <fiction/technology/cell_ports.hpp>\nint main(){ using namespace fiction; const port_position a{1,2,true,true}, b{1,2}; REQ(a==b); REQ(std::hash<port_position>{}(a)==std::hash<port_position>{}(b)); return 0; }\n', libs='-lfmt'),
dict(id='C15-merge-io', property='C15', file='include/fiction/technology/cell_ports.hpp', edits=[('        this->inp.merge(p.inp);\n        this->out.merge(p.out);','        this->inp.merge(p.inp);\n        if (this->out.empty() || !(*p.out.begin() < *this->out.begin()))\n        {\n            this->out.merge(p.out);\n        }\n        else if (p.out.size() > 1)\n        {\n            this->out.merge(p.out);\n        }')],
 needs='merging in a single output port that sorts before all present ones', breaks='the output port is lost',
 demo=H+'#include <fiction/technology/cell_ports.hpp>\nint main(){ using namespace fiction; using d=port_direction; port_list<d> a{{},{d{d::SOUTH}}}, b{{},{d{d::EAST}}}; a+=b; REQ(a.out.size()==2); return 0; }\n', libs='-lfmt'),
dict(id='C16-distance-skip', property='C16', file='include/fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp', edits=[('    double potential_for_given_distance = calculate_potential_for_given_distance(distance);\n\n    // as','    double potential_for_given_distance = calculate_potential_for_given_distance(distance);\n\n    // coarse start\n    while (calculate_potential_for_given_distance(distance + 64 * step_size) > potential * 1.0000001 && distance < 1.0)\n    {\n        distance += 65 * step_size;\n        potential_for_given_distance = calculate_potential_for_given_distance(distance);\n    }\n\n    // as')],
 needs='a potential between those of 64 and 65 steps beyond a coarse position', breaks='the coarse start can overshoot by one step so that a smaller multiple already satisfies the bound',
 demo=H+'#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>\n#include <cmath>\nint main(){ using namespace fiction; const sidb_simulation_parameters p{}; auto pot=[&](double d){ return p.k()/(d*1e-9)*std::exp(-d/p.lambda_tf)*constants::physical::ELEMENTARY_CHARGE; }; for(int i=1;i<400;++i){ const double v=0.5*(pot(i*0.01)+pot((i+1)*0.01)); const double r=potential_to_distance_conversion(v,p,2); REQ(std::abs(r-(i+1)*0.01)<1e-6); } return 0; }\n'),
dict(id='C20-contains', property='C20', file='include/fiction/utils/stl_utils.hpp', edits=[('        return find(val) != this->c.cend();','        return !this->c.empty() && std::find(this->c.cbegin(), this->c.cend() - 1, val) != this->c.cend() - 1;')],
 needs='the value is only stored in the last slot of the heap', breaks='containment misses the last stored element',
 demo=H+'#include <fiction/utils/stl_utils.hpp>\nint main(){ fiction::searchable_priority_queue<int> q; q.push(5); q.push(3); REQ(q.contains(3)); REQ(q.contains(5)); return 0; }\n'),
dict(id='C20-first-two', property='C20', file='include/fiction/utils/stl_utils.hpp', edits=[('        for (ForwardIt it = s_first; it != s_last - 1; ++it)','        for (ForwardIt it = s_first; it < s_last - 1; it += (*first == *it && it + 2 < s_last) ? 2 : 1)')],
 needs='the second range repeats the first element of the shared pair directly before the pair', breaks='the shared pair is skipped',
 demo=H+'#include <fiction/utils/stl_utils.hpp>\nint main(){ std::vector<int> a{7,1,2}, b{1,1,2,9}; REQ(fiction::find_first_two_of(a.begin(),a.end(),b.begin(),b.end())==a.begin()+1); return 0; }\n'),
dict(id='C21-squares', property='C21', file='include/fiction/algorithms/iter/aspect_ratio_iterator.hpp', edits=[], needs='', breaks='', demo=''),
dict(id='C25-five', property='C25', file='include/fiction/io/csv_writer.hpp', edits=[('            stream << std::forward<T>(arg) << DELIMITER;\n            write_line(std::forward<Ts>(args)...);','            stream << arg << (sizeof...(args) % 4 == 0 ? \';\' : DELIMITER);\n            write_line(std::forward<Ts>(args)...);')],
 needs='a line of five or more fields', breaks='a wrong separator in front of the last four fields',
 demo=H+'#include <fiction/io/csv_writer.hpp>\n#include <sstream>\nint main(){ std::ostringstream s; fiction::csv_writer w{s}; w.write_line(1,2,3,4,5,6); REQ(s.str()=="1,2,3,4,5,6\\n"); return 0; }\n'),
]
BUGS=[b for b in BUGS if b['edits']]

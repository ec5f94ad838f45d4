"""Single source of properties.jsonl and MANIFEST.json (run tools/mkdocs.py)."""
INC = "include/fiction/"

def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[INC + f if not f.startswith("vendors") else f for f in files], mech=mech, **kw)

PROOF_NOTE = "All obligations discharged for all inputs on the LLVM IR of the current sources. "
TRUST = "Trusts clang 18, the VC generator in fv/, the SMT solvers, and the axioms listed in the evidence file."

PROPS = [
P("C01", "Packed coordinates lose nothing",
  "Constructing a coordinate of any of the three coordinate systems keeps each component exactly and yields a valid ('live') coordinate; packing a coordinate into its 64-bit integer form and unpacking it returns the same coordinate, and distinct coordinates never share a packed form. The 'dead' marker is independent of the position: marking as dead keeps every component, and a dead coordinate never equals a live one.",
  ["inputs"], "all component values of each coordinate type (31+31+1 bits unsigned, 3x32 bits signed, SiQAD 32+32+1 bits) and all 2^64 packed values",
  "Tests look at a dozen small coordinates; sign/extension and bit-field boundary errors only show at the extremes of the component ranges.",
  ["layouts/coordinates.hpp"], ["offset/cube/siqad coordinate constructors, get_dead/is_dead, uint64_t conversion", "offset_to_cube_coord"]),
P("C02", "Coordinate comparisons form a strict total order agreeing with hashing",
  "For each coordinate system, < is a strict total order (lexicographic by layer, row, column; for SiQAD coordinates by dimer row, dimer, column), the other five comparison operators are exactly the ones derived from it and from equality, and equality is equality of all components and of validity. Equal coordinates have equal hashes, and distinct packed unsigned coordinates have distinct hashes.",
  ["inputs"], "all triples of coordinates of each coordinate system",
  "Transitivity, totality and agreement between six operators quantify over triples of 64..96-bit values; tests compare a handful of pairs.",
  ["layouts/coordinates.hpp"], ["operator==, !=, <, >, <=, >= of the three coordinate types", "std::hash specialisations"]),
P("C03", "Iterating over a box visits every coordinate exactly once, in order",
  "Iterating from the origin over the box spanned by an arbitrary bound visits every coordinate of the box exactly once in ascending order and then becomes the dead coordinate. Starting from an arbitrary coordinate is clamped into the box (or yields the exhausted iterator), wrapping a coordinate keeps it when it lies in the box and otherwise maps it into the box or to the dead bound, and iterator comparison follows coordinate order.",
  ["inputs", "histories"], "all box sizes, all positions in the box, all starting coordinates; by induction over steps all iteration lengths",
  "Tests iterate over a few small boxes; the statement is about every box, including degenerate and maximal ones, and every number of steps.",
  ["layouts/coordinates.hpp"], ["coord_iterator", "wrap of the three coordinate types"]),
P("C04", "SiQAD/array coordinate conversion is bijective; arithmetic is exact",
  "Converting a SiQAD coordinate to an array coordinate keeps the column and maps (dimer row, dimer) to row 2*dimer row + dimer, saturating only where the result is not representable; converting back returns the original, for negative rows as well. Coordinate addition and subtraction are component-wise (SiQAD: on columns and physical rows), associative, commutative and mutually inverse, and area and volume of a bound are the number of coordinates it spans.",
  ["inputs"], "all coordinates of each system whose results are representable",
  "Negative rows, carries between dimer and dimer row, and extreme values are not sampled by the tests.",
  ["layouts/coordinates.hpp", "utils/math_utils.hpp"], ["to_fiction_coord, to_siqad_coord", "operator+ / operator- of cube and SiQAD coordinates", "area, volume"]),
P("C05", "Cartesian layouts: adjacency, borders and bounds are those of the grid",
  "In a (possibly shifted) Cartesian layout, each directional neighbour query returns the coordinate one step in that direction if it lies inside the layout and the coordinate itself otherwise, opposite steps are inverse, and adjacency predicates and enumerations are exactly 'differs by one step'. Border predicates hold for precisely the coordinates at the respective border, the bounds predicate for precisely those inside, and the elevation queries change only the layer.",
  ["inputs", "configurations"], "all layout dimensions and all coordinates with non-negative components within them (border and bounds predicates: inside and outside)",
  "Tests use layouts of ten by ten tiles; every border/corner/degenerate-dimension combination is a separate case.",
  ["layouts/cartesian_layout.hpp", "layouts/shifted_cartesian_layout.hpp"], ["north/east/south/west/above/below, is_*_of, is_at_*_border, is_within_bounds, bordering coordinates"]),
P("C06", "Hexagonal layouts: offset/cube conversion bijective, neighbours mutual",
  "In each of the four hexagonal arrangements, converting an offset coordinate to cube coordinates yields components that sum to zero and converting back returns the original. Each of a tile's neighbours lists that tile as a neighbour in the opposite direction, and neighbours are exactly the in-bounds tiles at cube distance one.",
  ["inputs", "configurations"], "all four arrangements, all layout dimensions and coordinates",
  "Odd/even row parity, negative cube coordinates and border cases are only sampled for small layouts.",
  ["layouts/hexagonal_layout.hpp"], ["to_cube_coordinate, to_offset_coordinate, neighbour functions of the four arrangements"]),
P("C07", "Clocking schemes assign each tile a valid, periodic and overridable clock zone",
  "Every built-in clocking scheme assigns each tile the zone number of its published pattern, which is below the number of phases and repeats seamlessly in all directions, also across the origin for coordinate types with negative components. Overwriting a tile's zone changes the answer for that tile only, to the given number modulo the number of phases (the last one when repeated), and makes the scheme irregular. Copies of a scheme are equal and independent.",
  ["inputs", "configurations", "histories"], "all built-in schemes with 3 and 4 phases, all tiles of offset, cube and SiQAD coordinates (negative ones included), all four hexagonal arrangements, any previously overwritten zones",
  "Tests check the first few rows of every scheme; periodicity and range hold for all tiles only by arithmetic.",
  ["layouts/clocking_scheme.hpp"], ["clocking_scheme: operator(), override_clock_number, is_regular", "scheme factory functions"]),
P("C08", "Clocking schemes: degrees, data flow, classification and lookup by name agree",
  "Each built-in clocking scheme is found under its own name and its names with phase count, irrespective of case, with that number of phases and those zones, and under no other name. No tile of any layout has more incoming or outgoing zones than the scheme declares, and 2DDWAVE, USE, RES, ESR, RIPPLE, SRS and BANCS attain the declared degrees. Exactly COLUMNAR, ROW, 2DDWAVE and 2DDWAVEHEX are classified linear, and in these data never flows to the west or to the north.",
  ["inputs", "configurations"], "all built-in schemes, all tiles of layouts of any size (all four hexagonal arrangements), all names (of up to 12 characters for the absence of further names)",
  "The degrees and the direction of data flow are claims about every tile of the infinite plane; tests check names only.",
  ["layouts/clocking_scheme.hpp", "layouts/clocked_layout.hpp"], ["scheme factory functions, get_clocking_scheme, is_linear_scheme", "clocked_layout: in_degree, out_degree, foreach_outgoing_clocked_zone"]),
P("C09", "Gray code iteration: every code once, one bit per step, random access consistent",
  "The value at position n is the n-th reflected binary Gray code, so consecutive positions differ in exactly one bit and no code repeats. Increment, decrement, jumps by any signed distance, subscripting and iterator difference are all consistent with the position, and iterators compare as their positions do.",
  ["inputs", "histories"], "all 2^64 positions, all start values and all jump distances",
  "The iterator drives exhaustive enumeration of charge configurations and input patterns; tests iterate over the first few codes only.",
  ["algorithms/iter/gray_code_iterator.hpp"], ["gray_code_iterator operators"]),
P("C10", "Enumeration helpers: binomials, k-subsets and Cartesian products are complete",
  "The binomial coefficient is exact whenever it is representable in 64 bits, also when intermediate products are not. The enumeration of distributions of k entities on n positions contains every k-subset exactly once, and the Cartesian product contains every combination exactly once in lexicographic order of the sets.",
  ["inputs"], "all n, k with representable coefficients; all sets",
  "Tests check a few small numbers; overflow in intermediate results or a missing last combination needs particular n and k.",
  ["utils/math_utils.hpp", "utils/combination_utils.hpp", "vendors/combinations/combinations.h"], ["binomial_coefficient", "determine_all_combinations_of_distributing_k_entities_on_n_positions", "cartesian_combinations"]),
P("C11", "Numeric helpers: magnitude, rounding and weighted cost are exact",
  "The integral absolute value is the magnitude of its argument for every integer width, rounding to n places returns the nearest multiple of 10^-n, and the weighted cost is the sum of cost times weight over all entries, in order, rejecting vectors of different lengths.",
  ["inputs"], "all integers of each width whose magnitude is representable, all doubles below 10^12 in magnitude, all vectors of any length",
  "Widths, signs and extreme values, and vectors of arbitrary length, are beyond sampled tests.",
  ["utils/math_utils.hpp"], ["integral_abs, round_to_n_decimal_places, cost_function_chi"]),
P("C12", "Charge states: sign, digit and text representations agree",
  "Converting between charge states and signs is a bijection on the three physical states and maps everything else to 'no charge'; the charge states for base 2 and 3 are the digits of the respective number system in ascending sign. The text form of a charge configuration has one correct symbol for each charged site, in order.",
  ["inputs"], "all signs, all states, both bases, configurations of any length",
  "Configurations are arbitrarily long; the relation between base digits and signs is what the exhaustive simulators count with.",
  ["technology/sidb_charge_state.hpp"], ["charge_state_to_sign, sign_to_charge_state, sidb_charge_states_for_base_number, charge_configuration_to_string"]),
P("C13", "Atomic defects: classification, extent, equality and hashing are consistent",
  "Every defect is exactly one of charged, neutral, or absent; the sign predicates follow its charge; the influence extent is the caller-given or default spacing of its class and zero for 'no defect'. Defects are equal iff all their attributes are, and equal defects have equal hashes.",
  ["inputs"], "all 15 defect types, all 64-bit charges, all non-negative (also zero/infinite) permittivities and screening lengths, all spacing overrides",
  "Tests check a few defects; negative charges, signed zeros and mixed overrides are not covered.",
  ["technology/sidb_defects.hpp"], ["sidb_defect, is_charged_defect_type, is_neutral_defect_type, is_*_charged_defect, defect_extent", "std::hash<sidb_defect>"]),
P("C14", "Cell technologies: every cell kind is recognised by exactly its own predicate",
  "In each of the four technologies every cell value satisfies exactly the type predicates of its own kind (and the group predicates that include it) and every other value satisfies none; the same holds for cell modes. A cell mark turns a cell into the type of the same name, and clock numbers encoded in cell types are recovered.",
  ["inputs"], "all byte values of types, modes and marks of all technologies",
  "Mutual exclusion of a dozen predicates over all values is exhaustive by nature.",
  ["technology/cell_technologies.hpp"], ["qca_technology, mol_qca_technology, inml_technology, sidb_technology predicates and enums"]),
P("C15", "Cell ports: order, equality and hashing are consistent",
  "Port positions are strictly totally ordered by location and port directions by cardinal direction, equality agrees with the order, and equal ports or port lists have equal hashes. Port lists compare as sets, and merging two lists yields the unions of their input and of their output ports.",
  ["inputs"], "all positions, directions and flags; port lists up to the stated bound",
  "Gate libraries key hash maps by port lists; a hash/equality disagreement only shows for particular pairs.",
  ["technology/cell_ports.hpp", "utils/hash.hpp"], ["port_position, port_direction, port_list", "std::hash specialisations"]),
P("C16", "Simulation parameters and screened-potential distances are consistent",
  "Simulation parameters keep the values they are built from, separate the two charge transition levels by 0.59 eV with the positive one below, and derive the Coulomb factor inversely proportional to the permittivity. The distance returned for a potential is the smallest positive multiple of the requested precision at which the screened Coulomb potential no longer exceeds it.",
  ["inputs"], "all parameter values in the physical ranges; all potentials and precisions (partial correctness, any number of search steps)",
  "Tests compare three or four numeric values; minimality over all multiples is a loop invariant.",
  ["algorithms/simulation/sidb/sidb_simulation_parameters.hpp", "algorithms/simulation/sidb/potential_to_distance_conversion.hpp", "technology/constants.hpp", "technology/sidb_lattice_orientations.hpp"], ["sidb_simulation_parameters::k, mu_plus", "potential_to_distance_conversion", "physical and lattice constants"]),
P("C17", "Positions and distances of dangling bonds follow the lattice",
  "The physical position of a dangling bond is its column times the horizontal lattice constant and its dimer row times the vertical one plus, for the lower atom of a dimer, the base vector, for either lattice orientation and any coordinate type (negative coordinates included); layouts without an orientation lie on the (100) lattice. The distance of two dangling bonds is the length of the line between their positions: symmetric, and zero for identical sites; different sites have different positions. Nothing but the sites and the orientation matters.",
  ["inputs"], "all sites of SiQAD, cube and offset coordinates, both lattice orientations; that positions differ: columns and rows in [-256, 256)",
  "Floating-point geometry for arbitrary (also negative) coordinates is only sampled by tests, on a few coordinates of one orientation.",
  ["technology/sidb_nm_position.hpp", "technology/sidb_nm_distance.hpp", "technology/sidb_lattice_orientations.hpp"], ["sidb_nm_position, sidb_nm_distance, sidb_lattice"]),
P("C18", "Cell-level gate transformations are exact permutations",
  "Transposing a gate, reversing its rows or columns, and rotating it by 90, 180 and 270 degrees clockwise moves every cell to exactly its geometric image and changes none. Merging gates yields a cell exactly where one of them has one, and one of theirs; marking a cell at a port changes that cell only; converting a drawing puts every character at its place.",
  ["inputs"], "all cell matrices of the libraries' gate sizes; merging: any number of 4x4 gates, up to three of other sizes",
  "Tests check single examples; a transposed index is invisible on symmetric gates.",
  ["technology/fcn_gate_library.hpp", "utils/array_utils.hpp"], ["transpose, reverse_columns, reverse_rows, rotate_90/180/270, merge, mark_cell, cell_list_to_gate"]),
P("C19", "Simulated annealing returns the best state it has evaluated",
  "The state returned by simulated annealing is the cheapest one evaluated, with exactly its own cost, and never costs more than the initial state; the chain moves to a worse state only as the Metropolis rule allows and follows the temperature schedule from the initial to the final temperature. The multi-instance version returns the cheapest of its instances' results.",
  ["inputs", "histories", "schedules"], "all initial states, cost functions, neighbour functions, random numbers and temperature schedules; any number of steps",
  "The chain is random; tests check that one seeded run improves a cost.",
  ["algorithms/optimization/simulated_annealing.hpp"], ["simulated_annealing, multi_simulated_annealing, linear and geometric temperature schedules"]),
P("C20", "Searching: first shared pair and priority-queue lookup are exact",
  "The search for the first shared two-element subsequence returns the first position at which two consecutive elements of the first range occur consecutively in the second one, or the end if there is none, for ranges of any length including empty ones. The searchable priority queue finds exactly the elements it holds, reports containment accordingly, and yields its elements in priority order.",
  ["inputs", "histories"], "all ranges of any length; all queue contents; insertion/extraction histories up to the stated bound",
  "Tests use three-element ranges; ranges shorter than two elements and hits at the last position are boundary cases.",
  ["utils/stl_utils.hpp"], ["find_first_two_of", "searchable_priority_queue"]),
P("C21", "Aspect ratio iteration enumerates all factor pairs in ascending order",
  "Starting at a number n, the iterator yields every aspect ratio whose area is n exactly once, then those of n+1, and so on. Copies and post-increment are independent of the original, and comparisons order iterators by the area they are at, agreeing with equality.",
  ["inputs", "histories"], "all start values and step counts (decided up to the stated bound)",
  "Exhaustive placement relies on not missing any aspect ratio; tests check the first few numbers.",
  ["algorithms/iter/aspect_ratio_iterator.hpp"], ["aspect_ratio_iterator"]),
P("C22", "Obstruction bookkeeping answers exactly for what was marked",
  "A coordinate is reported obstructed exactly if it, or the layout below, is obstructed; a connection exactly if that ordered pair was marked. Marking or clearing one coordinate or connection changes no other answer and clearing undoes marking.",
  ["inputs", "histories"], "all coordinates and pairs, all operation histories (inductively over one arbitrary operation)",
  "Routing correctness depends on frame properties over arbitrary histories; tests check single operations.",
  ["layouts/obstruction_layout.hpp"], ["obstruct_*, clear_obstructed_*, is_obstructed_*"]),
P("C23", "Cell-level layouts return exactly the cells that were assigned",
  "Reading a cell returns the type, mode and name last assigned to that position, and the empty type where nothing was assigned. Assigning to one position changes no other; assigning the empty type removes the cell and its mode. Inputs and outputs are exactly the cells of input and output type; a cell has the clock zone of the tile it lies in; changing a layout or its clone leaves the other alone.",
  ["inputs", "histories", "configurations"], "all positions, cell types and modes, offset, cube and SiQAD coordinates, all histories (one arbitrary operation on arbitrary contents); names and enumerations up to the stated bound",
  "The frame (no other cell changes) quantifies over all positions and histories.",
  ["layouts/cell_level_layout.hpp", "technology/cell_technologies.hpp"], ["assign_cell_type, get_cell_type, assign_cell_mode, get_cell_mode, assign_cell_name, get_cell_name, is_empty_cell, is_pi, is_po, num_pis, num_pos, num_cells, foreach_cell, foreach_pi, foreach_po, get_cells_by_type, get_clock_number, clone"]),
P("C24", "Charge distributions: index, configuration and energies agree",
  "The charge index and the charge configuration of a charge distribution encode each other in the configured base as long as the indices fit into 64 bits, and increasing the index moves to the next configuration. Local potentials and the electrostatic energy are the sums of the pairwise potentials over the current configuration, also when they are updated by the history of changes. The physical-validity check holds exactly if every site's charge fits its local potential and no electron gains energy by moving. Copies, clones and assigned surfaces agree with the original and leave it alone.",
  ["inputs", "histories"], "all charge configurations, indices and potentials, for 1 to 5, 8, 40, and 63 sites (encoding) and up to three sites (potentials)",
  "Simulation results rest on encodings and incremental updates agreeing with the definition for every configuration; tests sample a few.",
  ["technology/charge_distribution_surface.hpp"], ["charge_distribution_to_index, charge_distribution_to_index_general, index_to_charge_distribution, index_to_charge_distribution_for_quickexact_simulation, assign_charge_index, assign_charge_index_by_gray_code, increase_charge_index_by_one, increase_charge_index_of_sub_layout_by_one, assign_charge_state, update_local_internal_potential, update_charge_state_of_dependent_cell, recompute_electrostatic_potential_energy, validity_check, is_configuration_stable, assign_local_external_potential, copy, clone, assignment"]),
P("C25", "CSV output: one line per record with every field in order",
  "Each call writes exactly its fields in order, separated by single commas and terminated by one newline, adding and losing no characters; a call without fields writes an empty line, and consecutive calls append.",
  ["inputs", "histories"], "all field contents; arities 0, 1, 2 and 5, and sequences of calls",
  "The contents and number of fields are arbitrary; tests compare one line.",
  ["io/csv_writer.hpp"], ["csv_writer::write_line"]),
P("C26", "Hashing of composite values respects equality",
  "Equal arrays, pairs, sets and multisets have equal hashes, whatever their history. Combining a value into a seed depends on nothing but the seed and the value's hash, and two values with different hashes lead to different seeds. The order-independent combination gives the same result for every permutation of the same values, and each value contributes.",
  ["inputs"], "all element values; collection sizes up to the stated bound",
  "Order independence quantifies over all permutations and all element hashes.",
  ["utils/hash.hpp"], ["hash_combine, hash_combine_unordered, std::hash specialisations for array, set, unordered_set, unordered_multiset, pair"]),
P("C27", "Array conversion and tolerant map lookup are exact",
  "Creating an array repeats the given value in every position; converting an array (also one of arrays) to another element type keeps the shape and converts the element of each position. Looking up a floating-point key with tolerance in a map of any size returns the first entry whose key differs from the given one by less than the error margin, and the end iterator exactly if there is none.",
  ["inputs"], "all element values; maps of any size",
  "Boundary tolerances and the missing-entry case for maps of arbitrary size are beyond tests.",
  ["utils/array_utils.hpp", "utils/map_utils.hpp"], ["create_array, convert_array, convert_array_of_arrays", "find_key_with_tolerance"]),
P("C28", "Technology mapping libraries describe the gates they name",
  "Each gate entry of the technology mapping library can be parsed, has exactly the input pins of the gate it names, and computes the Boolean function its name states. Each entry of a decayed-gate library computes its three-input gate with one input held constant, the remaining inputs it depends on keeping their order, and no two entries of one decayed-gate library compute the same function.",
  ["inputs", "configurations"], "all entries and all input assignments",
  "A wrong formula maps to a functionally wrong circuit without any parser error; tests only use some gates.",
  ["technology/technology_mapping_library.hpp"], ["genlib library strings"]),
P("C29", "Path-finding distances are exact metrics and lower bounds",
  "The Manhattan distance of two tiles is the length of a shortest grid path: symmetric, zero exactly for the same column and row, one less after each step towards the target and one more after any other. Euclidean, squared Euclidean and Chebyshev distance have the values that define them; the 2DDWave distance is the Manhattan distance if the target lies south-east of the source, and infinite otherwise. Functors, distance maps and caches give the distances of their function.",
  ["inputs", "histories"], "all pairs of tiles of offset, cube and SiQAD coordinates (squared Euclidean: up to 2^26 apart); distance maps for layouts up to the stated bound",
  "Unsigned subtraction and sign errors depend on the relative position of the tiles; caches must not confuse pairs.",
  ["algorithms/path_finding/distance.hpp", "algorithms/path_finding/distance_map.hpp", "algorithms/path_finding/cost.hpp"], ["manhattan_distance, euclidean_distance, squared_euclidean_distance, twoddwave_distance, chebyshev_distance, distance_functor and its specialisations, unit_cost, cost_functor, initialize_distance_map, initialize_sparse_distance_map, distance_map_functor, sparse_distance_map_functor, smart_distance_cache_functor"]),
# ---- broad guarantees beyond the reach of the family in this sandbox
P("C30", "Clocked layouts: data flow follows consecutive zones; clones are independent",
  "In a clocked layout, data flows from one tile to a different one iff the zone of the second follows that of the first modulo the number of phases, so what flows out of one flows into the other. Incoming and outgoing zones of a tile are exactly its neighbours clocked so, each once, and degrees count them. Assigning a zone changes that tile only; replacing the scheme replaces all zones; a clone has the same zones, and later changes to either leave the other alone. The scheme is recognised by its name.",
  ["inputs", "configurations", "histories"], "all clocking schemes with up to 255 phases, Cartesian layouts of offset, cube and SiQAD coordinates, hexagonal layouts of any size, all tiles, all numbers assigned",
  "Aliasing between clones and zones at the wrap-around of the phases need particular histories and schemes.",
  ["layouts/clocked_layout.hpp"], ["is_incoming_clocked, is_outgoing_clocked, foreach_incoming_clocked_zone, foreach_outgoing_clocked_zone, incoming_clocked_zones, outgoing_clocked_zones, in_degree, out_degree, degree, assign_clock_number, replace_clocking_scheme, clone, is_clocking_scheme"]),
P("C31", "Gate libraries give every tile a gate that fits its function and routing",
  "For every function and routing it supports, a gate library returns a gate with cells where signals enter and leave and, unconnected sides aside, none at the border; ports are connected by cells, fixed cells are 0 in conjunctions and 1 in disjunctions only, primary inputs and outputs are marked at wire ends only. A turned or mirrored routing gets the turned or mirrored gate. The gate is listed as an implementation of the tile's function, and of no other, with its ports. Unsupported functions and routings are refused with an error naming the tile.",
  ["inputs", "configurations"], "QCA ONE, SIM7, ToPoliNano and Bestagon: all functions, all sets of incoming and outgoing sides",
  "There are dozens of orientations per function; tests draw a few layouts.",
  ["technology/qca_one_library.hpp", "technology/sim7_mol_library.hpp", "technology/inml_topolinano_library.hpp", "technology/sidb_bestagon_library.hpp", "technology/sidb_skeleton_bestagon_library.hpp", "technology/cell_ports.hpp"], ["set_up_gate, get_functional_implementations, get_gate_ports"]),
P("C32", "Named Boolean functions have the truth tables of their names",
  "Each truth table the library constructs by name (AND, less-or-equal, majority, if-then-else, half adder, ...) has the documented number of variables and, at every input pattern, the value of the function it is named after; evaluating several tables at a pattern yields exactly their values as bits.",
  ["inputs"], "all 26 named functions, all input patterns; evaluation of up to 64 tables over six variables",
  "Gate design and equivalence checking compare against these tables; tests use a few of them only as inputs.",
  ["utils/truth_table_utils.hpp"], ["create_*_tt, evaluate_output"]),
P("N01", "Physical design preserves function",
  "Every layout produced by any physical-design algorithm computes the same Boolean function as the network it was produced from, and passes all design rules.",
  ["inputs", "programs", "configurations"], "all logic networks and all algorithm parameters",
  "Tests compare a few benchmark circuits.", ["algorithms/physical_design/orthogonal.hpp", "algorithms/physical_design/exact.hpp"], ["orthogonal, exact, graph_oriented_layout_design, post_layout_optimization"],
  na="The algorithms are templates over mockturtle networks and kitty truth tables, neither of which is present in the sandbox, so no compilable unit exists from which obligations could be generated; the result also depends on whole-program behaviour rather than on function contracts."),
P("N02", "Layouts survive a file round trip",
  "Writing a gate-level or cell-level layout to one of the supported file formats and reading it back yields an equivalent layout.",
  ["inputs", "programs"], "all layouts and formats",
  "Tests round-trip a few sample layouts.", ["io/write_fgl_layout.hpp", "io/read_fgl_layout.hpp", "io/write_fqca_layout.hpp", "io/read_fqca_layout.hpp", "io/read_sqd_layout.hpp", "io/write_sqd_layout.hpp"], ["writers and readers"],
  na="Readers depend on tinyxml2, lorina and std::regex over gate_level_layout/mockturtle types; none of these builds offline and their semantics would have to be trusted wholesale."),
P("N03", "Exact simulators agree on ground states",
  "Exhaustive, quickexact and clustercomplete simulation report the same set of physically valid charge configurations with the same energies for every layout and parameter set.",
  ["inputs", "configurations"], "all SiDB layouts and parameters",
  "Tests compare a few hand-made layouts.", ["algorithms/simulation/sidb/quickexact.hpp", "algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp", "algorithms/simulation/sidb/clustercomplete.hpp"], ["the three simulators"],
  na="Needs alice/phmap/kitty/mockturtle and multi-threaded whole-algorithm reasoning over floating-point sums; no compilable unit and no per-function contract short of the full equivalence proof expresses it."),
P("N04", "Concurrent simulation is race free and schedule independent",
  "The multi-threaded simulators and operational-domain computations give the same result under every thread schedule.",
  ["schedules"], "all thread interleavings",
  "Tests observe a few schedules.", ["algorithms/simulation/sidb/quicksim.hpp", "algorithms/simulation/sidb/operational_domain.hpp"], ["thread pools and mutexes"],
  na="Sequential contract verification has no permission logic for std::thread/std::mutex here, and the files do not build offline (mockturtle, phmap, alice missing). Race freedom of the one buildable threaded algorithm (multi-instance annealing) is part of C19."),
P("N05", "Design-rule checking and equivalence checking are sound",
  "The design-rule check reports no error exactly for layouts that satisfy every rule, and equivalence checking answers 'equivalent' only for layouts with the same function and a correct throughput statement.",
  ["inputs", "programs"], "all gate-level layouts",
  "Tests contain a few correct and incorrect layouts.", ["algorithms/verification/design_rule_violations.hpp", "algorithms/verification/equivalence_checking.hpp"], ["gate_level_drvs, equivalence_checking"],
  na="Depends on mockturtle miter construction, SAT solving and kitty; absent offline."),
P("N06", "Path finding returns valid shortest paths",
  "A* and jump point search return a path between the given tiles that respects clocking, obstructions and adjacency, of minimal length, whenever one exists.",
  ["inputs", "configurations"], "all layouts, obstructions and tile pairs",
  "Tests check small grids.", ["algorithms/path_finding/a_star.hpp", "algorithms/path_finding/jump_point_search.hpp"], ["a_star, jump_point_search, yen_k_shortest_paths"],
  na="The search works on phmap hash tables of tiles over a template layout stack that needs mockturtle and phmap; an unbounded optimality proof needs heap- and set-level ghost reasoning beyond this generator. The distance functions it relies on are C29."),
]

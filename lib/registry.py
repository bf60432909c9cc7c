"""Which obligations decide which property."""

ASSUMPTIONS = [
    "rustc, Kani 0.68, CBMC 6.11 and its SAT solver; Verus 0.2026.09, vstd and Z3",
    "the reference geometry of kani/src/geom.rs and kani/src/values.rs (where a piece is in space)",
    "the registry (lib/registry.py): that these obligations together are the property; the argument is in DESIGN.md",
]

P = "pieces::"

CORNER_EDGE = [P + n for n in (
    "corner_move_is_rigid", "corner_sticker_is_injective", "edge_move_is_rigid", "edge_sticker_is_injective")]
DEPTH_PIECES = [P + n for n in (
    "wing_4_1_is_rigid", "wing_5_1_is_rigid", "wing_6_1_is_rigid", "wing_6_2_is_rigid", "wing_7_1_is_rigid", "wing_7_2_is_rigid",
    "center_corner_4_1_is_rigid", "center_corner_5_1_is_rigid", "center_corner_6_1_is_rigid", "center_corner_6_2_is_rigid",
    "center_corner_7_1_is_rigid", "center_corner_7_2_is_rigid",
    "center_edge_5_1_is_rigid", "center_edge_7_1_is_rigid", "center_edge_7_2_is_rigid",
    "center_wing_6_is_rigid", "center_wing_7_is_rigid",
    "wing_cubie_is_injective", "center_corner_sticker_is_injective", "center_edge_sticker_is_injective",
    "center_wing_sticker_is_injective")]
UNDONE = [P + n for n in (
    "corner_move_is_undone", "edge_move_is_undone", "wing_move_is_undone", "center_corner_move_is_undone",
    "center_edge_move_is_undone", "center_wing_move_is_undone")]
LAWS = [P + p + "_" + n for p in ("corner", "edge", "wing", "center_corner", "center_edge", "center_wing")
        for n in ("turns_add_up", "opposite_turns_commute")]
SET_MOVES = ["sets::set_of_8_moves_each", "sets::set_of_12_moves_each"]
DEPTH_SET_MOVES = ["sets::depth_set_1_0_moves_those_inside_1", "sets::depth_set_1_0_moves_those_inside_2",
                   "sets::depth_set_2_0_moves_those_inside_2", "sets::depth_set_1_2_moves_those_inside_2"]
SETS_THOROUGH = ["sets::set_of_24_moves_each", "sets::large_depth_set_moves_those_inside"]
SPACE = ["space::" + n for n in (
    "direction_is_a_sign", "axis_order_is_right_handed", "axis_pairs_are_right_handed", "axis_maps_its_slice",
    "face_is_its_normal", "face_turns_around_axes", "face_cross_product", "face_iter_and_index_agree",
    "face_contains_what_is_on_it", "amounts_are_quarter_turns", "rotations_turn_what_they_rotate", "vec2_rotates_clockwise",
    "move_rotation_is_the_turn_of_its_face", "moves_have_inverses", "rotated_moves_are_conjugates",
    "rotated_moves_are_conjugates_on_edges", "wings_are_between_their_faces", "center_edges_are_beside_their_faces",
    "edge_faces_are_around_it", "edges_are_between_perpendicular_faces", "corner_faces_are_around_it")]
NARROW = ["cubes::" + n for n in (
    "axis_move_is_depth_0_of_1", "wide_0_move_is_depth_0_of_1", "axis_move_is_depth_0_of_2",
    "wide_0_move_is_depth_0_of_2", "wide_1_move_keeps_its_depth_of_2")]

SOLVED_PIECES = [P + n for n in (
    "solved_corners_are_at_home", "solved_edges_are_at_home", "solved_wings_are_at_home", "solved_center_corners_are_at_home",
    "solved_center_edges_are_at_home", "solved_center_wings_are_at_home",
    "corner_is_solved_iff_its_stickers_are_home", "edge_is_solved_iff_its_stickers_are_home", "wing_is_solved_iff_it_is_home",
    "center_corner_is_solved_iff_on_its_face", "center_edge_is_solved_iff_on_its_face", "center_wing_is_solved_iff_on_its_face")] + [
    "cubes::cube2_is_solved_iff_its_corners_are", "cubes::cube3_is_solved_iff_its_pieces_are"]

PIECE_FUNCTIONS = [
    "<Corner as Movable<AxisMove>>::apply", "<Corner as Rotatable>::rotate", "<Edge as Movable<AxisMove>>::apply",
    "<Edge as Rotatable>::rotate", "Edge::faces", "Edge::position_from_faces", "AxisRotation::flips_edge_orientation",
    "Face::contains_vector", "Face::contains_edge", "rotate_vec2", "Face::next_around", "Face::prev_around",
    "<AxisRotation as From<&AxisMove>>::from",
]
DEPTH_FUNCTIONS = [
    f"<{p} as {t}" for p in ("Wing", "CenterCorner", "CenterEdge", "CenterWing")
    for t in ("DepthPiece>::is_in_wide_move", "Rotatable>::rotate")
]
SET_FUNCTIONS = ["<PieceSet<P, N> as Movable<M>>::apply", "<DepthPieceSet<P, N, ND, TD> as Movable<WideAxisMove<M>>>::apply"]
INVERSES = ["<AxisMove as Move>::inverse", "<WideAxisMove<N> as Move>::inverse"]

INDICES = ["indexing::" + n for n in (
    "multipliers_are_of_the_mixed_radix", "dispositions_of_8_have_their_index", "dispositions_of_6_in_12_have_their_index",
    "orientations_have_their_index", "orientations_of_an_index_have_it", "half_edges_are_made_of_positions_and_orientations",
    "half_edges_index_is_made_of_two", "corners_index_is_made_of_two", "cube_indices_are_those_of_its_parts",
    "half_turn_exchanges_the_halves", "edges_are_told_by_their_indices", "corners_are_told_by_their_indices", "solved_pieces_are_in_order")] + ["laws::corner_twists_get_fixed", "laws::position_indices_are_those_of_the_references", "laws::orientation_indices_are_flips_and_twists"]
TABLE_TRUST = ["`vec!`, `Iterator::{filter,count}`, chrono and std::io are as specified in verus/tables.py; storing a table does not change it",
               "`mem::transmute` of a `Vec<PartialEntry>` to a `Vec<u8>` reads each entry as the byte that it holds"]
INDEXING_TRUST = ["`filter`, `enumerate`, `count`, `nth` of iterators and `map` of arrays are as specified in verus/indexing.py; arrays are gone over by their numbers, "
                  "and a slice of an array that is made an array is its part, and two that are joined are one after the other; "
                  "`CornerSet::new` and `EdgeSet::new` take pieces at different places, as they are (verus/sets.py)"]
SETS_VERUS_TRUST = ["arrays, their iterators and the adaptors of these are as specified in verus/sets.py (in order, each element once); "
                    "a loop over `&mut` an array, or `filter` and `for_each`, are written as a loop over its indices; positions of pieces are compared by `==` that is equality"]
SET_TRUST = SETS_VERUS_TRUST + ["piece sets are parametric: what holds for the abstract piece of kani/src/sets.rs holds for every piece (Rust generics without specialization)"]
VERUS_TRUST = ["the extraction of lib/rustsrc.py keeps the bodies of functions as they are (it drops attributes, comments on items and visibility, "
               "adds ghost code and loop invariants, and renames `self` where a method becomes a free function)"]

MOVES_TRUST = ["verus/moves.py takes the contracts of `absorve` and of NonRedundantAxisMove's methods from the Kani obligations of kani/src/moves.rs, "
               "and the laws of turns (they add up, those of opposite faces commute) from those of kani/src/pieces.rs"]

SEARCH_TRUST = ["Vec, slices and array::map as specified in vstd and in verus/ida.py (`reverse`, `contains`, `last` of a vector's iterator, `map` of arrays)",
                "Cube3::clone and PartialEq are those of structures (derived)"]
SEARCH_ASSUMPTIONS = [
    "costs are exact: `f32` is treated as fixed-point numbers (verus/ida.py); heuristics of the code are multiples of 1/2 below 2^20, where f32 is exact",
    "heuristics, targets and successors are functions of the state (the closures have no effects), heuristics are between 0 and 2^40 units",
    "the searcher is given successors as a `Vec` (any type that iterates over them in the code); 0 <= max_depth < i32::MAX",
    "memory and the stack suffice",
]

CUBES = ["cube2", "cube3", "cube4", "cube5", "cube6", "cube7"]

PROPERTIES = {
    "C01": {
        "kani": UNDONE + SET_MOVES + DEPTH_SET_MOVES + ["space::moves_have_inverses"],
        "kani_thorough": SETS_THOROUGH,
        "verus": ["set_moves", "algs", "cube_moves"],
        "probes": [c + "_alg_is_undone" for c in CUBES],
        "functions": PIECE_FUNCTIONS + DEPTH_FUNCTIONS + SET_FUNCTIONS + INVERSES,
        "trusted": SET_TRUST + VERUS_TRUST,
    },
    "C02": {
        "kani": CORNER_EDGE + SET_MOVES,
        "verus": ["set_moves", "cube_moves"],
        "probes": ["cube2_is_rigid", "cube3_is_rigid"],
        "functions": PIECE_FUNCTIONS + SET_FUNCTIONS[:1],
        "trusted": SET_TRUST + VERUS_TRUST,
    },
    "C03": {
        "kani": CORNER_EDGE + DEPTH_PIECES + SET_MOVES + DEPTH_SET_MOVES,
        "kani_thorough": SETS_THOROUGH,
        "verus": ["set_moves", "cube_moves"],
        "probes": [c + "_is_rigid" for c in CUBES[2:]],
        "functions": PIECE_FUNCTIONS + DEPTH_FUNCTIONS + SET_FUNCTIONS,
        "trusted": SET_TRUST + VERUS_TRUST,
    },
    "C04": {
        "kani": NARROW + ["moves::wide_moves_are_made_within_their_depth", "moves::wide_moves_stay_within_their_depth",
                          "moves::cubes_follow_wide_0_moves"],
        "verus": ["wide_moves"],
        "probes": ["wide_moves_change_their_maximum_depth", "widened_algs_have_widened_moves", "cube4_axis_move_is_depth_0", "cube5_axis_move_is_depth_0", "cube6_axis_move_is_depth_0", "cube7_axis_move_is_depth_0",
                   "cube4_wide_0_move_is_depth_0", "cube5_wide_0_move_is_depth_0", "cube6_wide_0_move_is_depth_0", "cube7_wide_0_move_is_depth_0",
                   "cube6_wide_1_move_keeps_depth", "cube7_wide_1_move_keeps_depth"] +
                  [c + "_axis_move_is_rigid" for c in CUBES[2:]] + ["cube6_narrow_move_is_rigid", "cube7_narrow_move_is_rigid"],
        "functions": ["impl_movable_wide_move_inductively! (its expansions, for cubes of both maximum depths)", "WideAxisMove::new", "AxisMove::widen",
                      "WideAxisMove::set_depth", "WideAxisMove::set_max_depth", "<C as Movable<WideAxisMove<0>>>::apply"],
        "trusted": VERUS_TRUST + ["wide moves of different maximum depths are laid out alike (what the `transmute`s of the code rely on; Kani follows them on the actual layout)",
                                  "`map` and `collect` of the standard library, as specified in verus/wide.py"],
    },
    "C06": {
        "kani": ["sets::" + n for n in ("set_new_accepts_exactly_valid_sets", "set_lookups_are_inverse", "set_iterators_visit_each_piece_once",
                                        "set_swap_exchanges_two")] + SOLVED_PIECES[:6],
        "verus": ["sets", "set_moves"],
        "probes": [f"sets_of_{n}_are_bijections" for n in (8, 12, 24, 48)],
        "functions": ["PieceSet::{new,validate,piece_originally_at,original_position_of_piece_at,at_index,iter,iter_with_pos,into_iter,swap}", "find_duplicates"],
        "trusted": SET_TRUST + VERUS_TRUST,
    },
    "C05": {
        "kani": ["laws::" + n for n in (
            "flips_depend_on_the_position", "moves_flip_evenly", "twists_depend_on_the_position", "moves_twist_by_whole_turns",
            "x_moves_permute_with_one_parity", "y_moves_permute_with_one_parity", "z_moves_permute_with_one_parity",
            "position_indices_are_those_of_the_references", "orientation_indices_are_flips_and_twists",
            "flip_parity_gets_fixed", "corner_twists_get_fixed", "solved_cubes_obey_the_laws", "moves_keep_places_apart")] + SET_MOVES,
        "verus": ["laws", "set_moves", "cube_moves"],
        "probes": ["swap_parity_gets_fixed", "random_cubes_obey_the_laws", "moves_keep_the_laws"],
        "functions": ["<Cube3 as Movable<AxisMove>>::apply (by its pieces)", "fix_edge_flip_parity", "fix_corner_multiplicity",
                      "fix_swap_parity", "swap_cycles", "<Standard as Distribution<Cube3>>::sample", "<Standard as Distribution<Cube2>>::sample", "PieceSet::shuffle",
                      "<Corner as Movable<AxisMove>>::apply", "<Edge as Movable<AxisMove>>::apply", "OrientationIndexable, PositionIndexable"],
        "trusted": SET_TRUST + VERUS_TRUST + ["rand shuffles and draws only permute and choose"],
    },
    "C07": {
        "kani": ["sets::set_solved_iff_each_piece_is", P + "corner_sticker_is_injective", P + "edge_sticker_is_injective",
                 P + "wing_cubie_is_injective"] + SOLVED_PIECES,
        "verus": ["cube_solved", "sets"],
        "probes": [f"cube{n}_solved_iff_it_looks_so" for n in range(2, 8)] + [f"sets_of_{n}_are_solved_iff_their_pieces_are" for n in (8, 12, 24, 48)],
        "functions": ["PieceSet::is_solved", "DepthPieceSet::is_solved", "Piece::is_solved, of each kind of piece", "CenterCorner::is_solved",
                      "CenterEdge::is_solved", "CenterWing::is_solved", "Cube::is_solved (Cube4 to Cube7)"],
        "trusted": SET_TRUST + VERUS_TRUST,
    },
    "C08": {
        "kani": ["moves::" + n for n in ("absorve_composes", "non_redundant_moves_are_its_moves")] + LAWS + SET_MOVES,
        "verus": ["set_moves", "normalizing", "cube_moves"],
        "probes": ["normalized_algs_are_tidy_and_do_the_same"],
        "functions": ["absorve", "NonRedundantAxisMove::{moves,axis}"] + SET_FUNCTIONS[:1],
        "trusted": VERUS_TRUST + MOVES_TRUST + SET_TRUST,
    },
    "C09": {
        "kani": ["moves::" + n for n in ("absorve_composes", "non_redundant_moves_are_its_moves", "of_axis_is_complete",
                                         "all_non_redundant_is_complete", "cubes_follow_non_redundant_moves", "axis_moves_become_non_redundant")],
        "verus": ["random_algs", "lists"],
        "probes": ["random_algs_are_tidy", "given_last_axis_is_complete"],
        "functions": ["absorve", "NonRedundantAxisMove::{moves,axis,of_axis,all,given_last_axis,inverse,from}", "Axis::basis", "<C as Movable<NonRedundantAxisMove>>::apply"],
        "trusted": VERUS_TRUST + MOVES_TRUST + ["`choose` of the crate `rand` gives one of the elements, if there are any"],
    },
    "C10": {
        "kani": ["moves::" + n for n in ("quarter_moves_are_axis_moves", "axis_move_in_quarters", "cubes_follow_quarter_moves", "cubes_follow_wide_0_moves",
                                         "cubes_follow_non_redundant_moves", "axis_moves_become_non_redundant", "non_redundant_moves_are_its_moves")]
                + LAWS + SET_MOVES + DEPTH_SET_MOVES + NARROW,
        "verus": ["set_moves", "conversions", "cube_moves", "wide_moves"],
        "probes": ["converted_algs_do_the_same"],
        "functions": ["<AxisMove as From<&QuarterAxisMove>>::from", "<C as Movable<QuarterAxisMove>>::apply", "<C as Movable<WideAxisMove<0>>>::apply",
                      "<C as Movable<NonRedundantAxisMove>>::apply", "NonRedundantAxisMove::{moves,from}"] + SET_FUNCTIONS,
        "trusted": VERUS_TRUST + MOVES_TRUST + SET_TRUST,
    },
    "C11": {
        "kani": ["moves::non_redundant_moves_are_its_moves", "space::amounts_are_quarter_turns"],
        "verus": ["parsing"],
        "probes": ["moves_come_back_from_their_text", "wide_moves_come_back_from_their_text", "algs_come_back_from_their_text",
                   "non_redundant_moves_are_printed_as_their_moves", "text_is_read_as_it_is_written", "texts_of_algs_are_read_as_they_are_written",
                   "texts_of_parts_are_read_as_they_are_written"],
        "functions": ["grammar/cube_n.pest (translated)", "FromPest for Amount, Face, u32, Axis, AxisMove, AxisRotation, WideAxisMove<N>, ExtendedAxisMove",
                      "parse_{face_small,face_wide,slice,slice_move}", "Parsable::parse", "into_err", "AxisMove::new", "AxisRotation::new", "WideAxisMove::new",
                      "Display for Amount, Face, AxisMove, WideAxisMove, NonRedundantAxisMove, Alg", "Alg::parse", "<Alg as TryFrom<&str>>::try_from"],
        "trusted": VERUS_TRUST + [
            "pest: that the parser it generates takes the texts that the grammar describes, and gives the tokens that the grammar names",
            "text of std and itertools: split_whitespace, to_uppercase, join, parse::<u32> of one character, and how numbers are printed; a formatter that never fails"],
        "assumptions": ["wide moves of depth 2 or more are left out of what comes back (the known finding)"],
    },
    "C12": {
        "kani": INDICES,
        "kani_thorough": ["indexing::" + n for n in ("positions_of_8_have_their_index", "positions_of_6_in_12_have_their_index",
                                                     "corners_are_made_of_positions_and_orientations")],
        "verus": ["indexing", "indexing_cubes"],
        "probes": ["positions_of_8_have_their_index", "positions_of_6_in_12_have_their_index", "corners_are_made_of_positions_and_orientations",
                   "solved_corners_and_edges_are_number_zero", "cubes_come_back_from_their_indices", "corners_come_back_from_their_index",
                   "half_edges_come_back_from_their_index"],
        "functions": ["position_disposition_index", "orientation_permutation_index", "<CornersMUS as Indexable>::index", "<HalfEdgesMUS as Indexable>::index",
                      "deindex_positions", "deindex_orientations", "Deindexable::from_index", "Cube3::{edge_partition,indices,from_indices}", "fix_corner_multiplicity"],
        "trusted": VERUS_TRUST + INDEXING_TRUST,
    },
    "C13": {
        "kani": INDICES + ["pieces::corner_move_is_undone", "pieces::edge_move_is_undone", "moves::all_axis_moves_are_listed_once"],
        "kani_thorough": ["indexing::positions_of_8_have_their_index", "indexing::positions_of_6_in_12_have_their_index",
                          "indexing::corners_are_made_of_positions_and_orientations"],
        "verus": ["tables", "indexing"],
        "probes": ["solved_corners_and_edges_are_number_zero", "tables_of_small_patterns_are_exact"],
        "functions": ["cache_neighbours_at_depth", "build_partial", "amount_cached", "Stats::new (its amount_cached)", "PartialEntry::{none,get}"],
        "trusted": VERUS_TRUST + TABLE_TRUST + INDEXING_TRUST,
        "assumptions": ["each arrangement of the corners, and of half of the edges, can be solved in fewer than 255 moves (11 and 10 are enough, it is known): "
                        "a precondition of what is proved of `build_partial`"],
    },
    "C14": {
        "kani": ["indexing::half_turn_exchanges_the_halves", "indexing::half_turn_commutes_with_moves", "indexing::cube_indices_are_those_of_its_parts",
                 "indexing::lookup_is_the_largest_entry"],
        "verus": ["indexing_cubes"],
        "functions": ["Cube3::{edge_partition,indices,from_indices}", "Cache::get", "adjust_second_edges_for_{indexing,deindexing}"],
        "trusted": VERUS_TRUST + INDEXING_TRUST,
        "probes": ["cubes_come_back_from_their_indices", "cubes_are_looked_up"],
    },
    "C15": {
        "kani": ["moves::all_axis_moves_are_listed_once"],
        "verus": ["searches"],
        "probes": ["successors_are_the_moved_cubes", "crosses_are_solved_fast", "cubes_are_solved_optimally", "searches_of_graphs_find_solutions", "solvers_of_graphs_solve"],
        "trusted": VERUS_TRUST + SEARCH_TRUST,
        "assumptions": SEARCH_ASSUMPTIONS,
    },
    "C16": {
        "kani": ["moves::all_axis_moves_are_listed_once", "distance::distance_zero_is_home", "distance::distance_drops_by_one_at_most",
                 "distance::cross_heuristic_is_the_largest_distance"],
        "verus": ["searches"],
        "probes": ["successors_are_the_moved_cubes", "cubes_are_solved_optimally", "crosses_are_solved_optimally", "searches_of_graphs_are_optimal", "solvers_of_graphs_solve"],
        "functions": ["min_moves_to_solve", "worse_but_admissable_cross_heuristic"],
        "trusted": VERUS_TRUST + SEARCH_TRUST,
        "assumptions": SEARCH_ASSUMPTIONS,
    },
    "C17": {
        "kani": ["distance::distance_zero_is_home", "distance::distance_drops_by_one_at_most", "distance::distance_drops_by_some_move"],
        "verus": ["distance_is_exact"],
        "probes": ["edge_distance_is_exact"],
        "functions": ["min_moves_to_solve"],
    },
    "C18": {
        "kani": ["distance::" + n for n in ("cross_edges_touch_the_face", "cross_pieces_are_the_four_that_touch_the_face",
                                            "cross_count_is_that_of_edges_at_home", "cross_heuristic_is_the_largest_distance",
                                            "good_cross_heuristic_is_half_the_distances", "distance_zero_is_home", "distance_drops_by_one_at_most")],
        "verus": ["searches"],
        "probes": ["cross_heuristic_is_admissible", "crosses_are_solved_fast", "crosses_are_solved_optimally"],
        "functions": ["is_cross_edge", "get_cross_pieces", "count_cross_pieces", "good_cross_heuristic", "worse_but_admissable_cross_heuristic",
                      "min_moves_to_solve"],
        "trusted": VERUS_TRUST + SEARCH_TRUST,
        "assumptions": SEARCH_ASSUMPTIONS,
    },
    "C19": {
        "kani": ["orient::" + n for n in (
            "orientation_is_where_two_faces_are", "orientations_are_equal_if_their_faces_are", "default_orientation_is_upright",
            "orientation_rotates", "rotations_lead_to_the_orientation", "to_default_is_the_inverse_map",
            "a_rotated_cube_makes_the_move_that_is_seen")] + ["space::rotated_moves_are_conjugates", "space::rotations_turn_what_they_rotate"],
        "functions": ["Orientation::{new,try_new,selected,rotations_from_default,to_default,default}", "<Orientation as Rotatable>::rotate",
                      "<Orientable<C> as Movable<M>>::apply", "Orientable::new", "Rotatable for AxisMove, WideAxisMove"],
    },
    "C20": {
        "kani": [f"orient::extended_{n}_turns_the_layers_seen" for n in range(2, 8)] + ["orient::extended_moves_have_inverses", "orient::moves_become_extended"],
        "kani_thorough": [f"orient::extended_{n}_is_as_seen" for n in range(2, 8)],
        "probes": [f"extended_{n}_is_as_seen" for n in range(2, 8)],
        "functions": ["<Orientable<C> as Movable<ExtendedAxisMove>>::apply (its expansions for 2 to 7)", "ExtendedAxisMove::{inverse,from}"],
        "trusted": ["the cubes get their extended moves from the same macro as the recorders"],
    },
    "C21": {
        "kani": ["net::" + n for n in (
            "solved_corner_shows_its_faces", "solved_edge_shows_its_faces", "corner_stickers_move_with_it", "edge_stickers_move_with_it",
            "stickers_are_on_their_piece", "the_net_starts_solved", "squares_are_where_the_net_folds", "colorschemes_are_in_the_order_of_the_faces",
            "stickers_of_corners_have_their_own_squares", "stickers_of_edges_have_their_own_squares", "corners_and_edges_have_their_own_squares")]
                + ["distance::edges_and_corners_have_coordinates"],
        "verus": ["net", "drawing"],
        "probes": ["the_net_shows_the_moves", "the_net_gets_the_stickers", "the_drawing_shows_the_net", "cubes_are_drawn_as_their_nets"],
        "functions": ["Colored for Corner, Edge", "Coordinates for Corner, Edge", "Square::{at,at_mut}", "Unfolded::{default,index,at_mut,populate_with}",
                      "<Unfolded<3> as From<Cube3>>::from", "Colorscheme::{new,get}", "Square::write", "Unfolded::{write,fmt}", "<Cube3 as Display>::fmt"],
        "trusted": VERUS_TRUST + ["`at_mut(..).unwrap()` is one function in verus/net.py; the pairs that `iter_with_pos` gives are taken as a vector (its contract is that of verus/sets.py)",
                               "crossterm and `Color::write`: the escape sequences of a color, which only a probe reads"],
    },
    "C22": {
        "kani": ["moves::connect_finds_a_move_that_leads_there", "moves::all_axis_moves_are_listed_once"],
        "verus": ["states", "algs"],
        "probes": ["algs_come_back_from_their_states"],
        "functions": ["connect", "Alg::try_from_states", "<Alg as TryFrom<&[T]>>::try_from", "Alg::new", "AxisMove::all", "<AxisMove as IntoEnumIterator>::iter"],
        "trusted": VERUS_TRUST + ["`==` of states is what is derived: that all their parts are the same"],
    },
    "C23": {
        "kani": SPACE,
        "verus": ["algs"],
        "probes": ["rotated_algs_have_rotated_moves"],
        "functions": ["Axis::{basis,map_on_slice,offset,next,prev,next_with_handedness,get_handedness,other}", "Direction::{neg,scalar}",
                      "Face::{iter,opposite,next_around,prev_around,contains_vector,contains_edge,cross,coords,index}",
                      "Amount::{add,mul,from}", "AxisRotation::{inverse,from}", "Rotatable for Face, Vec3, Axis, AxisMove, Corner, Edge", "rotate_vec2",
                      "Wing::{faces,try_from_faces,new,normal_direction}", "CenterEdge::{try_from_faces,side_face,normal_axis}", "Rotatable for Alg<AxisMove>", "Rotatable::rotated",
                      "Edge::{faces,position_from_faces,orientation_face,non_orientation_face,direction_on_axis,try_from}", "Corner::faces", "slice_coords"],
        "trusted": VERUS_TRUST,
    },
    "C24": {
        "verus": ["loading", "tables"],
        "kani": ["tables::each_kind_of_table_has_a_file"],
        "probes": ["tables_are_those_on_the_disk", "tables_that_lack_entries_are_refused"],
        "functions": ["load_partial", "write_partial", "load_or_build_partial", "load", "load_or_build", "assert_correct_cache_size", "build_partial"],
        "trusted": VERUS_TRUST + TABLE_TRUST + [
            "std::fs and std::io are as specified in verus/tables.py: what `read` gives is what the file holds, and what was written is what it holds from then on; "
            "a storing that is cut short leaves a shorter file"],
        "assumptions": ["each arrangement can be solved in fewer than 255 moves (see C13)", "no other process writes the files meanwhile"],
    },
    "C25": {
        "verus": ["loading", "indexing"],
        "kani": ["moves::all_axis_moves_are_listed_once", "indexing::cube_indices_are_those_of_its_parts", "indexing::lookup_is_the_largest_entry",
                 "indexing::corners_index_is_made_of_two", "indexing::half_edges_index_is_made_of_two",
                 "indexing::dispositions_of_8_have_their_index", "indexing::dispositions_of_6_in_12_have_their_index", "indexing::orientations_have_their_index",
                 "sets::set_new_accepts_exactly_valid_sets", "sets::set_of_8_moves_each", "sets::set_of_12_moves_each"],
        "probes": ["tables_that_lack_entries_are_refused"],
        "functions": ["AxisMove::all", "Cache::get", "Cube3::indices"],
        "trusted": VERUS_TRUST + TABLE_TRUST,
    },
}

# What each check gives, and what it trusts (for MANIFEST.json)
GENERIC = (" Every obligation is discharged from the current sources on every run; what is trusted is listed in the evidence"
           " (tools, reference geometry, the composition argument of DESIGN.md).")
NOTES = {
    "C01": "Proved for all states, moves and algs: single pieces and sets by Kani, whole cubes and algs of any length by Verus." + GENERIC,
    "C02": "Proved for all states and moves: pieces and sets by Kani against a reference geometry, whole cubes by Verus." + GENERIC,
    "C03": "Proved for all states and moves: each kind of piece at each depth and sets by Kani, whole cubes by Verus. Sets of 48 pieces in the thorough tier." + GENERIC,
    "C04": "Proved for all depths and maximum depths by Verus, also the narrower moves of each cube (the macro that writes them is expanded mechanically); on the actual layout of moves by Kani." + GENERIC,
    "C05": "Proved for algs of any length and random cubes of any choices by Verus (parity of permutations by exchanging entries, sums over permuted places), over what Kani proves of all pieces, places and moves." + GENERIC,
    "C06": "Proved for sets of any size and any kind of piece by Verus (also by Kani for small sets of an abstract piece, without the contracts that Verus assumes of arrays and iterators)." + GENERIC,
    "C07": "Proved for all states: pieces and sets, 2x2x2 and 3x3x3 as a whole by Kani, bigger cubes by Verus." + GENERIC,
    "C08": "Proved for all algs of any length by Verus, over the contract of `absorve` and the laws of turns, which Kani proves for all moves and pieces." + GENERIC,
    "C09": "Proved for all moves by Kani, and for random algs of any length and any choices by Verus, as are the lists of moves of the other axes and of all axes." + GENERIC,
    "C10": "Proved for all algs of any length by Verus, and for all moves and pieces by Kani." + GENERIC,
    "C11": "Proved for all moves, algs of any length and all texts by Verus, over the grammar as it is, but for wide moves of depth 2 or more, which do not come back (known finding)." + GENERIC,
    "C12": "Proved for all arrangements and indices by Verus, for any number of places, pieces and orientations, over what Kani proves of each piece; and that whole cubes come back from their indices; also by Kani on the code as compiled, for 8 corners and 6 edges of 12." + GENERIC,
    "C13": "Proved by Verus for all kinds of patterns that are numbered as C12 says and whose moves can be undone (C01), if none is 255 or more moves from solved; small kinds are also built and compared." + GENERIC,
    "C14": "Proved for all states and moves." + GENERIC,
    "C15": "Proved for all graphs, targets, heuristics and depths by Verus, and for the searches of 3x3x3 cubes and crosses that use it; that the successors of a cube are its moved copies is proved over the contract of `array::map`." + GENERIC,
    "C16": "Proved for all graphs, targets and depths, and all heuristics that never overestimate, by Verus; the heuristic of crosses is proved to be one." + GENERIC,
    "C17": "Proved for all edges and moves, by a potential: zero iff solved, drops by at most one, and by one for some move." + GENERIC,
    "C18": "Proved for all states: pieces, count and heuristics. The search is that of C15 and C16, and its result is proved to be a shortest one by Verus." + GENERIC,
    "C19": "Proved for all orientations, rotations and moves." + GENERIC,
    "C20": "Proved for all orientations and extended moves, for cubes of each size that record their moves (made by the same macro)." + GENERIC,
    "C21": "Proved for all states: stickers of pieces and squares by Kani, the assembly of the net and its layout as text by Verus." + GENERIC,
    "C22": "Proved for all kinds of states and sequences of any length by Verus; the connecting move also by Kani, for an arbitrary table of results of the 18 moves." + GENERIC,
    "C23": "Proved for all values by Kani, for algs of any length by Verus." + GENERIC,
    "C24": "Proved by Verus over contracts of std::fs (the file system itself is trusted), and run on a real folder." + GENERIC,
    "C25": "Proved for all states and moves, and that the tables that are looked up have all entries: Kani checks each memory access of the code that it runs." + GENERIC,
}

NOT_APPLICABLE = {}

//! Contracts of distances: how far an edge is from where it belongs, and the cross.

use barbarosa::{
    cube_n::{
        cube3::{
            cfop::cross::{
                count_cross_pieces, get_cross_pieces, good_cross_heuristic, is_cross_edge, solve_cross, solve_cross_fast,
                worse_but_admissable_cross_heuristic,
            },
            heuristics::{manhattan, manhattan::{manhattan_filtered, piece_manhattan, vec_manhattan}, zero},
            Cube3,
        },
        pieces::edge::min_moves_to_solve,
        moves::Amount,
        space::{Axis, Direction, Face},
        AxisMove, Corner, Edge,
    },
    generic::{piece::{Coordinates, PieceSetDescriptor}, Cube, Movable, Piece},
};

use nalgebra::Vector2;

use crate::{choice::Gen, geom::*, laws::{any_corners, any_edges}, obligations, probes, values::*};

fn at_home(original: &<Edge as Piece>::Position, edge: &Edge) -> bool {
    edge_sticker(edge, 3) == edge_sticker(&Edge::oriented(original.0, original.1), 3)
}

fn touches(position: &<Edge as Piece>::Position, face: &Face) -> bool {
    dot(edge_vector(position), normal(face)) == 1
}

fn original(g: &mut impl Gen) -> <Edge as Piece>::Position {
    edge_position(g)
}

fn axis_at(i: u8) -> Axis {
    match i {
        0 => Axis::X,
        1 => Axis::Y,
        _ => Axis::Z,
    }
}

fn direction_at(i: u8) -> Direction {
    if i == 0 {
        Direction::Positive
    } else {
        Direction::Negative
    }
}

fn amount_at(i: u8) -> Amount {
    match i {
        0 => Amount::Single,
        1 => Amount::Double,
        _ => Amount::Inverse,
    }
}

fn position_of(i: usize) -> <Edge as Piece>::Position {
    (axis_at((i / 4) as u8), Vector2::new(direction_at((i / 2 % 2) as u8), direction_at((i % 2) as u8)))
}

/// Stands for any distance from 0 to 3: what is proved with it does not depend on what the distance is
pub fn some_distance(home: &<Edge as Piece>::Position, edge: &Edge) -> i32 {
    let bit = |d: Direction| (sign(d) > 0) as i32;
    let e = bit(edge.slice_position.x) + 2 * edge.oriented as i32;
    let h = bit(home.1.x) + 2 * bit(home.1.y);
    e ^ h
}

/// For each home (12) and edge (24), the first move of a shortest solution: 6 * axis + 3 * direction + amount
#[rustfmt::skip]
const FIRST_MOVES: [u8; 288] = [
    0, 6, 7, 6, 13, 9, 10, 9, 0, 14, 5, 12, 2, 1, 3, 4, 6, 2, 1, 0, 8, 3, 4, 5,
    7, 6, 0, 6, 10, 9, 16, 9, 0, 1, 5, 4, 2, 15, 3, 17, 8, 0, 1, 2, 6, 5, 4, 3,
    13, 6, 7, 6, 0, 9, 10, 9, 2, 12, 3, 14, 0, 1, 5, 4, 1, 2, 11, 0, 4, 3, 9, 5,
    7, 6, 16, 6, 10, 9, 0, 9, 2, 1, 3, 4, 0, 17, 5, 15, 1, 0, 9, 2, 4, 5, 11, 3,
    8, 12, 6, 7, 9, 14, 11, 10, 0, 0, 13, 3, 1, 0, 4, 3, 2, 6, 0, 11, 3, 8, 5, 9,
    6, 14, 8, 7, 11, 12, 9, 10, 13, 0, 0, 3, 1, 0, 4, 3, 2, 6, 0, 11, 3, 8, 5, 9,
    8, 7, 6, 17, 9, 10, 11, 15, 1, 0, 4, 3, 0, 0, 16, 3, 0, 8, 2, 9, 5, 6, 3, 11,
    6, 7, 8, 15, 11, 10, 9, 17, 1, 0, 4, 3, 16, 0, 0, 3, 0, 8, 2, 9, 5, 6, 3, 11,
    8, 12, 6, 17, 9, 14, 11, 15, 0, 14, 5, 12, 2, 15, 3, 17, 0, 0, 1, 0, 7, 3, 4, 3,
    8, 12, 6, 17, 9, 14, 11, 15, 2, 12, 3, 14, 0, 17, 5, 15, 1, 0, 0, 0, 4, 3, 10, 3,
    6, 14, 8, 15, 11, 12, 9, 17, 0, 14, 5, 12, 2, 15, 3, 17, 7, 0, 1, 0, 0, 3, 4, 3,
    6, 14, 8, 15, 11, 12, 9, 17, 2, 12, 3, 14, 0, 17, 5, 15, 1, 0, 10, 0, 4, 3, 0, 3,
];

/// Moves made on a solved cube
fn scrambled(g: &mut impl Gen, most: u32) -> (Cube3, u32) {
    let mut cube = Cube3::SOLVED;
    let n = g.int(most + 1);
    for _ in 0..n {
        cube.apply(&axis_move(g));
    }
    (cube, n)
}

fn cross_is_solved(cube: &Cube3, face: &Face) -> bool {
    let mut solved = true;
    for i in 0..12 {
        let home = Edge::REFERENCE_POSITIONS[i];
        if touches(&home, face) {
            solved &= at_home(&home, &cube.edges.pieces()[i]);
        }
    }
    solved
}

/// Whether at most `moves` moves solve the cross
fn cross_within(cube: &Cube3, face: &Face, moves: u32) -> bool {
    cross_is_solved(cube, face)
        || moves > 0 && AxisMove::all().iter().any(|m| cross_within(&cube.clone().moved(m), face, moves - 1))
}

obligations! {
    /// Only edges at home are at distance zero, and none is further than three moves
    #[unwind(9)]
    fn distance_zero_is_home(g) {
        let (home, e) = (original(g), edge(g));
        let d = min_moves_to_solve(&home, &e);
        assert!(0 <= d && d <= 3);
        assert!((d == 0) == at_home(&home, &e));
        assert!(e.is_solved(&home) == at_home(&home, &e));
    }
    /// A move brings an edge nearer by at most one
    #[unwind(9)]
    fn distance_drops_by_one_at_most(g) {
        let (home, e, m) = (original(g), edge(g), axis_move(g));
        let d = min_moves_to_solve(&home, &e);
        assert!(min_moves_to_solve(&home, &e.moved(&m)) + 1 >= d);
    }
    /// Some move brings it nearer
    #[unwind(9)]
    fn distance_drops_by_some_move(g) {
        // The witness is from the geometry: the first move of a shortest solution
        let (i, j) = (g.index(12), g.index(24));
        let home = position_of(i);
        let (normal, slice) = position_of(j / 2);
        let e = Edge::new(normal, slice, j % 2 == 0);
        let d = min_moves_to_solve(&home, &e);
        if d == 0 {
            return;
        }
        let w = FIRST_MOVES[i * 24 + j];
        let m = AxisMove::new(Face::new(axis_at(w / 6), direction_at(w / 3 % 2)), amount_at(w % 3));
        assert!(min_moves_to_solve(&home, &e.moved(&m)) == d - 1);
    }
    #[unwind(9)]
    fn cross_edges_touch_the_face(g) {
        let (home, f) = (original(g), face(g));
        assert!(is_cross_edge(&home, &f) == touches(&home, &f));
    }
    #[unwind(9)]
    fn cross_pieces_are_the_four_that_touch_the_face(g) {
        let f = face(g);
        let four = get_cross_pieces(&f);
        let home = original(g);
        let mut n = 0;
        for position in &four {
            n += (*position == home) as u8;
        }
        assert!(n == touches(&home, &f) as u8);
    }
    #[unwind(14)]
    fn cross_count_is_that_of_edges_at_home(g) {
        let f = face(g);
        let mut cube = Cube3::SOLVED;
        cube.edges = any_edges(g);
        let mut n = 0;
        for i in 0..12 {
            let home = Edge::REFERENCE_POSITIONS[i];
            n += (touches(&home, &f) && at_home(&home, &cube.edges.pieces()[i])) as i32;
        }
        assert!(count_cross_pieces(&cube, &f) == n);
    }
    /// The admissible heuristic is the distance of the cross piece that is furthest
    #[unwind(14)]
    #[stub(barbarosa::cube_n::pieces::edge::min_moves_to_solve, crate::distance::some_distance)]
    fn cross_heuristic_is_the_largest_distance(g) {
        let f = face(g);
        let mut cube = Cube3::SOLVED;
        cube.edges = any_edges(g);
        let mut largest = 0;
        for i in 0..12 {
            let home = Edge::REFERENCE_POSITIONS[i];
            if touches(&home, &f) {
                let d = min_moves_to_solve(&home, &cube.edges.pieces()[i]);
                largest = if d > largest { d } else { largest };
            }
        }
        assert!(worse_but_admissable_cross_heuristic(&cube, &f) == largest as f32);
    }
    #[unwind(14)]
    #[stub(barbarosa::cube_n::pieces::edge::min_moves_to_solve, crate::distance::some_distance)]
    fn good_cross_heuristic_is_half_the_distances(g) {
        let f = face(g);
        let mut cube = Cube3::SOLVED;
        cube.edges = any_edges(g);
        let mut sum = 0;
        for i in 0..12 {
            let home = Edge::REFERENCE_POSITIONS[i];
            if touches(&home, &f) {
                sum += min_moves_to_solve(&home, &cube.edges.pieces()[i]);
            }
        }
        assert!(good_cross_heuristic(&cube, &f) == sum as f32 / 2.0);
    }
    #[unwind(9)]
    fn edges_and_corners_have_coordinates(g) {
        let (e, c) = (edge(g), corner(g));
        let near = |v: nalgebra::Vector3<f32>, w: V| v.x == w[0] as f32 && v.y == w[1] as f32 && v.z == w[2] as f32;
        assert!(near(e.coordinates(), edge_vector(&e.position())));
        assert!(near(c.coordinates(), corner_vector(&c.position())));
        assert!(near(Edge::coordinates_pos(e.position()), edge_vector(&e.position())));
        assert!(near(Corner::coordinates_pos(c.position()), corner_vector(&c.position())));
    }
    #[unwind(9)]
    fn manhattan_of_pieces_is_that_of_where_they_are(g) {
        let (home, e) = (original(g), edge(g));
        let (v, w) = (edge_vector(&e.position()), edge_vector(&home));
        let far = |v: V, w: V| (v[0] - w[0]).abs() + (v[1] - w[1]).abs() + (v[2] - w[2]).abs();
        assert!(piece_manhattan(home, &e) == far(v, w) as f32);
        let (home, c) = (corner_position(g), corner(g));
        assert!(piece_manhattan(home, &c) == far(corner_vector(&c.position), corner_vector(&home)) as f32);
        assert!(vec_manhattan(&c.coordinates(), &Corner::coordinates_pos(home)) == far(corner_vector(&c.position), corner_vector(&home)) as f32);
    }
}

probes! {
    /// A solution of a cross solves it, and is as short as can be
    fn crosses_are_solved_optimally(g) {
        let f = face(g);
        let (cube, _) = scrambled(g, 3);
        let (alg, solved) = solve_cross(&cube, &f).expect("there is a solution");
        assert!(cube.clone().moved(&alg) == solved, "the moves do not lead to the cube");
        assert!(cross_is_solved(&solved, &f), "the cross is not solved");
        let n = alg.moves.len() as u32;
        assert!(n == 0 || !cross_within(&cube, &f, n - 1), "there is a shorter solution");
    }
    fn crosses_are_solved_fast(g) {
        let f = face(g);
        let (cube, _) = scrambled(g, 3);
        let (alg, solved) = solve_cross_fast(&cube, &f).expect("there is a solution");
        assert!(cube.clone().moved(&alg) == solved, "the moves do not lead to the cube");
        assert!(cross_is_solved(&solved, &f), "the cross is not solved");
    }
    /// Solving with any admissible heuristic is optimal
    fn cubes_are_solved_optimally(g) {
        let (cube, n) = scrambled(g, 3);
        let furthest = |cube: &Cube3| cube.edges.iter_with_pos().map(|(home, edge)| min_moves_to_solve(&home, edge)).max().unwrap() as f32;
        let alg = if g.flag() { cube.solve_with_heuristic(zero) } else { cube.solve_with_heuristic(furthest) }.expect("there is a solution");
        assert!(cube.moved(&alg).is_solved(), "the solution does not solve the cube");
        assert!(alg.moves.len() as u32 <= n, "there is a shorter solution");
    }
    fn manhattan_adds_up(g) {
        let mut cube = Cube3::SOLVED;
        cube.edges = any_edges(g);
        cube.corners = any_corners(g);
        let (mut e, mut c) = (0.0, 0.0);
        for i in 0..12 {
            e += piece_manhattan(Edge::REFERENCE_POSITIONS[i], &cube.edges.pieces()[i]);
        }
        for i in 0..8 {
            c += piece_manhattan(Corner::REFERENCE_POSITIONS[i], &cube.corners.pieces()[i]);
        }
        assert!(manhattan(&cube) == (e + c) / 16.0);
        assert!(manhattan_filtered(&cube.edges, |_, _| true) == e);
        assert!(manhattan_filtered(&cube.corners, |_, _| false) == 0.0);
    }
    /// The edge distance is the distance: against breadth-first search
    fn edge_distance_is_exact(g) {
        let (home, e) = (original(g), edge(g));
        let d = min_moves_to_solve(&home, &e);
        fn within(home: &<Edge as Piece>::Position, e: &Edge, moves: i32) -> bool {
            at_home(home, e) || moves > 0 && AxisMove::all().iter().any(|m| within(home, &e.clone().moved(m), moves - 1))
        }
        assert!(within(&home, &e, d), "the edge needs more than {d} moves");
        assert!(d == 0 || !within(&home, &e, d - 1), "the edge needs less than {d} moves");
    }
    /// One move on a cube does not lower the heuristic of the cross by more than one
    fn cross_heuristic_is_admissible(g) {
        let f = face(g);
        let (cube, n) = scrambled(g, 8);
        let _ = n;
        let h = worse_but_admissable_cross_heuristic(&cube, &f);
        assert!((h == 0.0) == cross_is_solved(&cube, &f), "only a solved cross is at distance zero");
        let m = axis_move(g);
        assert!(worse_but_admissable_cross_heuristic(&cube.moved(&m), &f) >= h - 1.0, "one move lowers it by more than one");
    }
}

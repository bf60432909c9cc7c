//! Contracts of the laws of the cube: the flips of its edges are even, the twists of its corners add up to whole
//! turns, and its edges and corners are permuted with the same parity. Moves keep the laws, and the functions that
//! make random cubes restore them.

use barbarosa::{
    cube_n::{
        invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity},
        cube3::{
            mus::index::{OrientationIndexable, PositionIndexable},
            Cube3,
        },
        pieces::{corner::CornerSet, edge::EdgeSet},
        space::{Axis, Face},
        AxisMove, Corner, Edge,
    },
    generic::{piece::PieceSetDescriptor, Cube, Movable},
};

use crate::{choice::Gen, geom::*, obligations, probes, values::*};

/// Any edges, also such that no set has
pub fn any_edges(g: &mut impl Gen) -> EdgeSet {
    let mut set = EdgeSet::SOLVED;
    for place in set.iter_mut_unchecked() {
        *place = edge(g);
    }
    set
}

pub fn any_corners(g: &mut impl Gen) -> CornerSet {
    let mut set = CornerSet::SOLVED;
    for place in set.iter_mut_unchecked() {
        *place = corner(g);
    }
    set
}

/// Counter-clockwise twists, from the geometry of the sticker that belongs on U or D
pub fn twist_of(corner: &Corner) -> u8 {
    let v = corner_vector(&corner.position);
    let (_, facing) = corner_sticker(corner, 3);
    let vertical = [0, v[1], 0];
    // Facing the corner, going around it counter-clockwise from the vertical face: the cross product of two
    // neighbouring normals points to the third
    if facing == vertical {
        0
    } else if dot(cross(vertical, facing), v) > 0 {
        1
    } else {
        2
    }
}

fn flips(edges: &EdgeSet) -> usize {
    let mut n = 0;
    for edge in edges.pieces() {
        n += !edge.oriented as usize;
    }
    n
}

fn twists(corners: &CornerSet) -> usize {
    let mut n = 0;
    for corner in corners.pieces() {
        n += twist_of(corner) as usize;
    }
    n
}

/// Whether a permutation is odd: it has an odd number of inversions
pub fn odd<const N: usize>(p: [usize; N]) -> bool {
    let mut odd = false;
    let mut i = 0;
    while i < N {
        let mut j = i + 1;
        while j < N {
            odd ^= p[j] < p[i];
            j += 1;
        }
        i += 1;
    }
    odd
}

fn position_of_edge(edge: &Edge) -> usize {
    let mut found = 12;
    let mut i = 0;
    while i < 12 {
        if edge_vector(&Edge::REFERENCE_POSITIONS[i]) == edge_vector(&(edge.normal_axis, edge.slice_position)) {
            found = i;
        }
        i += 1;
    }
    found
}

fn position_of_corner(corner: &Corner) -> usize {
    let mut found = 8;
    let mut i = 0;
    while i < 8 {
        if corner_vector(&Corner::REFERENCE_POSITIONS[i]) == corner_vector(&corner.position) {
            found = i;
        }
        i += 1;
    }
    found
}

fn edge_permutation(edges: &EdgeSet) -> [usize; 12] {
    let mut p = [0; 12];
    for i in 0..12 {
        p[i] = position_of_edge(&edges.pieces()[i]);
    }
    p
}

fn corner_permutation(corners: &CornerSet) -> [usize; 8] {
    let mut p = [0; 8];
    for i in 0..8 {
        p[i] = position_of_corner(&corners.pieces()[i]);
    }
    p
}

fn permuted<T: Clone, const N: usize>(g: &mut impl Gen, from: &[T; N]) -> [T; N] {
    let mut to = from.clone();
    for i in (1..N).rev() {
        let j = g.index(i + 1);
        to.swap(i, j);
    }
    to
}

fn permutes_with_one_parity(g: &mut impl Gen, axis: Axis) {
    let m = AxisMove::new(Face::new(axis, direction(g)), amount(g));
    let mut edges = [0; 12];
    for i in 0..12 {
        edges[i] = position_of_edge(&Edge::SOLVED[i].clone().moved(&m));
        assert!(edges[i] < 12);
    }
    let mut corners = [0; 8];
    for i in 0..8 {
        corners[i] = position_of_corner(&Corner::SOLVED[i].clone().moved(&m));
        assert!(corners[i] < 8);
    }
    assert!(odd(edges) == odd(corners));
}

obligations! {
    /// A move flips an edge by how much depends on where it is only
    #[unwind(9)]
    fn flips_depend_on_the_position(g) {
        let (mut a, m) = (edge(g), axis_move(g));
        let mut b = a.clone();
        b.oriented = !b.oriented;
        a.apply(&m);
        b.apply(&m);
        assert!(a.normal_axis == b.normal_axis && a.slice_position == b.slice_position && a.oriented != b.oriented);
    }
    /// A move flips an even number of the twelve positions
    #[unwind(14)]
    fn moves_flip_evenly(g) {
        let m = axis_move(g);
        let mut n = 0;
        for edge in Edge::SOLVED {
            n += !edge.moved(&m).oriented as usize;
        }
        assert!(n % 2 == 0);
    }
    /// A move twists a corner by how much depends on where it is only
    #[unwind(9)]
    fn twists_depend_on_the_position(g) {
        let (a, m) = (corner(g), axis_move(g));
        let b = Corner::oriented(a.position);
        let (s, t) = (a.clone().moved(&m), b.moved(&m));
        assert!(s.position == t.position);
        assert!((twist_of(&s) + 3 - twist_of(&a)) % 3 == twist_of(&t));
    }
    #[unwind(14)]
    fn moves_twist_by_whole_turns(g) {
        let m = axis_move(g);
        let mut n = 0;
        for corner in Corner::SOLVED {
            n += twist_of(&corner.moved(&m)) as usize;
        }
        assert!(n % 3 == 0);
    }
    /// A move permutes the positions of the edges and those of the corners with the same parity
    #[unwind(14)]
    fn x_moves_permute_with_one_parity(g) { permutes_with_one_parity(g, Axis::X) }
    #[unwind(14)]
    fn y_moves_permute_with_one_parity(g) { permutes_with_one_parity(g, Axis::Y) }
    #[unwind(14)]
    fn z_moves_permute_with_one_parity(g) { permutes_with_one_parity(g, Axis::Z) }
    /// The indices of positions and of orientations
    #[unwind(14)]
    fn position_indices_are_those_of_the_references(g) {
        let (e, c) = (edge(g), corner(g));
        assert!(e.position_index() == position_of_edge(&e) && e.position_index() < 12);
        assert!(c.position_index() == position_of_corner(&c) && c.position_index() < 8);
    }
    #[unwind(14)]
    fn orientation_indices_are_flips_and_twists(g) {
        let (mut e, mut c) = (edge(g), corner(g));
        assert!(OrientationIndexable::orientation_index(&e) == !e.oriented as usize);
        assert!(OrientationIndexable::orientation_index(&c) == twist_of(&c) as usize);
        assert!(c.is_oriented() == (twist_of(&c) == 0));
        let before = e.clone();
        e.flip();
        assert!(e == before.clone().flipped() && e.oriented != before.oriented);
        assert!(e.normal_axis == before.normal_axis && e.slice_position == before.slice_position);
        let before = c.clone();
        c.twist();
        assert!(c.position == before.position && twist_of(&c) == (twist_of(&before) + 1) % 3);
    }
    /// Solved cubes obey the laws
    #[unwind(14)]
    fn solved_cubes_obey_the_laws(g) {
        let (i, j) = (g.index(12), g.index(8));
        assert!(position_of_edge(&Edge::SOLVED[i]) == i && Edge::SOLVED[i].oriented);
        assert!(position_of_corner(&Corner::SOLVED[j]) == j && twist_of(&Corner::SOLVED[j]) == 0);
        let (cube, small) = (Cube3::SOLVED, barbarosa::cube_n::Cube2::SOLVED);
        for k in 0..12 {
            assert!(cube.edges.pieces()[k] == Edge::SOLVED[k]);
        }
        for k in 0..8 {
            assert!(cube.corners.pieces()[k] == Corner::SOLVED[k] && small.corners.pieces()[k] == Corner::SOLVED[k]);
        }
    }
    /// A move does not bring two places to one, and where it takes a piece depends on where it is only
    #[unwind(14)]
    fn moves_keep_places_apart(g) {
        let (a, b, m) = (edge(g), edge(g), axis_move(g));
        let (c, d) = (a.clone().moved(&m), b.clone().moved(&m));
        assert!((edge_vector(&(a.normal_axis, a.slice_position)) == edge_vector(&(b.normal_axis, b.slice_position)))
            == (edge_vector(&(c.normal_axis, c.slice_position)) == edge_vector(&(d.normal_axis, d.slice_position))));
        let (a, b) = (corner(g), corner(g));
        let (c, d) = (a.clone().moved(&m), b.clone().moved(&m));
        assert!((corner_vector(&a.position) == corner_vector(&b.position)) == (corner_vector(&c.position) == corner_vector(&d.position)));
    }
    /// The number of flips becomes even; nothing changes but perhaps the flip of the last edge
    #[unwind(14)]
    fn flip_parity_gets_fixed(g) {
        let before = any_edges(g);
        let mut after = before.clone();
        fix_edge_flip_parity(&mut after);
        assert!(flips(&after) % 2 == 0);
        let (a, b) = (after.pieces(), before.pieces());
        for i in 0..12 {
            assert!(a[i] == b[i] || (i == 11 && a[i] == b[i].clone().flipped()));
        }
    }
    #[unwind(14)]
    fn corner_twists_get_fixed(g) {
        let before = any_corners(g);
        let mut after = before.clone();
        fix_corner_multiplicity(&mut after);
        assert!(twists(&after) % 3 == 0);
        let (a, b) = (after.pieces(), before.pieces());
        for i in 0..8 {
            assert!(a[i].position == b[i].position);
            assert!(i == 7 || a[i].orientation_axis == b[i].orientation_axis);
        }
    }
}

probes! {
    /// Edges and corners get the same parity; nothing changes but perhaps the first two edges, which are exchanged
    fn swap_parity_gets_fixed(g) {
        let mut cube = Cube3::SOLVED;
        // Enumeration changes the last choices first
        cube.corners = CornerSet::new(permuted(g, &Corner::SOLVED)).unwrap();
        cube.edges = EdgeSet::new(permuted(g, &Edge::SOLVED)).unwrap();
        let before = cube.clone();
        fix_swap_parity(&mut cube);
        assert!(odd(edge_permutation(&cube.edges)) == odd(corner_permutation(&cube.corners)), "parities differ");
        assert!(cube.corners == before.corners);
        let mut swapped = before.clone();
        swapped.edges.swap(&Edge::REFERENCE_POSITIONS[0], &Edge::REFERENCE_POSITIONS[1]);
        assert!(cube == before || cube == swapped);
    }
    /// Random cubes obey the laws
    fn random_cubes_obey_the_laws(g) {
        use rand::{rngs::StdRng, Rng, SeedableRng};
        let seed = (g.int(1 << 30) as u64) << 30 | g.int(1 << 30) as u64;
        let cube: Cube3 = StdRng::seed_from_u64(seed).gen();
        assert!(cube.edges.validate().is_none() && cube.corners.validate().is_none());
        assert!(flips(&cube.edges) % 2 == 0, "an odd number of edges is flipped");
        assert!(twists(&cube.corners) % 3 == 0, "the corners are twisted");
        assert!(odd(edge_permutation(&cube.edges)) == odd(corner_permutation(&cube.corners)), "parities differ");
        let cube: barbarosa::cube_n::Cube2 = StdRng::seed_from_u64(seed).gen();
        assert!(cube.corners.validate().is_none());
        assert!(twists(&cube.corners) % 3 == 0, "the corners of the 2x2x2 are twisted");
    }
    /// Moves keep the laws
    fn moves_keep_the_laws(g) {
        let mut cube = Cube3::SOLVED;
        for _ in 0..12 {
            cube.apply(&axis_move(g));
            assert!(flips(&cube.edges) % 2 == 0, "an odd number of edges is flipped");
            assert!(twists(&cube.corners) % 3 == 0, "the corners are twisted");
            assert!(odd(edge_permutation(&cube.edges)) == odd(corner_permutation(&cube.corners)), "parities differ");
        }
    }
}

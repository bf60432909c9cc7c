//! Contracts of the numbering of the states of corners and of half of the edges.

use barbarosa::{
    cube_n::{
        cube3::{
            mus::{
                cache::Cache,
                deindex::{
                    verif::{orientations, positions},
                    Deindexable,
                },
                index::{
                    disposition_multipliers, factorial, orientation_permutation_index, position_disposition_index, Indexable,
                    OrientationIndexable, PositionIndexable,
                },
            },
            Cube3,
        },
        moves::{
            rotation::{AxisRotation, Rotatable},
            Amount,
        },
        space::Axis,
        Corner, Edge,
    },
    generic::{piece::PieceSetDescriptor, Cube, Movable, Piece},
};

use crate::{choice::Gen, geom::*, laws::twist_of, obligations, probes, values::*};

type HalfEdges = [Edge; 6];
type Corners = [Corner; 8];

/// Something of which only its indices matter
#[derive(Clone, PartialEq, Eq)]
pub struct Numbered {
    position: usize,
    orientation: usize,
}
impl PositionIndexable for Numbered {
    fn position_index(&self) -> usize {
        self.position
    }
    const POSITION_SET_SIZE: usize = 12;
}
impl OrientationIndexable for Numbered {
    fn orientation_index(&self) -> usize {
        self.orientation
    }
    const ORIENTATION_SET_SIZE: usize = 3;
}

fn numbered<const N: usize>(g: &mut impl Gen, positions: usize) -> [Numbered; N] {
    std::array::from_fn(|_| Numbered { position: g.index(positions), orientation: g.index(3) })
}

fn distinct<const N: usize>(items: &[Numbered; N]) -> bool {
    let mut all = true;
    for i in 0..N {
        for j in 0..i {
            all &= items[i].position != items[j].position;
        }
    }
    all
}

fn half_turn() -> AxisRotation {
    AxisRotation::new(Axis::X, Amount::Double)
}

fn distinct_edges(g: &mut impl Gen) -> HalfEdges {
    let mut chosen = [0; 6];
    std::array::from_fn(|i| {
        chosen[i] = g.index(12);
        for j in 0..i {
            g.assume(chosen[i] != chosen[j]);
        }
        let mut e = Edge::SOLVED[chosen[i]].clone();
        if g.flag() {
            e.flip();
        }
        e
    })
}

fn valid_corners(g: &mut impl Gen) -> Corners {
    let mut chosen = [0; 8];
    let mut twists = 0;
    let corners: Corners = std::array::from_fn(|i| {
        chosen[i] = g.index(8);
        for j in 0..i {
            g.assume(chosen[i] != chosen[j]);
        }
        let c = Corner::new(Corner::REFERENCE_POSITIONS[chosen[i]], axis(g));
        twists += twist_of(&c);
        c
    });
    g.assume(twists % 3 == 0);
    corners
}

// The parts of an index. Symbolically they are any: what is proved with them does not depend on how they come
// from the index, which is the contract of other obligations.

#[cfg(kani)]
static mut GIVEN: ([usize; 8], [usize; 7]) = ([0; 8], [0; 7]);
#[cfg(kani)]
static mut INDICES: (usize, usize) = (0, 0);

#[cfg(kani)]
fn given<G: Gen, const N: usize>(g: &mut G, any: impl Fn(&mut G) -> usize, _: usize, _: impl Fn(usize) -> [usize; N]) -> [usize; N] {
    std::array::from_fn(|_| any(g))
}

#[cfg(not(kani))]
fn given<G: Gen, const N: usize>(_: &mut G, _: impl Fn(&mut G) -> usize, index: usize, real: impl Fn(usize) -> [usize; N]) -> [usize; N] {
    real(index)
}

fn give(_p: &[usize], _o: &[usize], _indices: (usize, usize)) {
    #[cfg(kani)]
    unsafe {
        INDICES = _indices;
        for i in 0.._p.len() {
            GIVEN.0[i] = _p[i];
        }
        for i in 0.._o.len() {
            GIVEN.1[i] = _o[i];
        }
    }
}

#[cfg(kani)]
pub fn given_positions<T: PositionIndexable, const N: usize, const SIZE: usize>(index: usize) -> [usize; N] {
    assert!(index == unsafe { INDICES.0 });
    std::array::from_fn(|i| unsafe { GIVEN.0[i] })
}

#[cfg(kani)]
pub fn given_orientations<T: OrientationIndexable, const N: usize>(index: usize) -> [usize; N] {
    assert!(index == unsafe { INDICES.1 });
    std::array::from_fn(|i| unsafe { GIVEN.1[i] })
}

/// The contract of the search for duplicates where there are none
#[cfg(kani)]
pub fn no_duplicates<T: PartialEq>(_: impl IntoIterator<Item = T>) -> Option<T> {
    None
}

#[cfg(kani)]
static mut LAST: Option<Axis> = None;

/// The contract of `fix_corner_multiplicity`: the last corner gets whatever orientation
#[cfg(kani)]
pub fn fixed_twists(corners: &mut barbarosa::cube_n::pieces::corner::CornerSet) {
    let axis = axis(&mut crate::choice::Symbolic);
    unsafe { LAST = Some(axis) };
    corners.iter_mut_unchecked().last().unwrap().orientation_axis = axis;
}

#[cfg(kani)]
fn last_is_fixed(corners: &Corners) -> bool {
    unsafe { LAST == Some(corners[7].orientation_axis) }
}

#[cfg(not(kani))]
fn last_is_fixed(corners: &Corners) -> bool {
    corners.iter().map(|c| twist_of(c) as u32).sum::<u32>() % 3 == 0
}

/// Natively, positions have to be distinct
fn apart<T: PositionIndexable, const N: usize>(_g: &mut impl Gen, _items: &[T; N]) {
    #[cfg(not(kani))]
    for i in 0..N {
        for j in 0..i {
            _g.assume(_items[i].position_index() != _items[j].position_index());
        }
    }
}

#[cfg(kani)]
static mut LOOKED_UP: (usize, usize, usize) = (0, 0, 0);

fn give_indices(_i: usize, _j: usize, _k: usize) {
    #[cfg(kani)]
    unsafe {
        LOOKED_UP = (_i, _j, _k)
    };
}

/// Any indices: that those of a cube are in range is the contract of other obligations
#[cfg(kani)]
pub fn given_indices(_: &Cube3) -> barbarosa::cube_n::cube3::mus::index::CubeIndices {
    let (i, j, k) = unsafe { LOOKED_UP };
    barbarosa::cube_n::cube3::mus::index::CubeIndices { corners: i, edges: [j, k] }
}

#[cfg(kani)]
fn cache_of(edges: &[u8], corners: &[u8], _: usize, _: usize, _: usize) -> Cache {
    Cache::verif_from_tables(edges.to_vec(), corners.to_vec())
}

/// Natively the solved cube is looked up, whose indices are zero
#[cfg(not(kani))]
fn cache_of(edges: &[u8], corners: &[u8], i: usize, j: usize, k: usize) -> Cache {
    let _ = k;
    Cache::verif_from_tables(vec![edges[j].max(edges[k])], vec![corners[i]])
}

// Codes that tell everything apart stand for indices where only the way in which they are put together matters.

pub fn edge_code(e: &Edge) -> usize {
    (e.normal_axis as usize) * 4 + (sign(e.slice_position.x) > 0) as usize * 2 + (sign(e.slice_position.y) > 0) as usize
}

pub fn corner_code(c: &Corner) -> usize {
    let v = corner_vector(&c.position);
    (v[0] > 0) as usize * 4 + (v[1] > 0) as usize * 2 + (v[2] > 0) as usize
}

pub fn disposition_code<T: PositionIndexable, const N: usize, const SIZE: usize>(input: &[T; N]) -> usize {
    let mut code = SIZE;
    let mut i = 0;
    while i < N {
        code = (code << 4) + input[i].position_index();
        i += 1;
    }
    code
}

pub fn orientations_code<T: OrientationIndexable, const N: usize>(input: &[T; N]) -> usize {
    let mut code = 1;
    let mut i = 0;
    while i < N {
        code = (code << 2) + input[i].orientation_index();
        i += 1;
    }
    code
}

fn disposition<T: PositionIndexable, const N: usize>(input: &[T; N], size: usize) -> usize {
    match size {
        8 => position_disposition_index::<T, N, 8>(input),
        _ => position_disposition_index::<T, N, 12>(input),
    }
}

fn orientations_of<T: OrientationIndexable, const N: usize>(input: &[T; N]) -> usize {
    orientation_permutation_index(input)
}

obligations! {
    #[unwind(14)]
    fn multipliers_are_of_the_mixed_radix(g) {
        let i = g.index(8);
        assert!(disposition_multipliers::<Numbered, 8, 8>()[i] == factorial(7 - i));
        let i = g.index(6);
        assert!(disposition_multipliers::<Numbered, 6, 12>()[i] == factorial(11 - i) / factorial(6));
        assert!(<Corners as PositionIndexable>::POSITION_SET_SIZE == 40320 && <Corners as OrientationIndexable>::ORIENTATION_SET_SIZE == 2187);
        assert!(<HalfEdges as PositionIndexable>::POSITION_SET_SIZE == 665280 && <HalfEdges as OrientationIndexable>::ORIENTATION_SET_SIZE == 64);
        assert!(Corners::TOTAL_SET_SIZE == 40320 * 2187 && HalfEdges::TOTAL_SET_SIZE == 665280 * 64);
    }
    /// Different dispositions have different indices, and all indices are in range
    #[unwind(14)]
    fn dispositions_of_8_have_their_index(g) {
        let (a, b) = (numbered::<8>(g, 8), numbered::<8>(g, 8));
        g.assume(distinct(&a) && distinct(&b));
        let (i, j) = (position_disposition_index::<_, 8, 8>(&a), position_disposition_index::<_, 8, 8>(&b));
        assert!(i < 40320);
        let mut same = true;
        for k in 0..8 {
            same &= a[k].position == b[k].position;
        }
        assert!((i == j) == same);
    }
    #[unwind(14)]
    fn dispositions_of_6_in_12_have_their_index(g) {
        let (a, b) = (numbered::<6>(g, 12), numbered::<6>(g, 12));
        g.assume(distinct(&a) && distinct(&b));
        let (i, j) = (position_disposition_index::<_, 6, 12>(&a), position_disposition_index::<_, 6, 12>(&b));
        assert!(i < 665280);
        let mut same = true;
        for k in 0..6 {
            same &= a[k].position == b[k].position;
        }
        assert!((i == j) == same);
    }
    #[unwind(14)]
    fn orientations_have_their_index(g) {
        let (a, b) = (numbered::<7>(g, 12), numbered::<7>(g, 12));
        let (i, j) = (orientation_permutation_index(&a), orientation_permutation_index(&b));
        assert!(i < 2187);
        let mut same = true;
        for k in 0..7 {
            same &= a[k].orientation == b[k].orientation;
        }
        assert!((i == j) == same);
    }
    #[unwind(14)]
    fn positions_of_8_have_their_index(g) {
        let index = g.index(40320);
        let p = positions::<Numbered, 8, 8>(index);
        let items: [Numbered; 8] = std::array::from_fn(|i| Numbered { position: p[i], orientation: 0 });
        for i in 0..8 {
            assert!(p[i] < 8);
        }
        assert!(distinct(&items));
        assert!(position_disposition_index::<_, 8, 8>(&items) == index);
    }
    #[unwind(14)]
    fn positions_of_6_in_12_have_their_index(g) {
        let index = g.index(665280);
        let p = positions::<Numbered, 6, 12>(index);
        let items: [Numbered; 6] = std::array::from_fn(|i| Numbered { position: p[i], orientation: 0 });
        for i in 0..6 {
            assert!(p[i] < 12);
        }
        assert!(distinct(&items));
        assert!(position_disposition_index::<_, 6, 12>(&items) == index);
    }
    #[unwind(14)]
    fn orientations_of_an_index_have_it(g) {
        let index = g.index(2187);
        let o = orientations::<Numbered, 7>(index);
        let items: [Numbered; 7] = std::array::from_fn(|i| Numbered { position: 0, orientation: o[i] });
        for i in 0..7 {
            assert!(o[i] < 3);
        }
        assert!(orientation_permutation_index(&items) == index);
        let index = g.index(64);
        let o = orientations::<Edge, 6>(index);
        let items: [Edge; 6] = std::array::from_fn(|i| Edge::new(Axis::X, Edge::SOLVED[0].slice_position, o[i] == 0));
        for i in 0..6 {
            assert!(o[i] < 2);
        }
        assert!(orientation_permutation_index(&items) == index);
    }
    /// A piece is the solved one of its place, flipped or twisted as often as its orientation says; there are as many orientations as is said
    #[unwind(14)]
    fn edges_are_told_by_their_indices(g) {
        let a = edge(g);
        let (p, o) = (a.position_index(), OrientationIndexable::orientation_index(&a));
        let mut b = Cube3::SOLVED.edges.pieces()[p].clone();
        assert!(OrientationIndexable::orientation_index(&b) == 0);
        assert!(o < <Edge as OrientationIndexable>::ORIENTATION_SET_SIZE && <Edge as OrientationIndexable>::ORIENTATION_SET_SIZE == 2);
        if o == 1 {
            b.flip();
        }
        assert!(a == b);
    }
    #[unwind(14)]
    fn corners_are_told_by_their_indices(g) {
        let a = corner(g);
        let (p, o) = (a.position_index(), OrientationIndexable::orientation_index(&a));
        let mut b = Cube3::SOLVED.corners.pieces()[p].clone();
        assert!(OrientationIndexable::orientation_index(&b) == 0);
        assert!(o < <Corner as OrientationIndexable>::ORIENTATION_SET_SIZE && <Corner as OrientationIndexable>::ORIENTATION_SET_SIZE == 3);
        for _ in 0..o {
            b.twist();
        }
        assert!(a == b);
    }
    #[unwind(14)]
    fn solved_pieces_are_in_order(g) {
        let i = g.index(12);
        assert!(Cube3::SOLVED.edges.pieces()[i].position_index() == i);
        let i = g.index(8);
        assert!(Cube3::SOLVED.corners.pieces()[i].position_index() == i);
    }
    /// Half edges of an index are those with the positions and the orientations of its two parts
    #[unwind(14)]
    #[stub(barbarosa::cube_n::cube3::mus::deindex::deindex_positions, crate::indexing::given_positions)]
    #[stub(barbarosa::cube_n::cube3::mus::deindex::deindex_orientations, crate::indexing::given_orientations)]
    fn half_edges_are_made_of_positions_and_orientations(g) {
        let index = g.index(665280 * 64);
        let p: [usize; 6] = given(g, |g| g.index(12), index / 64, |i| positions::<HalfEdges, 6, 12>(i));
        let o: [usize; 6] = given(g, |g| g.index(2), index % 64, |i| orientations::<Edge, 6>(i));
        give(&p, &o, (index / 64, index % 64));
        let edges = HalfEdges::from_index(index);
        for i in 0..6 {
            let mut e = Edge::SOLVED[p[i]].clone();
            e.oriented = o[i] == 0;
            assert!(edges[i] == e);
        }
    }
    #[unwind(9)]
    #[stub(barbarosa::cube_n::cube3::mus::deindex::deindex_positions, crate::indexing::given_positions)]
    #[stub(barbarosa::cube_n::cube3::mus::deindex::deindex_orientations, crate::indexing::given_orientations)]
    #[stub(barbarosa::generic::piece::set::find_duplicates, crate::indexing::no_duplicates)]
    #[stub(barbarosa::cube_n::invariants::fix_corner_multiplicity, crate::indexing::fixed_twists)]
    fn corners_are_made_of_positions_and_orientations(g) {
        let index = g.index(40320 * 2187);
        let p: [usize; 8] = given(g, |g| g.index(8), index / 2187, |i| positions::<Corners, 8, 8>(i));
        let o: [usize; 7] = given(g, |g| g.index(3), index % 2187, |i| orientations::<Corner, 7>(i));
        for i in 0..8 {
            for j in 0..i {
                g.assume(p[i] != p[j]);
            }
        }
        give(&p, &o, (index / 2187, index % 2187));
        let corners = Corners::from_index(index);
        for i in 0..8 {
            assert!(corners[i].position == Corner::REFERENCE_POSITIONS[p[i]]);
            assert!(i == 7 || OrientationIndexable::orientation_index(&corners[i]) == o[i]);
        }
        // The last corner is the one that the contract of `fix_corner_multiplicity` is about
        assert!(last_is_fixed(&corners));
    }
    /// The index of half of the edges is made of those of their positions and of their flips
    #[unwind(14)]
    #[stub(<barbarosa::cube_n::Edge as barbarosa::cube_n::cube3::mus::index::PositionIndexable>::position_index, crate::indexing::edge_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::position_disposition_index, crate::indexing::disposition_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::orientation_permutation_index, crate::indexing::orientations_code)]
    fn half_edges_index_is_made_of_two(g) {
        let edges: HalfEdges = std::array::from_fn(|_| edge(g));
        apart(g, &edges);
        assert!(Indexable::index(&edges) == disposition(&edges, 12) * 64 + orientations_of(&edges));
    }
    #[unwind(14)]
    #[stub(<barbarosa::cube_n::Corner as barbarosa::cube_n::cube3::mus::index::PositionIndexable>::position_index, crate::indexing::corner_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::position_disposition_index, crate::indexing::disposition_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::orientation_permutation_index, crate::indexing::orientations_code)]
    fn corners_index_is_made_of_two(g) {
        let corners: Corners = std::array::from_fn(|_| corner(g));
        apart(g, &corners);
        let first: [Corner; 7] = std::array::from_fn(|i| corners[i].clone());
        assert!(Indexable::index(&corners) == disposition(&corners, 8) * 2187 + orientations_of(&first));
    }

    // The second half of the edges is looked up in the table of the first half, turned around by x2

    /// x2 takes the second half of the positions to the first half, in order
    #[unwind(14)]
    fn half_turn_exchanges_the_halves(g) {
        let i = g.index(6);
        assert!(Edge::SOLVED[i + 6].clone().rotated(&half_turn()) == Edge::SOLVED[i]);
        assert!(Edge::SOLVED[i].clone().rotated(&half_turn()) == Edge::SOLVED[i + 6]);
        let e = edge(g);
        assert!(e.clone().rotated(&half_turn()).rotated(&half_turn()) == e);
        let mut f = e.clone();
        f.oriented = !f.oriented;
        let (e, f) = (e.rotated(&half_turn()), f.rotated(&half_turn()));
        assert!(e.oriented != f.oriented && e.position() == f.position());
    }
    /// What a move does to an edge is what the turned move does to the turned edge
    #[unwind(9)]
    fn half_turn_commutes_with_moves(g) {
        let (e, m) = (edge(g), axis_move(g));
        let there = e.clone().moved(&m).rotated(&half_turn());
        assert!(there == e.rotated(&half_turn()).moved(&m.clone().rotated(&half_turn())));
        assert!(m.clone().rotated(&half_turn()).rotated(&half_turn()) == m);
    }
    /// The indices of a cube are those of its corners, and of the halves of its edges, the second one turned
    #[unwind(14)]
    #[stub(<barbarosa::cube_n::Edge as barbarosa::cube_n::cube3::mus::index::PositionIndexable>::position_index, crate::indexing::edge_code)]
    #[stub(<barbarosa::cube_n::Corner as barbarosa::cube_n::cube3::mus::index::PositionIndexable>::position_index, crate::indexing::corner_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::position_disposition_index, crate::indexing::disposition_code)]
    #[stub(barbarosa::cube_n::cube3::mus::index::orientation_permutation_index, crate::indexing::orientations_code)]
    fn cube_indices_are_those_of_its_parts(g) {
        let mut cube = Cube3::SOLVED;
        cube.edges = crate::laws::any_edges(g);
        let e = cube.edges.pieces();
        let first: HalfEdges = std::array::from_fn(|i| e[i].clone());
        let second: HalfEdges = std::array::from_fn(|i| e[i + 6].clone().rotated(&half_turn()));
        apart(g, &first);
        apart(g, &second);
        let indices = cube.indices();
        assert!(indices.edges[0] == Indexable::index(&first));
        assert!(indices.edges[1] == Indexable::index(&second));
        assert!(indices.corners == Indexable::index(cube.corners.pieces()));
    }
    /// The lookup is the largest of the entries of the corners and of the two halves of the edges, and it stays in bounds
    #[unwind(9)]
    #[stub(barbarosa::cube_n::cube3::Cube3::indices, crate::indexing::given_indices)]
    fn lookup_is_the_largest_entry(g) {
        let edges: [u8; 5] = std::array::from_fn(|_| g.int(256) as u8);
        let corners: [u8; 7] = std::array::from_fn(|_| g.int(256) as u8);
        let (i, j, k) = (g.index(7), g.index(5), g.index(5));
        give_indices(i, j, k);
        let cache = cache_of(&edges, &corners, i, j, k);
        let largest = corners[i].max(edges[j]).max(edges[k]);
        assert!(cache.get(&Cube3::SOLVED) == largest);
    }
}

probes! {
    /// The table of the solved state starts with it
    fn solved_corners_and_edges_are_number_zero(g) {
        let _ = g.flag();
        assert!(Indexable::index(&Corner::SOLVED) == 0);
        let edges: HalfEdges = std::array::from_fn(|i| Edge::SOLVED[i].clone());
        assert!(Indexable::index(&edges) == 0);
        let i = Cube3::SOLVED.indices();
        assert!(i.corners == 0 && i.edges == [0, 0]);
    }
    /// A cube comes back from its indices
    fn cubes_come_back_from_their_indices(g) {
        let mut cube = Cube3::SOLVED;
        for _ in 0..20 {
            cube.apply(&axis_move(g));
        }
        assert!(Cube3::from_indices(cube.indices()) == cube);
    }
    /// Looked up in tables of the whole size
    fn cubes_are_looked_up(g) {
        let mut cube = Cube3::SOLVED;
        for _ in 0..20 {
            cube.apply(&axis_move(g));
        }
        let indices = cube.indices();
        let mut corners = vec![0; Corners::TOTAL_SET_SIZE];
        let mut edges = vec![0; HalfEdges::TOTAL_SET_SIZE];
        let entries: [u8; 3] = std::array::from_fn(|_| g.int(256) as u8);
        corners[indices.corners] = entries[0];
        edges[indices.edges[0]] = entries[1];
        edges[indices.edges[1]] = entries[2];
        let cache = Cache::verif_from_tables(edges, corners);
        let same = indices.edges[0] == indices.edges[1];
        let largest = entries[0].max(entries[2]).max(if same { 0 } else { entries[1] });
        assert!(cache.get(&cube) == largest, "the largest entry is {largest}");
    }
    fn corners_come_back_from_their_index(g) {
        let corners = valid_corners(g);
        let index = corners.index();
        assert!(index < Corners::TOTAL_SET_SIZE);
        assert!(Corners::from_index(index) == corners);
    }
    fn half_edges_come_back_from_their_index(g) {
        let edges = distinct_edges(g);
        let index = edges.index();
        assert!(index < HalfEdges::TOTAL_SET_SIZE);
        assert!(HalfEdges::from_index(index) == edges);
    }
}

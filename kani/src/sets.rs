//! Contracts of piece sets, for an abstract piece: one whose methods are arbitrary functions of its value.
//!
//! The code of piece sets is generic over the piece, so that it can do nothing with a piece but call these
//! methods. What is shown here for `Toy` holds for corners, edges, wings and centers.

use barbarosa::{
    cube_n::{
        moves::{
            rotation::{AxisRotation, Rotatable},
            wide::{DepthPiece, DepthPieceSet},
        },
        AxisMove, WideAxisMove,
    },
    generic::{piece::PieceSetDescriptor, Movable, Piece, PieceSet},
};
use std::cell::RefCell;

use crate::{choice::Gen, cubes::set, obligations, values::*};

/// A piece with a position, and something else
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Toy {
    at: u8,
    how: u8,
}

const HOW: usize = 4;

/// The arbitrary functions
#[derive(Clone)]
struct Laws {
    /// What a move does
    moved: [u8; HOW],
    /// What a rotation does
    rotated: [u8; HOW],
    /// Which pieces are in a wide move
    inside: [bool; HOW],
    /// Which pieces are solved
    solved: [bool; HOW],
    /// The move that is expected
    m: AxisMove,
    depth: u32,
    normal_depth: u32,
    tangent_depth: u32,
}

thread_local! {
    static LAWS: RefCell<Option<Laws>> = const { RefCell::new(None) };
}

#[cfg(kani)]
static mut KANI_LAWS: Option<Laws> = None;

#[cfg(kani)]
#[allow(static_mut_refs)]
fn laws<T>(f: impl FnOnce(&Laws) -> T) -> T {
    unsafe { f(KANI_LAWS.as_ref().unwrap()) }
}

#[cfg(not(kani))]
fn laws<T>(f: impl FnOnce(&Laws) -> T) -> T {
    LAWS.with(|laws| f(laws.borrow().as_ref().unwrap()))
}

fn any_laws(g: &mut impl Gen, m: &AxisMove, depth: u32, normal_depth: u32, tangent_depth: u32) {
    let laws = Laws {
        moved: std::array::from_fn(|_| g.int(HOW as u32) as u8),
        rotated: std::array::from_fn(|_| g.int(HOW as u32) as u8),
        inside: std::array::from_fn(|_| g.flag()),
        solved: std::array::from_fn(|_| g.flag()),
        m: m.clone(),
        depth,
        normal_depth,
        tangent_depth,
    };
    #[cfg(kani)]
    unsafe {
        KANI_LAWS = Some(laws);
    }
    #[cfg(not(kani))]
    LAWS.with(|l| *l.borrow_mut() = Some(laws));
}

fn same(a: &AxisMove, b: &AxisMove) -> bool {
    a.face.axis == b.face.axis && a.face.direction == b.face.direction && a.amount == b.amount
}

impl Piece for Toy {
    type Position = u8;
    fn position(&self) -> u8 {
        self.at
    }
    fn is_solved(&self, original: &u8) -> bool {
        self.at == *original && laws(|l| l.solved[self.how as usize])
    }
}

const fn toys<const N: usize>() -> [Toy; N] {
    let mut toys = [const { Toy { at: 0, how: 0 } }; N];
    let mut i = 0;
    while i < N {
        toys[i].at = i as u8;
        i += 1;
    }
    toys
}

const fn places<const N: usize>() -> [u8; N] {
    let mut places = [0; N];
    let mut i = 0;
    while i < N {
        places[i] = i as u8;
        i += 1;
    }
    places
}

impl<const N: usize> PieceSetDescriptor<N> for Toy {
    const SOLVED: [Self; N] = toys();
    const REFERENCE_POSITIONS: [u8; N] = places();
}

impl Movable<AxisMove> for Toy {
    fn apply(&mut self, m: &AxisMove) {
        laws(|l| {
            assert!(same(m, &l.m));
            self.how = l.moved[self.how as usize];
        });
    }
}

impl DepthPiece for Toy {
    fn is_in_wide_move<const M: u32>(&self, normal: u32, tangent: u32, m: &WideAxisMove<M>) -> bool {
        laws(|l| {
            assert!(same(&m.axis_move, &l.m) && m.depth() == l.depth);
            assert!(normal == l.normal_depth && tangent == l.tangent_depth);
            l.inside[self.how as usize]
        })
    }
}

impl Rotatable for Toy {
    fn rotate(&mut self, r: &AxisRotation) {
        laws(|l| {
            assert!(r.axis == l.m.face.axis && r.amount == l.m.amount * l.m.face.direction);
            self.how = l.rotated[self.how as usize];
        });
    }
}

fn toy(g: &mut impl Gen, n: u32) -> Toy {
    Toy { at: g.int(n) as u8, how: g.int(HOW as u32) as u8 }
}

fn arbitrary<G: Gen, const N: usize>(g: &mut G) -> [Toy; N] {
    std::array::from_fn(|_| toy(g, N as u32))
}

fn set_moves_each<G: Gen, const N: usize>(g: &mut G) {
    let (toys, m) = (arbitrary::<G, N>(g), axis_move(g));
    any_laws(g, &m, 0, 0, 0);
    let mut set: PieceSet<Toy, N> = set(&toys);
    set.apply(&m);
    for i in 0..N {
        let expected = laws(|l| Toy { at: toys[i].at, how: l.moved[toys[i].how as usize] });
        assert!(set.pieces()[i] == expected);
    }
}

fn depth_set_moves_those_inside<G: Gen, const N: usize, const ND: u32, const TD: u32, const M: u32>(g: &mut G) {
    let (toys, m) = (arbitrary::<G, N>(g), wide_move::<M>(g));
    any_laws(g, &m.axis_move, m.depth(), ND, TD);
    let mut set: DepthPieceSet<Toy, N, ND, TD> = DepthPieceSet { set: set(&toys) };
    set.apply(&m);
    for i in 0..N {
        let how = toys[i].how as usize;
        let how = laws(|l| if l.inside[how] { l.rotated[how] } else { toys[i].how });
        assert!(set.set.pieces()[i] == Toy { at: toys[i].at, how });
    }
}

/// All pieces and all positions are different
fn is_valid<const N: usize>(toys: &[Toy; N]) -> bool {
    for i in 0..N {
        for j in 0..i {
            if toys[i].at == toys[j].at {
                return false;
            }
        }
    }
    true
}

obligations! {
    /// A move of a set does to each of its pieces, wherever it is, what it does to a single piece
    #[unwind(25)]
    fn set_of_8_moves_each(g) { set_moves_each::<G, 8>(g) }
    #[unwind(25)]
    fn set_of_12_moves_each(g) { set_moves_each::<G, 12>(g) }
    #[unwind(25)]
    fn set_of_24_moves_each(g) { set_moves_each::<G, 24>(g) }

    /// A wide move of a set rotates the pieces that are inside of it at the depths of the set, and no others
    #[unwind(25)]
    fn depth_set_1_0_moves_those_inside_1(g) { depth_set_moves_those_inside::<G, 24, 1, 0, 1>(g) }
    #[unwind(25)]
    fn depth_set_1_0_moves_those_inside_2(g) { depth_set_moves_those_inside::<G, 24, 1, 0, 2>(g) }
    #[unwind(25)]
    fn depth_set_2_0_moves_those_inside_2(g) { depth_set_moves_those_inside::<G, 24, 2, 0, 2>(g) }
    #[unwind(25)]
    fn depth_set_1_2_moves_those_inside_2(g) { depth_set_moves_those_inside::<G, 24, 1, 2, 2>(g) }
    #[unwind(49)]
    fn large_depth_set_moves_those_inside(g) { depth_set_moves_those_inside::<G, 48, 1, 2, 2>(g) }

    /// A set is accepted if and only if no two of its pieces are at the same position
    #[unwind(10)]
    fn set_new_accepts_exactly_valid_sets(g) {
        let toys = arbitrary::<G, 5>(g);
        let valid = is_valid(&toys);
        match PieceSet::new(toys.clone()) {
            Ok(set) => {
                assert!(valid);
                assert!(set.pieces() == &toys);
            }
            Err(_) => assert!(!valid),
        }
    }

    /// In a valid set, the lookups are those of a bijection between pieces and positions
    #[unwind(10)]
    fn set_lookups_are_inverse(g) {
        let toys = arbitrary::<G, 8>(g);
        g.assume(is_valid(&toys));
        let set: PieceSet<Toy, 8> = set(&toys);
        let i = g.index(8);
        assert!(set.piece_originally_at(&(i as u8)) == &toys[i]);
        assert!(set.original_position_of_piece_at(&toys[i].at) == i as u8);
        assert!(set.at_index(i) == Some(&toys[i]));
        assert!(set.at_index(8).is_none());
    }

    #[unwind(10)]
    fn set_iterators_visit_each_piece_once(g) {
        let toys = arbitrary::<G, 8>(g);
        let set: PieceSet<Toy, 8> = set(&toys);
        let mut n = 0;
        for (position, piece) in set.iter_with_pos() {
            assert!(position == n as u8);
            assert!(piece == &toys[n]);
            n += 1;
        }
        assert!(n == 8);
        n = 0;
        for piece in set.iter() {
            assert!(piece == &toys[n]);
            n += 1;
        }
        assert!(n == 8);
        n = 0;
        for piece in set.clone() {
            assert!(piece == toys[n]);
            n += 1;
        }
        assert!(n == 8);
    }

    /// `swap` exchanges the two pieces and leaves the others alone
    #[unwind(10)]
    fn set_swap_exchanges_two(g) {
        let toys = arbitrary::<G, 8>(g);
        let mut set: PieceSet<Toy, 8> = set(&toys);
        let (a, b) = (g.index(8), g.index(8));
        set.swap(&(a as u8), &(b as u8));
        for i in 0..8 {
            let from = if i == a { b } else if i == b { a } else { i };
            assert!(set.pieces()[i] == toys[from]);
        }
    }

    /// A set is solved if and only if each of its pieces is
    #[unwind(26)]
    fn set_solved_iff_each_piece_is(g) {
        let toys = arbitrary::<G, 24>(g);
        let m = axis_move(g);
        any_laws(g, &m, 0, 0, 0);
        let set: PieceSet<Toy, 24> = set(&toys);
        let mut all = true;
        for i in 0..24 {
            all &= toys[i].is_solved(&(i as u8));
        }
        assert!(set.is_solved() == all);
    }
}

/// Pieces that are all over the place
fn scattered<G: Gen, const N: usize>(g: &mut G) -> [Toy; N] {
    let mut toys = toys::<N>();
    for toy in &mut toys {
        toy.how = g.int(HOW as u32) as u8;
    }
    for _ in 0..g.int(2 * N as u32) {
        toys.swap(g.index(N), g.index(N));
    }
    toys
}

fn set_is_a_bijection<G: Gen, const N: usize>(g: &mut G) {
    let mut toys = scattered::<G, N>(g);
    let (i, j) = (g.index(N), g.index(N));
    if g.flag() {
        toys[i].at = toys[j].at;
        if g.flag() {
            toys[i].how = toys[j].how;
        }
        assert!(PieceSet::new(toys).is_ok() == (i == j));
        return;
    }
    let mut set = PieceSet::new(toys.clone()).unwrap();
    assert!(set.pieces() == &toys);
    for k in 0..N {
        assert!(set.piece_originally_at(&(k as u8)) == &toys[k]);
        assert!(set.original_position_of_piece_at(&toys[k].at) == k as u8);
        assert!(set.at_index(k) == Some(&toys[k]));
    }
    assert!(set.at_index(N).is_none());
    assert!(set.iter().eq(toys.iter()));
    assert!(set.iter_with_pos().map(|(p, t)| (p as usize, t)).eq(toys.iter().enumerate()));
    assert!(set.clone().into_iter().eq(toys.clone()));
    set.swap(&(i as u8), &(j as u8));
    toys.swap(i, j);
    assert!(set.pieces() == &toys);
}

fn set_is_solved_iff_its_pieces_are<G: Gen, const N: usize>(g: &mut G) {
    let mut toys = toys::<N>();
    let m = axis_move(g);
    any_laws(g, &m, 0, 0, 0);
    for _ in 0..g.int(3) {
        toys[g.index(N)].how = g.int(HOW as u32) as u8;
    }
    for _ in 0..g.int(2) {
        toys.swap(g.index(N), g.index(N));
    }
    let all = toys.iter().enumerate().all(|(i, t)| t.is_solved(&(i as u8)));
    assert!(set::<Toy, N>(&toys).is_solved() == all);
}

crate::probes! {
    fn sets_of_8_are_bijections(g) { set_is_a_bijection::<G, 8>(g) }
    fn sets_of_12_are_bijections(g) { set_is_a_bijection::<G, 12>(g) }
    fn sets_of_24_are_bijections(g) { set_is_a_bijection::<G, 24>(g) }
    fn sets_of_48_are_bijections(g) { set_is_a_bijection::<G, 48>(g) }
    fn sets_of_8_are_solved_iff_their_pieces_are(g) { set_is_solved_iff_its_pieces_are::<G, 8>(g) }
    fn sets_of_12_are_solved_iff_their_pieces_are(g) { set_is_solved_iff_its_pieces_are::<G, 12>(g) }
    fn sets_of_24_are_solved_iff_their_pieces_are(g) { set_is_solved_iff_its_pieces_are::<G, 24>(g) }
    fn sets_of_48_are_solved_iff_their_pieces_are(g) { set_is_solved_iff_its_pieces_are::<G, 48>(g) }
}

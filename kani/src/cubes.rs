//! Whole cubes. How a move of a cube is made of the moves of its sets is proved with Verus (verus/cubes.py);
//! here: the moves that are defined by way of wider ones, what the solved cubes are, and probes of whole cubes
//! that only run natively.

use barbarosa::{
    cube_n::{Corner, Edge, moves::wide::verif::{Recorder1, Recorder2}, AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, WideAxisMove},
    generic::{piece::PieceSetDescriptor, Alg, Cube, Movable, Move, PieceSet},
};

use crate::{choice::Gen, geom::*, obligations, probes, values::*};

/// Overwrites the pieces of a set
pub fn fill<P: PieceSetDescriptor<N>, const N: usize>(set: &mut PieceSet<P, N>, pieces: &[P; N]) {
    let mut i = 0;
    for piece in set.iter_mut_unchecked() {
        *piece = pieces[i].clone();
        i += 1;
    }
}

pub fn set<P: PieceSetDescriptor<N>, const N: usize>(pieces: &[P; N]) -> PieceSet<P, N> {
    let mut set = PieceSet::<P, N>::SOLVED;
    fill(&mut set, pieces);
    set
}

pub fn many<G: Gen, P, const N: usize>(g: &mut G, piece: impl Fn(&mut G) -> P) -> [P; N] {
    std::array::from_fn(|_| piece(g))
}

/// A narrow move becomes one move of the widest kind, at the same depth
macro_rules! recorded {
    ($g:ident, $recorder:ident, $m:expr) => {{
        let m = $m;
        let (axis_move, depth) = of(&m);
        let mut cube = $recorder::SOLVED;
        cube.apply(&m);
        assert!(cube.times == 1, "the widest move is applied once");
        let last = cube.last.unwrap();
        assert!(last.axis_move == axis_move, "the face and the amount are kept");
        assert!(last.depth() == depth, "the depth is kept");
    }};
}

/// A narrow move does what the widest kind of move does at the same depth
macro_rules! narrow {
    ($g:ident, $any:ident, $max:literal, $m:expr) => {{
        let m = $m;
        let (axis_move, depth) = of(&m);
        let cube = $any($g);
        let wide = WideAxisMove::<$max>::new(axis_move.face, axis_move.amount, depth).unwrap();
        assert!(cube.clone().moved(&m) == cube.moved(&wide));
    }};
}

trait Narrow {
    fn parts(&self) -> (AxisMove, u32);
}
impl Narrow for AxisMove {
    fn parts(&self) -> (AxisMove, u32) {
        (self.clone(), 0)
    }
}
impl<const M: u32> Narrow for WideAxisMove<M> {
    fn parts(&self) -> (AxisMove, u32) {
        (self.axis_move.clone(), self.depth())
    }
}
fn of(m: &impl Narrow) -> (AxisMove, u32) {
    m.parts()
}

pub fn any_cube2(g: &mut impl Gen) -> Cube2 {
    Cube2 { corners: set(&many(g, corner)) }
}
pub fn any_cube3(g: &mut impl Gen) -> Cube3 {
    Cube3 { corners: set(&many(g, corner)), edges: set(&many(g, edge)) }
}
pub fn any_cube4(g: &mut impl Gen) -> Cube4 {
    let mut cube = Cube4::SOLVED;
    let parts = cube.verif_parts();
    fill(parts.0, &many(g, corner));
    fill(&mut parts.1.set, &many(g, wing));
    fill(&mut parts.2.set, &many(g, center_corner));
    cube
}
pub fn any_cube5(g: &mut impl Gen) -> Cube5 {
    let mut cube = Cube5::SOLVED;
    let parts = cube.verif_parts();
    fill(parts.0, &many(g, corner));
    fill(parts.1, &many(g, edge));
    fill(&mut parts.2.set, &many(g, wing));
    fill(&mut parts.3.set, &many(g, center_corner));
    fill(&mut parts.4.set, &many(g, center_edge));
    cube
}
pub fn any_cube6(g: &mut impl Gen) -> Cube6 {
    let mut cube = Cube6::SOLVED;
    let parts = cube.verif_parts();
    fill(parts.0, &many(g, corner));
    fill(&mut parts.1.set, &many(g, wing));
    fill(&mut parts.2.set, &many(g, wing));
    fill(&mut parts.3.set, &many(g, center_corner));
    fill(&mut parts.4.set, &many(g, center_corner));
    fill(&mut parts.5.set, &many(g, center_wing));
    cube
}
pub fn any_cube7(g: &mut impl Gen) -> Cube7 {
    let mut cube = Cube7::SOLVED;
    let parts = cube.verif_parts();
    fill(parts.0, &many(g, corner));
    fill(parts.1, &many(g, edge));
    fill(&mut parts.2.set, &many(g, wing));
    fill(&mut parts.3.set, &many(g, wing));
    fill(&mut parts.4.set, &many(g, center_corner));
    fill(&mut parts.5.set, &many(g, center_corner));
    fill(&mut parts.6.set, &many(g, center_wing));
    fill(&mut parts.7.set, &many(g, center_edge));
    fill(&mut parts.8.set, &many(g, center_edge));
    cube
}

/// Everything on a cube, as stickers. Two states are the same if and only if their stickers are.
pub type Stickers = Vec<Sticker>;

fn corners_of(set: &PieceSet<barbarosa::cube_n::Corner, 8>, n: i8) -> Stickers {
    set.pieces().iter().map(|p| corner_sticker(p, n)).collect()
}
fn edges_of(set: &PieceSet<barbarosa::cube_n::Edge, 12>, n: i8) -> Stickers {
    set.pieces().iter().map(|p| edge_sticker(p, n)).collect()
}

/// The whole cube as stickers (wings as pairs of cubies)
pub trait Look: Cube {
    const SIZE: i8;
    fn look(&self) -> Stickers;
}
impl Look for Cube2 {
    const SIZE: i8 = 2;
    fn look(&self) -> Stickers {
        corners_of(&self.corners, 2)
    }
}
impl Look for Cube3 {
    const SIZE: i8 = 3;
    fn look(&self) -> Stickers {
        let mut all = corners_of(&self.corners, 3);
        all.extend(edges_of(&self.edges, 3));
        all
    }
}
macro_rules! each {
    ($all:ident, $set:expr, |$p:ident| $sticker:expr) => {
        $all.extend($set.set.pieces().iter().map(|$p| $sticker))
    };
}
impl Look for Cube4 {
    const SIZE: i8 = 4;
    fn look(&self) -> Stickers {
        let mut cube = self.clone();
        let parts = cube.verif_parts();
        let mut all = corners_of(parts.0, 4);
        each!(all, parts.1, |p| (wing_cubie(p, 4, 1), wing_cubie(p, 4, 1)));
        each!(all, parts.2, |p| center_corner_sticker(p, 4, 1));
        all
    }
}
impl Look for Cube5 {
    const SIZE: i8 = 5;
    fn look(&self) -> Stickers {
        let mut cube = self.clone();
        let parts = cube.verif_parts();
        let mut all = corners_of(parts.0, 5);
        all.extend(edges_of(parts.1, 5));
        each!(all, parts.2, |p| (wing_cubie(p, 5, 1), wing_cubie(p, 5, 1)));
        each!(all, parts.3, |p| center_corner_sticker(p, 5, 1));
        each!(all, parts.4, |p| center_edge_sticker(p, 5, 1));
        all
    }
}
impl Look for Cube6 {
    const SIZE: i8 = 6;
    fn look(&self) -> Stickers {
        let mut cube = self.clone();
        let parts = cube.verif_parts();
        let mut all = corners_of(parts.0, 6);
        each!(all, parts.1, |p| (wing_cubie(p, 6, 1), wing_cubie(p, 6, 1)));
        each!(all, parts.2, |p| (wing_cubie(p, 6, 2), wing_cubie(p, 6, 2)));
        each!(all, parts.3, |p| center_corner_sticker(p, 6, 1));
        each!(all, parts.4, |p| center_corner_sticker(p, 6, 2));
        each!(all, parts.5, |p| center_wing_sticker(p, 6, 1, 2));
        all
    }
}
impl Look for Cube7 {
    const SIZE: i8 = 7;
    fn look(&self) -> Stickers {
        let mut cube = self.clone();
        let parts = cube.verif_parts();
        let mut all = corners_of(parts.0, 7);
        all.extend(edges_of(parts.1, 7));
        each!(all, parts.2, |p| (wing_cubie(p, 7, 1), wing_cubie(p, 7, 1)));
        each!(all, parts.3, |p| (wing_cubie(p, 7, 2), wing_cubie(p, 7, 2)));
        each!(all, parts.4, |p| center_corner_sticker(p, 7, 1));
        each!(all, parts.5, |p| center_corner_sticker(p, 7, 2));
        each!(all, parts.6, |p| center_wing_sticker(p, 7, 1, 2));
        each!(all, parts.7, |p| center_edge_sticker(p, 7, 1));
        each!(all, parts.8, |p| center_edge_sticker(p, 7, 2));
        all
    }
}

/// What a turn of `depth + 1` layers does to a cube
pub fn look_turned(look: &Stickers, n: i8, m: &AxisMove, depth: u32) -> Stickers {
    look.iter()
        .map(|s| turned(*s, n, normal(&m.face), quarters(m.amount), depth as i8))
        .collect()
}

fn rigid<C: Look + Movable<M>, M: Narrow>(cube: C, m: M) {
    let (axis_move, depth) = m.parts();
    let expected = look_turned(&cube.look(), C::SIZE, &axis_move, depth);
    assert!(cube.moved(&m).look() == expected, "the layers of the move turn, and nothing else");
}

/// A solved cube, but for up to two moves, and for a single piece that may have been replaced by a `change`;
/// the first `exact` stickers have to be at home, and the others (of centers) on the right face
fn solved_iff_it_looks_so<G: Gen, C: Look + barbarosa::generic::moves::AsMove>(
    g: &mut G, exact: usize, any_move: impl Fn(&mut G) -> C::Move, change: impl Fn(&mut G, &mut C),
) where
    C: Movable<C::Move> + 'static,
{
    let mut cube = C::SOLVED;
    let m = any_move(g);
    match g.int(4) {
        0 => (),
        1 => cube.apply(&m),
        2 => {
            cube.apply(&m);
            cube.apply(&m.inverse());
        }
        _ => {
            cube.apply(&m);
            change(g, &mut cube);
            cube.apply(&m.inverse());
        }
    }
    if g.flag() {
        change(g, &mut cube);
    }
    let (now, home) = (cube.look(), C::SOLVED.look());
    let looks_solved = (0..now.len()).all(|i| if i < exact { now[i] == home[i] } else { now[i].1 == home[i].1 });
    assert!(cube.is_solved() == looks_solved, "solved iff it looks solved ({looks_solved})");
}
/// Exchanges two pieces of a set, or sets one to an arbitrary value
fn disturb<G: Gen, P: PieceSetDescriptor<N>, const N: usize>(g: &mut G, set: &mut PieceSet<P, N>, piece: impl Fn(&mut G) -> P) {
    let mut pieces = set.pieces().clone();
    if g.flag() {
        pieces.swap(g.index(N), g.index(N));
    } else {
        pieces[g.index(N)] = piece(g);
    }
    fill(set, &pieces);
}

fn undone<G: Gen, C: Cube + barbarosa::generic::moves::AsMove>(g: &mut G, cube: C, any_move: impl Fn(&mut G) -> C::Move) {
    let n = g.int(6);
    let moves: Vec<_> = (0..n).map(|_| any_move(g)).collect();
    let alg = Alg::<C::Move>::new(moves.clone());
    let mut one_by_one = cube.clone();
    for m in &moves {
        one_by_one.apply(m);
    }
    let mut moved = cube.clone();
    for m in &alg.moves {
        moved = moved.moved(m);
    }
    assert!(moved == one_by_one);
    let mut whole = cube.clone();
    <C as Movable<[C::Move]>>::apply(&mut whole, &alg.moves);
    assert!(whole == one_by_one, "an alg is its moves in order");
    let back = alg.reversed();
    assert!(back.moves.len() == moves.len());
    <C as Movable<[C::Move]>>::apply(&mut whole, &back.moves);
    assert!(whole == cube, "the reversed alg undoes the alg");
    for m in moves.iter().rev() {
        one_by_one.apply(&m.inverse());
    }
    assert!(one_by_one == cube, "the inverse moves undo the moves");
}

obligations! {
    /// A 2x2x2 is solved if and only if each of its corners is
    #[unwind(9)]
    fn cube2_is_solved_iff_its_corners_are(g) {
        let cube = any_cube2(g);
        let mut all = true;
        for i in 0..8 {
            all &= corner_sticker(&cube.corners.pieces()[i], 2) == corner_sticker(&Corner::SOLVED[i], 2);
        }
        assert!(cube.is_solved() == all);
    }
    #[unwind(13)]
    fn cube3_is_solved_iff_its_pieces_are(g) {
        let cube = any_cube3(g);
        let mut all = true;
        for i in 0..8 {
            all &= corner_sticker(&cube.corners.pieces()[i], 3) == corner_sticker(&Corner::SOLVED[i], 3);
        }
        for i in 0..12 {
            all &= edge_sticker(&cube.edges.pieces()[i], 3) == edge_sticker(&Edge::SOLVED[i], 3);
        }
        assert!(cube.is_solved() == all);
    }
    #[unwind(9)]
    fn axis_move_is_depth_0_of_1(g) { recorded!(g, Recorder1, axis_move(g)) }
    #[unwind(9)]
    fn wide_0_move_is_depth_0_of_1(g) { recorded!(g, Recorder1, wide_move::<0>(g)) }
    #[unwind(9)]
    fn axis_move_is_depth_0_of_2(g) { recorded!(g, Recorder2, axis_move(g)) }
    #[unwind(9)]
    fn wide_0_move_is_depth_0_of_2(g) { recorded!(g, Recorder2, wide_move::<0>(g)) }
    #[unwind(9)]
    fn wide_1_move_keeps_its_depth_of_2(g) { recorded!(g, Recorder2, wide_move::<1>(g)) }
}

probes! {
    /// The successors of a cube are what its moves lead to, with the move
    fn successors_are_the_moved_cubes(g) {
        let cube = any_cube3(g);
        let all = AxisMove::all();
        let mut n = 0;
        for (successor, m) in cube.successors() {
            assert!(m == all[n], "each move comes once");
            assert!(successor == cube.clone().moved(&m), "the move leads to the successor");
            n += 1;
        }
        assert!(n == 18, "there are 18 successors");
    }
    fn cube4_axis_move_is_depth_0(g) { narrow!(g, any_cube4, 1, axis_move(g)) }
    fn cube4_wide_0_move_is_depth_0(g) { narrow!(g, any_cube4, 1, wide_move::<0>(g)) }
    fn cube5_axis_move_is_depth_0(g) { narrow!(g, any_cube5, 1, axis_move(g)) }
    fn cube5_wide_0_move_is_depth_0(g) { narrow!(g, any_cube5, 1, wide_move::<0>(g)) }
    fn cube6_axis_move_is_depth_0(g) { narrow!(g, any_cube6, 2, axis_move(g)) }
    fn cube6_wide_0_move_is_depth_0(g) { narrow!(g, any_cube6, 2, wide_move::<0>(g)) }
    fn cube6_wide_1_move_keeps_depth(g) { narrow!(g, any_cube6, 2, wide_move::<1>(g)) }
    fn cube7_axis_move_is_depth_0(g) { narrow!(g, any_cube7, 2, axis_move(g)) }
    fn cube7_wide_0_move_is_depth_0(g) { narrow!(g, any_cube7, 2, wide_move::<0>(g)) }
    fn cube7_wide_1_move_keeps_depth(g) { narrow!(g, any_cube7, 2, wide_move::<1>(g)) }

    fn cube2_is_rigid(g) { let c = any_cube2(g); rigid(c, axis_move(g)) }
    fn cube3_is_rigid(g) { let c = any_cube3(g); rigid(c, axis_move(g)) }
    fn cube4_is_rigid(g) { let c = any_cube4(g); rigid(c, wide_move::<1>(g)) }
    fn cube5_is_rigid(g) { let c = any_cube5(g); rigid(c, wide_move::<1>(g)) }
    fn cube6_is_rigid(g) { let c = any_cube6(g); rigid(c, wide_move::<2>(g)) }
    fn cube7_is_rigid(g) { let c = any_cube7(g); rigid(c, wide_move::<2>(g)) }
    fn cube4_axis_move_is_rigid(g) { let c = any_cube4(g); rigid(c, axis_move(g)) }
    fn cube5_axis_move_is_rigid(g) { let c = any_cube5(g); rigid(c, axis_move(g)) }
    fn cube6_axis_move_is_rigid(g) { let c = any_cube6(g); rigid(c, axis_move(g)) }
    fn cube7_axis_move_is_rigid(g) { let c = any_cube7(g); rigid(c, axis_move(g)) }
    fn cube6_narrow_move_is_rigid(g) { let c = any_cube6(g); rigid(c, wide_move::<1>(g)) }
    fn cube7_narrow_move_is_rigid(g) { let c = any_cube7(g); rigid(c, wide_move::<1>(g)) }

    fn cube2_alg_is_undone(g) { let c = any_cube2(g); undone(g, c, axis_move) }
    fn cube3_alg_is_undone(g) { let c = any_cube3(g); undone(g, c, axis_move) }
    fn cube4_alg_is_undone(g) { let c = any_cube4(g); undone(g, c, wide_move::<1>) }
    fn cube5_alg_is_undone(g) { let c = any_cube5(g); undone(g, c, wide_move::<1>) }
    fn cube6_alg_is_undone(g) { let c = any_cube6(g); undone(g, c, wide_move::<2>) }
    fn cube7_alg_is_undone(g) { let c = any_cube7(g); undone(g, c, wide_move::<2>) }
    fn cube2_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube2>(g, 8, axis_move, |g, c| disturb(g, &mut c.corners, corner))
    }
    fn cube3_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube3>(g, 20, axis_move, |g, c| {
            if g.flag() { disturb(g, &mut c.corners, corner) } else { disturb(g, &mut c.edges, edge) }
        })
    }
    fn cube4_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube4>(g, 32, wide_move::<1>, |g, c| {
            let p = c.verif_parts();
            match g.int(3) {
                0 => disturb(g, p.0, corner),
                1 => disturb(g, &mut p.1.set, wing),
                _ => disturb(g, &mut p.2.set, center_corner),
            }
        })
    }
    fn cube5_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube5>(g, 44, wide_move::<1>, |g, c| {
            let p = c.verif_parts();
            match g.int(5) {
                0 => disturb(g, p.0, corner),
                1 => disturb(g, p.1, edge),
                2 => disturb(g, &mut p.2.set, wing),
                3 => disturb(g, &mut p.3.set, center_corner),
                _ => disturb(g, &mut p.4.set, center_edge),
            }
        })
    }
    fn cube6_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube6>(g, 56, wide_move::<2>, |g, c| {
            let p = c.verif_parts();
            match g.int(6) {
                0 => disturb(g, p.0, corner),
                1 => disturb(g, &mut p.1.set, wing),
                2 => disturb(g, &mut p.2.set, wing),
                3 => disturb(g, &mut p.3.set, center_corner),
                4 => disturb(g, &mut p.4.set, center_corner),
                _ => disturb(g, &mut p.5.set, center_wing),
            }
        })
    }
    fn cube7_solved_iff_it_looks_so(g) {
        solved_iff_it_looks_so::<_, Cube7>(g, 68, wide_move::<2>, |g, c| {
            let p = c.verif_parts();
            match g.int(9) {
                0 => disturb(g, p.0, corner),
                1 => disturb(g, p.1, edge),
                2 => disturb(g, &mut p.2.set, wing),
                3 => disturb(g, &mut p.3.set, wing),
                4 => disturb(g, &mut p.4.set, center_corner),
                5 => disturb(g, &mut p.5.set, center_corner),
                6 => disturb(g, &mut p.6.set, center_wing),
                7 => disturb(g, &mut p.7.set, center_edge),
                _ => disturb(g, &mut p.8.set, center_edge),
            }
        })
    }
}

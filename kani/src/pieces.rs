//! Contracts of single pieces: moves and rotations are rigid motions of their stickers.

use barbarosa::{
    cube_n::{
        moves::rotation::{AxisRotation, Rotatable},
        moves::wide::DepthPiece,
        center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing},
        moves::Amount, space::Face,
        Corner, Edge, WideAxisMove, Wing,
    },
    generic::{piece::PieceSetDescriptor, Movable, Move, Piece},
};

use crate::{choice::Gen, geom::*, obligations, values::*};

/// What a set of depth pieces does with each piece, according to the contract of `DepthPieceSet`
pub fn wide_moved<P: DepthPiece + Rotatable, const M: u32>(
    mut piece: P,
    normal_depth: u32,
    tangent_depth: u32,
    m: &WideAxisMove<M>,
) -> P {
    if piece.is_in_wide_move::<M>(normal_depth, tangent_depth, m) {
        piece.rotate(&AxisRotation::from(&m.axis_move));
    }
    piece
}

fn wing_rigid<G: Gen, const M: u32>(g: &mut G, n: i8, depth: i8) {
    let (piece, m) = (wing(g), wide_move::<M>(g));
    let before = wing_cubie(&piece, n, depth);
    let after = wide_moved(piece, depth as u32, 0, &m);
    let expected = turned(
        (before, before),
        n,
        normal(m.face()),
        quarters(m.amount()),
        m.depth() as i8,
    );
    assert!(wing_cubie(&after, n, depth) == expected.0);
}

fn center_corner_rigid<G: Gen, const M: u32>(g: &mut G, n: i8, depth: i8) {
    let (piece, m) = (center_corner(g), wide_move::<M>(g));
    let before = center_corner_sticker(&piece, n, depth);
    let after = wide_moved(piece, depth as u32, 0, &m);
    let expected = turned(before, n, normal(m.face()), quarters(m.amount()), m.depth() as i8);
    assert!(center_corner_sticker(&after, n, depth) == expected);
}

fn center_edge_rigid<G: Gen, const M: u32>(g: &mut G, n: i8, depth: i8) {
    let (piece, m) = (center_edge(g), wide_move::<M>(g));
    let before = center_edge_sticker(&piece, n, depth);
    let after = wide_moved(piece, depth as u32, 0, &m);
    let expected = turned(before, n, normal(m.face()), quarters(m.amount()), m.depth() as i8);
    assert!(center_edge_sticker(&after, n, depth) == expected);
}

fn center_wing_rigid<G: Gen, const M: u32>(g: &mut G, n: i8, normal_depth: i8, tangent_depth: i8) {
    let (piece, m) = (center_wing(g), wide_move::<M>(g));
    let before = center_wing_sticker(&piece, n, normal_depth, tangent_depth);
    let after = wide_moved(piece, normal_depth as u32, tangent_depth as u32, &m);
    let expected = turned(before, n, normal(m.face()), quarters(m.amount()), m.depth() as i8);
    assert!(center_wing_sticker(&after, n, normal_depth, tangent_depth) == expected);
}

/// The pieces of a solved set are where they belong, all in different places, and solved
macro_rules! home {
    ($g:ident, $piece:ident, $n:literal) => {{
        let (i, j) = ($g.index($n), $g.index($n));
        let (a, b) = (&$piece::SOLVED[i], &$piece::SOLVED[j]);
        assert!(a.position() == $piece::REFERENCE_POSITIONS[i]);
        assert!(Piece::is_solved(a, &$piece::REFERENCE_POSITIONS[i]));
        assert!((a.position() == b.position()) == (i == j));
    }};
}

/// Turns of the same layers add up
macro_rules! add_up {
    ($g:ident, $piece:expr, $moved:expr) => {{
        let piece = $piece;
        let (a, b) = (wide_move::<2>($g), wide_move::<2>($g).axis_move.amount);
        let mut m = a.clone();
        m.axis_move.amount = b;
        let after = $moved($moved(piece.clone(), &a), &m);
        let sum = (quarters(a.axis_move.amount) + quarters(b)) % 4;
        if sum == 0 {
            assert!(after == piece);
        } else {
            for amount in [Amount::Single, Amount::Double, Amount::Inverse] {
                if quarters(amount) == sum {
                    m.axis_move.amount = amount;
                }
            }
            assert!(after == $moved(piece, &m));
        }
    }};
}

/// Turns of opposite faces commute
macro_rules! commute {
    ($g:ident, $piece:expr, $moved:expr) => {{
        let piece = $piece;
        let (a, mut b) = (wide_move::<2>($g), wide_move::<2>($g));
        b.axis_move.face = Face { axis: a.axis_move.face.axis, direction: -a.axis_move.face.direction };
        assert!($moved($moved(piece.clone(), &a), &b) == $moved($moved(piece, &b), &a));
    }};
}

obligations! {
    /// A move turns a corner as a rigid body if it is on the face, and leaves it alone otherwise
    #[unwind(9)]
    fn corner_move_is_rigid(g) {
        let (piece, m) = (corner(g), axis_move(g));
        let expected = turned(corner_sticker(&piece, 3), 3, normal(&m.face), quarters(m.amount), 0);
        let after = piece.moved(&m);
        assert!(corner_sticker(&after, 3) == expected);
    }

    /// Different corners are in different places or orientations
    #[unwind(9)]
    fn corner_sticker_is_injective(g) {
        let (a, b) = (corner(g), corner(g));
        assert!((a == b) == (corner_sticker(&a, 3) == corner_sticker(&b, 3)));
    }

    #[unwind(9)]
    fn edge_move_is_rigid(g) {
        let (piece, m) = (edge(g), axis_move(g));
        let expected = turned(edge_sticker(&piece, 3), 3, normal(&m.face), quarters(m.amount), 0);
        let after = piece.moved(&m);
        assert!(edge_sticker(&after, 3) == expected);
    }

    #[unwind(9)]
    fn edge_sticker_is_injective(g) {
        let (a, b) = (edge(g), edge(g));
        assert!((a == b) == (edge_sticker(&a, 3) == edge_sticker(&b, 3)));
    }

    #[unwind(9)]
    fn corner_rotation_is_rigid(g) {
        let (piece, r) = (corner(g), rotation(g));
        let (p, f) = corner_sticker(&piece, 3);
        let after = piece.rotated(&r);
        let k = quarters(r.amount);
        assert!(corner_sticker(&after, 3) == (turn(p, unit(r.axis), k), turn(f, unit(r.axis), k)));
    }

    #[unwind(9)]
    fn edge_rotation_is_rigid(g) {
        let (piece, r) = (edge(g), rotation(g));
        let (p, f) = edge_sticker(&piece, 3);
        let after = piece.rotated(&r);
        let k = quarters(r.amount);
        assert!(edge_sticker(&after, 3) == (turn(p, unit(r.axis), k), turn(f, unit(r.axis), k)));
    }

    #[unwind(9)]
    fn wing_4_1_is_rigid(g) { wing_rigid::<G, 1>(g, 4, 1) }
    #[unwind(9)]
    fn wing_5_1_is_rigid(g) { wing_rigid::<G, 1>(g, 5, 1) }
    #[unwind(9)]
    fn wing_6_1_is_rigid(g) { wing_rigid::<G, 2>(g, 6, 1) }
    #[unwind(9)]
    fn wing_6_2_is_rigid(g) { wing_rigid::<G, 2>(g, 6, 2) }
    #[unwind(9)]
    fn wing_7_1_is_rigid(g) { wing_rigid::<G, 2>(g, 7, 1) }
    #[unwind(9)]
    fn wing_7_2_is_rigid(g) { wing_rigid::<G, 2>(g, 7, 2) }

    #[unwind(9)]
    fn center_corner_4_1_is_rigid(g) { center_corner_rigid::<G, 1>(g, 4, 1) }
    #[unwind(9)]
    fn center_corner_5_1_is_rigid(g) { center_corner_rigid::<G, 1>(g, 5, 1) }
    #[unwind(9)]
    fn center_corner_6_1_is_rigid(g) { center_corner_rigid::<G, 2>(g, 6, 1) }
    #[unwind(9)]
    fn center_corner_6_2_is_rigid(g) { center_corner_rigid::<G, 2>(g, 6, 2) }
    #[unwind(9)]
    fn center_corner_7_1_is_rigid(g) { center_corner_rigid::<G, 2>(g, 7, 1) }
    #[unwind(9)]
    fn center_corner_7_2_is_rigid(g) { center_corner_rigid::<G, 2>(g, 7, 2) }

    #[unwind(9)]
    fn center_edge_5_1_is_rigid(g) { center_edge_rigid::<G, 1>(g, 5, 1) }
    #[unwind(9)]
    fn center_edge_7_1_is_rigid(g) { center_edge_rigid::<G, 2>(g, 7, 1) }
    #[unwind(9)]
    fn center_edge_7_2_is_rigid(g) { center_edge_rigid::<G, 2>(g, 7, 2) }

    #[unwind(9)]
    fn center_wing_6_is_rigid(g) { center_wing_rigid::<G, 2>(g, 6, 1, 2) }
    #[unwind(9)]
    fn center_wing_7_is_rigid(g) { center_wing_rigid::<G, 2>(g, 7, 1, 2) }

    /// Different wings are different cubies
    #[unwind(9)]
    fn wing_cubie_is_injective(g) {
        let (a, b) = (wing(g), wing(g));
        assert!((a == b) == (wing_cubie(&a, 7, 1) == wing_cubie(&b, 7, 1)));
    }
    #[unwind(9)]
    fn center_corner_sticker_is_injective(g) {
        let (a, b) = (center_corner(g), center_corner(g));
        assert!((a == b) == (center_corner_sticker(&a, 7, 1) == center_corner_sticker(&b, 7, 1)));
    }
    #[unwind(9)]
    fn center_edge_sticker_is_injective(g) {
        let (a, b) = (center_edge(g), center_edge(g));
        assert!((a == b) == (center_edge_sticker(&a, 7, 1) == center_edge_sticker(&b, 7, 1)));
    }
    #[unwind(9)]
    fn center_wing_sticker_is_injective(g) {
        let (a, b) = (center_wing(g), center_wing(g));
        assert!((a == b) == (center_wing_sticker(&a, 7, 1, 2) == center_wing_sticker(&b, 7, 1, 2)));
    }

    /// A move and then its inverse leave every piece as it was
    #[unwind(9)]
    fn corner_move_is_undone(g) {
        let (piece, m) = (corner(g), axis_move(g));
        assert!(piece.clone().moved(&m).moved(&m.inverse()) == piece);
    }
    #[unwind(9)]
    fn edge_move_is_undone(g) {
        let (piece, m) = (edge(g), axis_move(g));
        assert!(piece.clone().moved(&m).moved(&m.inverse()) == piece);
    }
    #[unwind(9)]
    fn wing_move_is_undone(g) {
        let (piece, m) = (wing(g), wide_move::<2>(g));
        let depth = g.int(4);
        let moved = wide_moved(piece.clone(), depth, 0, &m);
        assert!(wide_moved(moved, depth, 0, &m.inverse()) == piece);
    }
    #[unwind(9)]
    fn center_corner_move_is_undone(g) {
        let (piece, m) = (center_corner(g), wide_move::<2>(g));
        let depth = g.int(4);
        let moved = wide_moved(piece.clone(), depth, 0, &m);
        assert!(wide_moved(moved, depth, 0, &m.inverse()) == piece);
    }
    #[unwind(9)]
    fn center_edge_move_is_undone(g) {
        let (piece, m) = (center_edge(g), wide_move::<2>(g));
        let depth = g.int(4);
        let moved = wide_moved(piece.clone(), depth, 0, &m);
        assert!(wide_moved(moved, depth, 0, &m.inverse()) == piece);
    }
    #[unwind(9)]
    fn center_wing_move_is_undone(g) {
        let (piece, m) = (center_wing(g), wide_move::<2>(g));
        let (normal_depth, tangent_depth) = (g.int(4), g.int(4));
        let moved = wide_moved(piece.clone(), normal_depth, tangent_depth, &m);
        assert!(wide_moved(moved, normal_depth, tangent_depth, &m.inverse()) == piece);
    }

    #[unwind(9)]
    fn corner_turns_add_up(g) {
        add_up!(g, corner(g), |p: Corner, m: &WideAxisMove<2>| p.moved(&m.axis_move))
    }
    #[unwind(9)]
    fn corner_opposite_turns_commute(g) {
        commute!(g, corner(g), |p: Corner, m: &WideAxisMove<2>| p.moved(&m.axis_move))
    }
    #[unwind(9)]
    fn edge_turns_add_up(g) {
        add_up!(g, edge(g), |p: Edge, m: &WideAxisMove<2>| p.moved(&m.axis_move))
    }
    #[unwind(9)]
    fn edge_opposite_turns_commute(g) {
        commute!(g, edge(g), |p: Edge, m: &WideAxisMove<2>| p.moved(&m.axis_move))
    }
    #[unwind(9)]
    fn wing_turns_add_up(g) {
        let depth = g.int(4);
        add_up!(g, wing(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn wing_opposite_turns_commute(g) {
        let depth = g.int(4);
        commute!(g, wing(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn center_corner_turns_add_up(g) {
        let depth = g.int(4);
        add_up!(g, center_corner(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn center_corner_opposite_turns_commute(g) {
        let depth = g.int(4);
        commute!(g, center_corner(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn center_edge_turns_add_up(g) {
        let depth = g.int(4);
        add_up!(g, center_edge(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn center_edge_opposite_turns_commute(g) {
        let depth = g.int(4);
        commute!(g, center_edge(g), |p, m: &WideAxisMove<2>| wide_moved(p, depth, 0, m))
    }
    #[unwind(9)]
    fn center_wing_turns_add_up(g) {
        let (normal_depth, tangent_depth) = (g.int(4), g.int(4));
        add_up!(g, center_wing(g), |p, m: &WideAxisMove<2>| wide_moved(p, normal_depth, tangent_depth, m))
    }
    #[unwind(9)]
    fn center_wing_opposite_turns_commute(g) {
        let (normal_depth, tangent_depth) = (g.int(4), g.int(4));
        commute!(g, center_wing(g), |p, m: &WideAxisMove<2>| wide_moved(p, normal_depth, tangent_depth, m))
    }

    #[unwind(9)]
    fn solved_corners_are_at_home(g) { home!(g, Corner, 8) }
    #[unwind(13)]
    fn solved_edges_are_at_home(g) { home!(g, Edge, 12) }
    #[unwind(25)]
    fn solved_wings_are_at_home(g) { home!(g, Wing, 24) }
    #[unwind(25)]
    fn solved_center_corners_are_at_home(g) { home!(g, CenterCorner, 24) }
    #[unwind(25)]
    fn solved_center_edges_are_at_home(g) { home!(g, CenterEdge, 24) }
    #[unwind(49)]
    fn solved_center_wings_are_at_home(g) { home!(g, CenterWing, 48) }

    /// A corner is solved if and only if its stickers are where those of the solved one are
    #[unwind(9)]
    fn corner_is_solved_iff_its_stickers_are_home(g) {
        let (piece, i) = (corner(g), g.index(8));
        let home = &Corner::SOLVED[i];
        assert!(piece.is_solved(&Corner::REFERENCE_POSITIONS[i]) == (corner_sticker(&piece, 3) == corner_sticker(home, 3)));
    }
    #[unwind(13)]
    fn edge_is_solved_iff_its_stickers_are_home(g) {
        let (piece, i) = (edge(g), g.index(12));
        let home = &Edge::SOLVED[i];
        assert!(piece.is_solved(&Edge::REFERENCE_POSITIONS[i]) == (edge_sticker(&piece, 3) == edge_sticker(home, 3)));
    }
    #[unwind(25)]
    fn wing_is_solved_iff_it_is_home(g) {
        let (piece, i) = (wing(g), g.index(24));
        let home = &Wing::SOLVED[i];
        assert!(piece.is_solved(&Wing::REFERENCE_POSITIONS[i]) == (wing_cubie(&piece, 7, 1) == wing_cubie(home, 7, 1)));
    }
    /// A center is solved if and only if it shows on the face where it belongs
    #[unwind(25)]
    fn center_corner_is_solved_iff_on_its_face(g) {
        let (piece, i) = (center_corner(g), g.index(24));
        let home = &CenterCorner::SOLVED[i];
        assert!(Piece::is_solved(&piece, &CenterCorner::REFERENCE_POSITIONS[i]) == (center_corner_sticker(&piece, 7, 1).1 == center_corner_sticker(home, 7, 1).1));
    }
    #[unwind(25)]
    fn center_edge_is_solved_iff_on_its_face(g) {
        let (piece, i) = (center_edge(g), g.index(24));
        let home = &CenterEdge::SOLVED[i];
        assert!(piece.is_solved(&CenterEdge::REFERENCE_POSITIONS[i]) == (center_edge_sticker(&piece, 7, 1).1 == center_edge_sticker(home, 7, 1).1));
    }
    #[unwind(49)]
    fn center_wing_is_solved_iff_on_its_face(g) {
        let (piece, i) = (center_wing(g), g.index(48));
        let home = &CenterWing::SOLVED[i];
        assert!(piece.is_solved(&CenterWing::REFERENCE_POSITIONS[i]) == (center_wing_sticker(&piece, 7, 1, 2).1 == center_wing_sticker(home, 7, 1, 2).1));
    }
}

//! Every value of the types of the library, from a source of choices; and where a piece is in space.

use barbarosa::{
    cube_n::{
        center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing},
        moves::{rotation::AxisRotation, Amount, QuarterAxisMove},
        space::{Axis, Direction, Face},
        AxisMove, Corner, Edge, WideAxisMove, Wing,
    },
    generic::piece::PieceSetDescriptor,
};
use nalgebra::{Vector2, Vector3};

use crate::{
    choice::Gen,
    geom::{scale, sign, unit, Sticker, V},
};

pub fn axis(g: &mut impl Gen) -> Axis {
    match g.int(3) {
        0 => Axis::X,
        1 => Axis::Y,
        _ => Axis::Z,
    }
}

pub fn direction(g: &mut impl Gen) -> Direction {
    if g.flag() {
        Direction::Negative
    } else {
        Direction::Positive
    }
}

pub fn amount(g: &mut impl Gen) -> Amount {
    match g.int(3) {
        0 => Amount::Single,
        1 => Amount::Double,
        _ => Amount::Inverse,
    }
}

pub fn face(g: &mut impl Gen) -> Face {
    Face::new(axis(g), direction(g))
}

pub fn axis_move(g: &mut impl Gen) -> AxisMove {
    AxisMove::new(face(g), amount(g))
}

pub fn quarter_move(g: &mut impl Gen) -> QuarterAxisMove {
    QuarterAxisMove::new(face(g), direction(g))
}

pub fn rotation(g: &mut impl Gen) -> AxisRotation {
    AxisRotation::new(axis(g), amount(g))
}

pub fn wide_move<const M: u32>(g: &mut impl Gen) -> WideAxisMove<M> {
    let depth = g.int(M + 1);
    WideAxisMove::new(face(g), amount(g), depth).unwrap()
}

pub fn edge(g: &mut impl Gen) -> Edge {
    Edge::new(axis(g), Vector2::new(direction(g), direction(g)), g.flag())
}

pub fn edge_position(g: &mut impl Gen) -> (Axis, Vector2<Direction>) {
    (axis(g), Vector2::new(direction(g), direction(g)))
}

pub fn corner_position(g: &mut impl Gen) -> Vector3<Direction> {
    Vector3::new(direction(g), direction(g), direction(g))
}

pub fn corner(g: &mut impl Gen) -> Corner {
    Corner::new(corner_position(g), axis(g))
}

pub fn wing(g: &mut impl Gen) -> Wing {
    Wing::new(
        axis(g),
        Vector2::new(direction(g), direction(g)),
        direction(g),
    )
}

pub fn center_corner(g: &mut impl Gen) -> CenterCorner {
    CenterCorner::SOLVED[g.index(24)].clone()
}

pub fn center_edge(g: &mut impl Gen) -> CenterEdge {
    CenterEdge::new(face(g), direction(g), direction(g))
}

pub fn center_wing(g: &mut impl Gen) -> CenterWing {
    CenterWing::new(face(g), direction(g), direction(g), direction(g))
}

// Where pieces are, in space. The stickers of a piece are told apart by where they are when the piece is solved.

pub fn corner_vector(position: &Vector3<Direction>) -> V {
    [sign(position.x), sign(position.y), sign(position.z)]
}

/// The sticker of a corner that belongs to the U or the D face, on a cube of size `n`
pub fn corner_sticker(corner: &Corner, n: i8) -> Sticker {
    let v = corner_vector(&corner.position);
    let along = unit(corner.orientation_axis);
    (
        scale(n - 1, v),
        [along[0] * v[0], along[1] * v[1], along[2] * v[2]],
    )
}

/// A position with coordinate `a` along the axis before the last of `normal -> . -> .`, and so on
pub fn on_slice(normal: Axis, along_normal: i8, first: i8, second: i8) -> V {
    match normal {
        Axis::X => [along_normal, first, second],
        Axis::Y => [second, along_normal, first],
        Axis::Z => [first, second, along_normal],
    }
}

pub fn edge_vector(&(normal, slice): &(Axis, Vector2<Direction>)) -> V {
    on_slice(normal, 0, sign(slice.x), sign(slice.y))
}

/// The faces of an edge at `position`: first the one on U or D (or else on F or B), then the other one.
pub fn edge_faces(position: &(Axis, Vector2<Direction>)) -> [V; 2] {
    let v = edge_vector(position);
    let part = |i: usize| {
        let mut w = [0; 3];
        w[i] = v[i];
        w
    };
    match position.0 {
        Axis::X => [part(1), part(2)],
        Axis::Y => [part(2), part(0)],
        Axis::Z => [part(1), part(0)],
    }
}

/// The main sticker of an edge: the one that belongs to the U or the D face or, if there is none, to the F or B face.
pub fn edge_sticker(edge: &Edge, n: i8) -> Sticker {
    let position = (edge.normal_axis, edge.slice_position);
    let [main, other] = edge_faces(&position);
    (
        scale(n - 1, edge_vector(&position)),
        if edge.oriented { main } else { other },
    )
}

/// The cubie of a wing at a given depth, on a cube of size `n`. It determines where its stickers are.
pub fn wing_cubie(wing: &Wing, n: i8, depth: i8) -> V {
    let slice = wing.slice_position();
    on_slice(
        wing.normal_axis(),
        sign(wing.normal_direction()) * ((n - 1) - 2 * depth),
        sign(slice.x) * (n - 1),
        sign(slice.y) * (n - 1),
    )
}

/// The sticker of a center corner at a given depth, on a cube of size `n`
pub fn center_corner_sticker(piece: &CenterCorner, n: i8, depth: i8) -> Sticker {
    let (position, axis) = piece.verif_parts();
    let v = corner_vector(&position);
    let u = unit(axis);
    let inner = (n - 1) - 2 * depth;
    let at = |i: usize| if u[i] != 0 { v[i] * (n - 1) } else { v[i] * inner };
    ([at(0), at(1), at(2)], [u[0] * v[0], u[1] * v[1], u[2] * v[2]])
}

/// The sticker of a center edge whose distance to the nearest face other than its own is `depth` layers
pub fn center_edge_sticker(piece: &CenterEdge, n: i8, depth: i8) -> Sticker {
    let main = crate::geom::normal(&piece.main_face);
    let side = crate::geom::normal(&piece.side_face());
    (
        crate::geom::add(scale(n - 1, main), scale((n - 1) - 2 * depth, side)),
        main,
    )
}

/// The sticker of a center wing that is `normal_depth` layers from its side face, and `tangent_depth` layers
/// from the face in its normal direction.
pub fn center_wing_sticker(
    piece: &CenterWing,
    n: i8,
    normal_depth: i8,
    tangent_depth: i8,
) -> Sticker {
    let main = crate::geom::normal(piece.main_face());
    let side = crate::geom::normal(&piece.side_face());
    let third = scale(sign(piece.normal_direction()), unit(piece.normal_axis()));
    (
        crate::geom::add(
            crate::geom::add(
                scale(n - 1, main),
                scale((n - 1) - 2 * normal_depth, side),
            ),
            scale((n - 1) - 2 * tangent_depth, third),
        ),
        main,
    )
}

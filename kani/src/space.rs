//! Contracts of the algebra of axes, directions, faces, amounts and rotations: they are what they are in space.

use barbarosa::{
    cube_n::{
        moves::{
            rotation::{rotate_vec2, AxisRotation, Rotatable},
            Amount,
        },
        space::{Axis, Direction, Face},
        center::edge::CenterEdge,
        Corner, Edge, Wing,
    },
    generic::{utils::slice_coords, Movable, Move, Piece},
};
use nalgebra::{Vector2, Vector3};

use crate::{geom::*, obligations, values::*};

fn vector(v: &Vector3<i8>) -> V {
    [v.x, v.y, v.z]
}

fn quarters_of(amount: Option<Amount>) -> u8 {
    match amount {
        None => 0,
        Some(amount) => quarters(amount),
    }
}

obligations! {
    #[unwind(9)]
    fn direction_is_a_sign(g) {
        let d = direction(g);
        assert!(d.scalar() == sign(d));
        assert!(i8::from(&d) == sign(d));
        assert!(sign(-d) == -sign(d));
    }
    #[unwind(9)]
    fn axis_order_is_right_handed(g) {
        let a = axis(g);
        assert!(cross(unit(a), unit(a.next())) == unit(a.prev()));
        assert!(a.next().prev() == a && a.prev().next() == a);
        let [x, y] = Axis::basis(&a);
        assert!(cross(unit(x), unit(y)) == unit(a));
        assert!(vector(&Vector3::from(&a)) == unit(a));
        assert!(a.next_with_handedness(Direction::Positive) == a.next());
        assert!(a.next_with_handedness(Direction::Negative) == a.prev());
    }
    #[unwind(9)]
    fn axis_pairs_are_right_handed(g) {
        let (a, b) = (axis(g), axis(g));
        let c = cross(unit(a), unit(b));
        match Axis::other(&a, &b) {
            None => assert!(a == b),
            Some(other) => assert!(a != b && (c == unit(other) || c == scale(-1, unit(other)))),
        }
        match a.get_handedness(&b) {
            Err(_) => assert!(a == b),
            Ok(d) => assert!(c == scale(sign(d), unit(Axis::other(&a, &b).unwrap()))),
        }
        let expected = if a == b { 0 } else if a.next() == b { 1 } else { 2 };
        assert!(a.offset(&b) == expected);
    }
    #[unwind(9)]
    fn axis_maps_its_slice(g) {
        let (a, v) = (axis(g), Vector3::new(g.int(3), g.int(3), g.int(3)));
        let (p, q) = (g.int(3), g.int(3));
        let [x, y] = Axis::basis(&a);
        let w = a.map_on_slice(v, |[s, t]| {
            assert!(*s == v[x as usize] && *t == v[y as usize]);
            Vector2::new(p, q)
        });
        assert!(w[x as usize] == p && w[y as usize] == q && w[a as usize] == v[a as usize]);
        let s = slice_coords(v, a);
        let expected = match a {
            Axis::X => [v.y, v.z],
            Axis::Y => [v.x, v.z],
            Axis::Z => [v.x, v.y],
        };
        assert!([s.x, s.y] == expected);
    }
    #[unwind(9)]
    fn face_is_its_normal(g) {
        let f = face(g);
        assert!(vector(&f.coords()) == normal(&f));
        assert!(vector(&Vector3::from(&f)) == normal(&f));
        assert!(normal(&f.opposite()) == scale(-1, normal(&f)));
    }
    #[unwind(9)]
    fn face_turns_around_axes(g) {
        let (f, a) = (face(g), axis(g));
        assert!(normal(&f.clone().next_around(&a)) == turn(normal(&f), unit(a), 1));
        assert!(normal(&f.clone().prev_around(&a)) == turn(normal(&f), unit(a), 3));
    }
    #[unwind(9)]
    fn face_cross_product(g) {
        let (f, h) = (face(g), face(g));
        match f.cross(&h) {
            None => assert!(f.axis == h.axis),
            Some(c) => assert!(normal(&c) == cross(normal(&f), normal(&h))),
        }
    }
    #[unwind(8)]
    fn face_iter_and_index_agree(g) {
        let f = face(g);
        let mut n = 0;
        let mut seen = 0;
        for h in Face::iter() {
            assert!(h.index() == n);
            n += 1;
            if h == f {
                seen += 1;
            }
        }
        assert!(n == 6 && seen == 1);
    }
    #[unwind(9)]
    fn face_contains_what_is_on_it(g) {
        let (f, c, e) = (face(g), corner_position(g), edge(g));
        assert!(f.contains_vector(&c) == (dot(normal(&f), corner_vector(&c)) > 0));
        assert!(f.contains_edge(&e) == (dot(normal(&f), edge_vector(&e.position())) > 0));
    }
    #[unwind(9)]
    fn amounts_are_quarter_turns(g) {
        let (a, b, d) = (amount(g), amount(g), direction(g));
        assert!(quarters_of(a + b) == (quarters(a) + quarters(b)) % 4);
        assert!(quarters(a * d) as i8 == (4 + sign(d) * quarters(a) as i8) % 4);
        assert!(quarters(Amount::from(d)) as i8 == (4 + sign(d)) % 4);
    }
    #[unwind(9)]
    fn rotations_turn_what_they_rotate(g) {
        let r = rotation(g);
        let (f, c, a) = (face(g), corner_position(g), axis(g));
        let k = quarters(r.amount);
        let n = unit(r.axis);
        assert!(normal(&f.clone().rotated(&r)) == turn(normal(&f), n, k));
        assert!(corner_vector(&c.rotated(&r)) == turn(corner_vector(&c), n, k));
        let line = turn(unit(a), n, k);
        let rotated = unit(a.rotated(&r));
        assert!(line == rotated || line == scale(-1, rotated));
        assert!(quarters(r.inverse().amount) == 4 - k && r.inverse().axis == r.axis);
    }
    #[unwind(9)]
    fn vec2_rotates_clockwise(g) {
        let (x, y, a) = (direction(g), direction(g), amount(g));
        let w = rotate_vec2(&a, &Vector2::new(x, y));
        let expected = turn([sign(x), sign(y), 0], [0, 0, 1], quarters(a));
        assert!([sign(w.x), sign(w.y), 0] == expected);
    }
    #[unwind(9)]
    fn move_rotation_is_the_turn_of_its_face(g) {
        let (m, v) = (axis_move(g), corner_vector(&corner_position(g)));
        let r = AxisRotation::from(&m);
        assert!(turn(v, unit(r.axis), quarters(r.amount)) == turn(v, normal(&m.face), quarters(m.amount)));
    }
    #[unwind(9)]
    fn moves_have_inverses(g) {
        let (m, q) = (axis_move(g), quarter_move(g));
        let i = m.inverse();
        assert!(i.face == m.face && (m.amount + i.amount).is_none());
        let j = q.inverse();
        assert!(j.face == q.face && j.direction == -q.direction);
        let w = wide_move::<2>(g);
        assert!(w.inverse().axis_move == w.axis_move.inverse() && w.inverse().depth() == w.depth());
    }
    /// A rotated move does to the rotated piece what the move does to the piece
    #[unwind(9)]
    fn rotated_moves_are_conjugates(g) {
        let (m, r, c) = (axis_move(g), rotation(g), corner(g));
        let rotated = m.clone().rotated(&r);
        assert!(normal(&rotated.face) == turn(normal(&m.face), unit(r.axis), quarters(r.amount)));
        assert!(rotated.amount == m.amount);
        let a: Corner = c.clone().moved(&m).rotated(&r);
        let b: Corner = c.rotated(&r).moved(&rotated);
        assert!(a == b);
    }
    #[unwind(9)]
    fn rotated_moves_are_conjugates_on_edges(g) {
        let (m, r, e) = (axis_move(g), rotation(g), edge(g));
        let rotated = m.clone().rotated(&r);
        let a: Edge = e.clone().moved(&m).rotated(&r);
        let b: Edge = e.rotated(&r).moved(&rotated);
        assert!(a == b);
    }
    #[unwind(9)]
    fn wings_are_between_their_faces(g) {
        let w = wing(g);
        let position = (w.normal_axis(), w.slice_position());
        let [a, b] = w.faces();
        assert!(add(normal(&a), normal(&b)) == edge_vector(&position));
        assert!(Wing::try_from_faces([a.clone(), b.clone()], w.normal_direction()).unwrap() == w);
        assert!(Wing::try_from_faces([b, a], w.normal_direction()).unwrap() == w);
        let (f, h, d) = (face(g), face(g), direction(g));
        match Wing::try_from_faces([f.clone(), h.clone()], d) {
            Err(_) => assert!(f.axis == h.axis),
            Ok(w) => {
                assert!(f.axis != h.axis && w.normal_direction() == d);
                assert!(edge_vector(&(w.normal_axis(), w.slice_position())) == add(normal(&f), normal(&h)));
            }
        }
    }
    #[unwind(9)]
    fn center_edges_are_beside_their_faces(g) {
        let (main, side) = (face(g), face(g));
        match CenterEdge::try_from_faces(main.clone(), side.clone()) {
            Err(_) => assert!(main.axis == side.axis),
            Ok(c) => {
                assert!(main.axis != side.axis && c.main_face == main && c.side_face() == side);
                assert!(c.normal_axis() != main.axis && c.normal_axis() != side.axis);
            }
        }
    }
    #[unwind(9)]
    fn edge_faces_are_around_it(g) {
        let e = edge(g);
        let position = e.position();
        let [a, b] = e.faces();
        assert!(add(normal(&a), normal(&b)) == edge_vector(&position));
        assert!(Edge::position_from_faces([a.clone(), b.clone()]).unwrap() == position);
        assert!(Edge::position_from_faces([b, a]).unwrap() == position);
        let [main, other] = edge_faces(&position);
        assert!(normal(&Edge::orientation_face(position)) == main);
        assert!(normal(&Edge::non_orientation_face(position)) == other);
        let axis = axis(g);
        let along = dot(unit(axis), edge_vector(&position));
        match Edge::direction_on_axis(&position, axis) {
            None => assert!(along == 0),
            Some(d) => assert!(along == sign(d)),
        }
    }
    #[unwind(9)]
    fn edges_are_between_perpendicular_faces(g) {
        let (a, b) = (face(g), face(g));
        match Edge::try_from([a.clone(), b.clone()]) {
            Err(_) => assert!(a.axis == b.axis),
            Ok(e) => {
                assert!(a.axis != b.axis && e.oriented);
                assert!(edge_vector(&e.position()) == add(normal(&a), normal(&b)));
            }
        }
    }
    #[unwind(9)]
    fn corner_faces_are_around_it(g) {
        let c = corner(g);
        let [x, y, z] = c.faces();
        assert!(add(add(normal(&x), normal(&y)), normal(&z)) == corner_vector(&c.position));
    }
}

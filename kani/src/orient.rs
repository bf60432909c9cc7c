//! Contracts of orientations, and of cubes that have one: a cube is seen as it would be if it had been turned in space.
//!
//! A cube with an orientation is its base cube, whose stickers have coordinates in its own frame, and the orthogonal
//! map from that frame to the space of someone who looks at it: the original R face is at `r_face`, and so on.

use barbarosa::{
    cube_n::{
        moves::{
            rotation::Rotatable,
            verif::{Log, Recorder2, Recorder3, Recorder4, Recorder5, Recorder6, Recorder7},
            ExtendedAxisMove,
        },
        AxisMove, CubeN, Orientable, Orientation, WideAxisMove,
    },
    generic::{moves::AsMove, Cube, Movable, Move},
};

use crate::{choice::Gen, geom::*, obligations, values::*};

/// Where the R and the U faces of the base cube are
type Frame = (V, V);

/// From the frame of the base cube to the space around it
fn outwards((r, u): Frame, v: V) -> V {
    add(add(scale(v[0], r), scale(v[1], u)), scale(v[2], cross(r, u)))
}

fn frame_of(orientation: &Orientation) -> Frame {
    (normal(orientation.r_face()), normal(&orientation.u_face()))
}

fn orientation(g: &mut impl Gen) -> Orientation {
    let (r, u) = (face(g), face(g));
    g.assume(r.axis != u.axis);
    Orientation::try_from([r, u]).unwrap()
}

fn coordinate(g: &mut impl Gen, n: i8) -> i8 {
    2 * g.int(n as u32) as i8 - (n - 1)
}

fn sticker(g: &mut impl Gen, n: i8) -> Sticker {
    ([coordinate(g, n), coordinate(g, n), coordinate(g, n)], normal(&face(g)))
}

fn moved_by(log: &Log, n: i8, sticker: Sticker) -> Sticker {
    let mut sticker = sticker;
    let mut i = 0;
    while i < 3 {
        if let Some((m, depth)) = &log[i] {
            sticker = turned(sticker, n, normal(&m.face), quarters(m.amount), *depth as i8);
        }
        i += 1;
    }
    sticker
}

/// What a move does to a sticker, for someone who looks at the cube
fn seen_moved(m: &ExtendedAxisMove, n: i8, sticker: Sticker) -> Sticker {
    match m {
        ExtendedAxisMove::Regular(m) => turned(sticker, n, normal(&m.face), quarters(m.amount), 0),
        ExtendedAxisMove::Rotation(r) => turned(sticker, n, unit(r.axis), quarters(r.amount), n - 1),
        ExtendedAxisMove::Wide(m) => {
            let depth = if m.depth() >= n as u32 { n - 1 } else { m.depth() as i8 };
            turned(sticker, n, normal(m.face()), quarters(m.amount()), depth)
        }
        ExtendedAxisMove::Slice { rot, wide } => {
            // All layers but the outer ones, or but the middle one if there is one
            let outer = if *wide { n / 2 } else { 1 };
            let along = dot(sticker.0, unit(rot.axis));
            if along < (n - 1) - 2 * (outer - 1) && -along < (n - 1) - 2 * (outer - 1) {
                let k = quarters(rot.amount);
                (turn(sticker.0, unit(rot.axis), k), turn(sticker.1, unit(rot.axis), k))
            } else {
                sticker
            }
        }
    }
}

/// The move is the one that is made for someone who looks at the cube
fn seen<G: Gen, C: CubeN + 'static>(
    g: &mut G,
    m: ExtendedAxisMove,
    log: impl Fn(&C) -> Log,
) where
    Orientable<C>: Movable<ExtendedAxisMove> + AsMove<Move = ExtendedAxisMove>,
{
    let n = C::N as i8;
    let mut cube = Orientable::new(C::SOLVED);
    cube.orientation = orientation(g);
    let before = frame_of(&cube.orientation);
    let (position, facing) = sticker(g, n);
    cube.apply(&m);
    let after = frame_of(&cube.orientation);
    let (new_position, new_facing) = moved_by(&log(&cube.base_cube), n, (position, facing));
    let expected = seen_moved(&m, n, (outwards(before, position), outwards(before, facing)));
    assert!((outwards(after, new_position), outwards(after, new_facing)) == expected);
}

/// The outward normal of a face of the axis of a move
fn axis_of(m: &ExtendedAxisMove) -> V {
    match m {
        ExtendedAxisMove::Regular(m) => normal(&m.face),
        ExtendedAxisMove::Rotation(r) => unit(r.axis),
        ExtendedAxisMove::Wide(m) => normal(m.face()),
        ExtendedAxisMove::Slice { rot, .. } => unit(rot.axis),
    }
}

/// How many quarters the move turns a layer clockwise around its axis; layers are counted from the face of the axis
fn quarters_of_layer(m: &ExtendedAxisMove, n: u32, layer: u32) -> u8 {
    let (turns, k) = match m {
        ExtendedAxisMove::Regular(m) => (layer == 0, quarters(m.amount)),
        ExtendedAxisMove::Rotation(r) => (true, quarters(r.amount)),
        ExtendedAxisMove::Wide(m) => (layer <= m.depth(), quarters(m.amount())),
        ExtendedAxisMove::Slice { rot, wide } => {
            let outer = if *wide { n / 2 } else { 1 };
            (layer >= outer && n - 1 - layer >= outer, quarters(rot.amount))
        }
    };
    if turns { k } else { 0 }
}

/// The same, layer by layer: everything turns around the axis of the move, and each layer by as much as it should.
/// (A turn of the layers of a face in the frame of the base cube is the turn of the same layers of the face that is seen.)
fn seen_by_layer<G: Gen, C: CubeN + 'static>(g: &mut G, m: ExtendedAxisMove, log: impl Fn(&C) -> Log)
where
    Orientable<C>: Movable<ExtendedAxisMove> + AsMove<Move = ExtendedAxisMove>,
{
    let mut cube = Orientable::new(C::SOLVED);
    cube.orientation = orientation(g);
    let before = frame_of(&cube.orientation);
    let layer = g.int(C::N);
    cube.apply(&m);
    let after = frame_of(&cube.orientation);
    let axis = axis_of(&m);
    let around = |k: u8| (turn(before.0, axis, k), turn(before.1, axis, k));
    let mut total = if around(0) == after {
        0
    } else if around(1) == after {
        1
    } else if around(2) == after {
        2
    } else {
        assert!(around(3) == after);
        3
    };
    let log = log(&cube.base_cube);
    let mut i = 0;
    while i < 3 {
        if let Some((made, depth)) = &log[i] {
            let face = outwards(before, normal(&made.face));
            let k = quarters(made.amount);
            if face == axis {
                total += if layer <= *depth { k } else { 0 };
            } else {
                assert!(face == scale(-1, axis));
                total += if C::N - 1 - layer <= *depth { 4 - k } else { 0 };
            }
        }
        i += 1;
    }
    assert!(total % 4 == quarters_of_layer(&m, C::N, layer));
}

/// All depths that matter: those of the layers of the cube, and more
fn extended_wide(g: &mut impl Gen) -> ExtendedAxisMove {
    let depth = g.int(9);
    let depth = if depth == 8 { u32::MAX - g.int(2) } else { depth };
    ExtendedAxisMove::Wide(WideAxisMove::new(face(g), amount(g), depth).unwrap())
}

fn extended_other(g: &mut impl Gen) -> ExtendedAxisMove {
    match g.int(2) {
        0 => ExtendedAxisMove::Regular(axis_move(g)),
        _ => ExtendedAxisMove::Rotation(rotation(g)),
    }
}

fn extended_slice(g: &mut impl Gen) -> ExtendedAxisMove {
    ExtendedAxisMove::Slice { rot: rotation(g), wide: g.flag() }
}

fn extended(g: &mut impl Gen) -> ExtendedAxisMove {
    match g.int(3) {
        0 => extended_wide(g),
        1 => extended_other(g),
        _ => extended_slice(g),
    }
}

fn clockwise(m: &AxisMove, k: u8) -> bool {
    quarters(m.amount) == k
}

obligations! {
    #[unwind(9)]
    fn orientation_is_where_two_faces_are(g) {
        let (r, u) = (face(g), face(g));
        match Orientation::try_from([r.clone(), u.clone()]) {
            Err(_) => assert!(r.axis == u.axis),
            Ok(o) => assert!(r.axis != u.axis && *o.r_face() == r && o.u_face() == u),
        }
    }
    #[unwind(9)]
    fn orientations_are_equal_if_their_faces_are(g) {
        let (a, b) = (orientation(g), orientation(g));
        assert!((a == b) == (frame_of(&a) == frame_of(&b)));
    }
    #[unwind(9)]
    fn default_orientation_is_upright(g) {
        let _ = g.flag();
        assert!(frame_of(&Orientation::default()) == ([1, 0, 0], [0, 1, 0]));
        assert!(Orientable::new(Recorder2::SOLVED).orientation == Orientation::default());
        assert!(Orientable::from(Recorder2::SOLVED).orientation == Orientation::default());
        assert!(Orientable::<Recorder2>::SOLVED.orientation == Orientation::default());
    }
    #[unwind(9)]
    fn orientation_rotates(g) {
        let (mut o, rot) = (orientation(g), rotation(g));
        let (r, u) = frame_of(&o);
        o.rotate(&rot);
        let k = quarters(rot.amount);
        assert!(frame_of(&o) == (turn(r, unit(rot.axis), k), turn(u, unit(rot.axis), k)));
    }
    /// The rotations of an orientation lead to it
    #[unwind(9)]
    fn rotations_lead_to_the_orientation(g) {
        let o = orientation(g);
        let (mut r, mut u) = ([1, 0, 0], [0, 1, 0]);
        for rot in o.rotations() {
            let k = quarters(rot.amount);
            (r, u) = (turn(r, unit(rot.axis), k), turn(u, unit(rot.axis), k));
        }
        assert!((r, u) == frame_of(&o));
    }
    /// `to_default` goes from the space around the cube to the frame of the base cube
    #[unwind(9)]
    fn to_default_is_the_inverse_map(g) {
        let (o, f) = (orientation(g), face(g));
        let frame = frame_of(&o);
        assert!(outwards(frame, normal(&o.to_default(f.clone()))) == normal(&f));
        let k = amount(g);
        let m = o.to_default(AxisMove::new(f.clone(), k));
        assert!(outwards(frame, normal(&m.face)) == normal(&f) && m.amount == k);
    }
    /// A move turns the face that is seen there, clockwise, and leaves the orientation alone
    #[unwind(9)]
    fn a_rotated_cube_makes_the_move_that_is_seen(g) {
        let mut cube = Orientable::new(Recorder7::SOLVED);
        cube.orientation = orientation(g);
        let (before, m) = (cube.orientation.clone(), axis_move(g));
        cube.apply(&m);
        assert!(cube.orientation == before);
        assert!(cube.base_cube.log[1].is_none());
        let (made, depth) = cube.base_cube.log[0].clone().unwrap();
        assert!(depth == 0 && clockwise(&made, quarters(m.amount)));
        assert!(outwards(frame_of(&before), normal(&made.face)) == normal(&m.face));
    }

    #[unwind(9)]
    fn extended_2_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder2>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_2_is_as_seen(g) { let m = extended(g); seen::<G, Recorder2>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_3_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder3>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_3_is_as_seen(g) { let m = extended(g); seen::<G, Recorder3>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_4_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder4>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_4_is_as_seen(g) { let m = extended(g); seen::<G, Recorder4>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_5_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder5>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_5_is_as_seen(g) { let m = extended(g); seen::<G, Recorder5>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_6_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder6>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_6_is_as_seen(g) { let m = extended(g); seen::<G, Recorder6>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_7_turns_the_layers_seen(g) { let m = extended(g); seen_by_layer::<G, Recorder7>(g, m, |c| c.log.clone()) }
    #[unwind(9)]
    fn extended_7_is_as_seen(g) { let m = extended(g); seen::<G, Recorder7>(g, m, |c| c.log.clone()) }

    /// A move and its inverse cancel, for someone who looks at the cube
    #[unwind(9)]
    fn extended_moves_have_inverses(g) {
        let (m, n) = (extended(g), g.int(6) as i8 + 2);
        let s = sticker(g, n);
        assert!(seen_moved(&m.inverse(), n, seen_moved(&m, n, s)) == s);
    }
    /// What becomes an extended move is that move
    #[unwind(9)]
    fn moves_become_extended(g) {
        let m = axis_move(g);
        assert!(ExtendedAxisMove::from(m.clone()) == ExtendedAxisMove::Regular(m));
        let m = wide_move::<2>(g);
        match ExtendedAxisMove::from(m.clone()) {
            ExtendedAxisMove::Wide(w) => assert!(w.axis_move == m.axis_move && w.depth() == m.depth()),
            _ => assert!(false),
        }
        let r = rotation(g);
        assert!(ExtendedAxisMove::from(r.clone()) == ExtendedAxisMove::Rotation(r.clone()));
        let wide = g.flag();
        assert!(ExtendedAxisMove::from((r.clone(), wide)) == ExtendedAxisMove::Slice { rot: r, wide });
    }
}

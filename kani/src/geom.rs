//! The oracle: rigid motions of stickers in space. It shares nothing with the code under
//! verification but the meaning of the axes (X to the right, Y up, Z to the front).

use barbarosa::cube_n::{
    moves::Amount,
    space::{Axis, Direction, Face},
};

pub type V = [i8; 3];

pub fn dot(a: V, b: V) -> i8 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}

pub fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}

pub fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}

pub fn scale(k: i8, a: V) -> V {
    [k * a[0], k * a[1], k * a[2]]
}

/// A quarter turn of `v`, clockwise for someone who looks at the tip of the unit vector `n`
pub fn quarter(v: V, n: V) -> V {
    // What is along `n` stays, the rest `w` goes to `w x n`
    let along = scale(dot(v, n), n);
    add(along, cross(add(v, scale(-1, along)), n))
}

/// `k` clockwise quarter turns around `n`
pub fn turn(v: V, n: V, k: u8) -> V {
    let k = k % 4;
    let w = if k & 1 == 1 { quarter(v, n) } else { v };
    if k & 2 == 2 {
        quarter(quarter(w, n), n)
    } else {
        w
    }
}

pub fn quarters(amount: Amount) -> u8 {
    match amount {
        Amount::Single => 1,
        Amount::Double => 2,
        Amount::Inverse => 3,
    }
}

pub fn sign(direction: Direction) -> i8 {
    match direction {
        Direction::Positive => 1,
        Direction::Negative => -1,
    }
}

pub fn unit(axis: Axis) -> V {
    match axis {
        Axis::X => [1, 0, 0],
        Axis::Y => [0, 1, 0],
        Axis::Z => [0, 0, 1],
    }
}

/// The outward normal of a face
pub fn normal(face: &Face) -> V {
    scale(sign(face.direction), unit(face.axis))
}

/// The face that a vector along an axis points to
pub fn face_towards(v: V) -> Face {
    let direction = |x: i8| {
        if x > 0 {
            Direction::Positive
        } else {
            Direction::Negative
        }
    };
    if v[0] != 0 {
        Face::new(Axis::X, direction(v[0]))
    } else if v[1] != 0 {
        Face::new(Axis::Y, direction(v[1]))
    } else {
        Face::new(Axis::Z, direction(v[2]))
    }
}

/// A sticker of an `n x n x n` cube: the center of its cubie (in half cubies, from the center of the cube)
/// and the direction in which it faces.
pub type Sticker = (V, V);

/// Turns the `depth + 1` layers next to the face with outward normal `face` by `k` clockwise quarter turns
pub fn turned(sticker: Sticker, n: i8, face: V, k: u8, depth: i8) -> Sticker {
    let (position, facing) = sticker;
    if dot(position, face) >= (n - 1) - 2 * depth {
        (turn(position, face, k), turn(facing, face, k))
    } else {
        sticker
    }
}

//! Printing and parsing, natively: the reference is the notation as cubers write it. The contracts are those of verus/parsing.py.
use barbarosa::cube_n::{
    moves::{rotation::AxisRotation, Amount, ExtendedAxisMove, NonRedundantAxisMove},
    space::{Axis, Face},
    AxisMove, WideAxisMove,
};
use barbarosa::generic::{Alg, Parsable};

use crate::choice::Gen;
use crate::probes;
use crate::values::axis_move;

fn face_of(c: char) -> Option<Face> {
    Some(match c {
        'R' => Face::R,
        'L' => Face::L,
        'U' => Face::U,
        'D' => Face::D,
        'F' => Face::F,
        'B' => Face::B,
        _ => return None,
    })
}

fn amount_of(s: &[char]) -> Option<Amount> {
    match s {
        [] => Some(Amount::Single),
        ['2'] => Some(Amount::Double),
        ['\''] => Some(Amount::Inverse),
        _ => None,
    }
}

fn opposite(a: Amount) -> Amount {
    match a {
        Amount::Single => Amount::Inverse,
        Amount::Double => Amount::Double,
        Amount::Inverse => Amount::Single,
    }
}

fn axis_move_of(s: &[char]) -> Option<AxisMove> {
    let (c, rest) = s.split_first()?;
    Some(AxisMove { face: face_of(*c)?, amount: amount_of(rest)? })
}

/// (face, amount, depth)
fn wide_of(s: &[char]) -> Option<(AxisMove, u32)> {
    if let Some(m) = axis_move_of(s) {
        return Some((m, 0));
    }
    let (depth, rest) = match s.first()?.to_digit(10) {
        Some(n) => (n.max(1), &s[1..]),
        None => (1, s),
    };
    let (c, rest) = rest.split_first()?;
    let (face, rest) = match rest.split_first() {
        Some(('w', rest)) => (face_of(*c)?, rest),
        _ if c.is_ascii_lowercase() => (face_of(c.to_ascii_uppercase())?, rest),
        _ => return None,
    };
    Some((AxisMove { face, amount: amount_of(rest)? }, depth))
}

fn wide_move_of<const N: u32>(s: &[char]) -> Option<WideAxisMove<N>> {
    let (m, depth) = wide_of(s)?;
    WideAxisMove::new(m.face, m.amount, depth).ok()
}

fn extended_of(s: &[char]) -> Option<ExtendedAxisMove> {
    if let Some((m, depth)) = wide_of(s) {
        return Some(match depth {
            0 => ExtendedAxisMove::Regular(m),
            _ => ExtendedAxisMove::Wide(WideAxisMove::new(m.face, m.amount, depth).unwrap()),
        });
    }
    let (c, rest) = s.split_first()?;
    let amount = amount_of(rest)?;
    let rotation = |axis| Some(ExtendedAxisMove::Rotation(AxisRotation { axis, amount }));
    // M follows L, E follows D, S follows F
    let slice = |axis, amount| Some(ExtendedAxisMove::Slice { rot: AxisRotation { axis, amount }, wide: c.is_ascii_lowercase() });
    match c {
        'x' => rotation(Axis::X),
        'y' => rotation(Axis::Y),
        'z' => rotation(Axis::Z),
        'M' | 'm' => slice(Axis::X, opposite(amount)),
        'E' | 'e' => slice(Axis::Y, opposite(amount)),
        'S' | 's' => slice(Axis::Z, amount),
        _ => None,
    }
}

const CHARS: [char; 40] = [
    'R', 'U', 'F', 'L', 'D', 'B', 'r', 'u', 'f', 'l', 'd', 'b', 'w', 'x', 'y', 'z', 'M', 'E', 'S', 'm', 'e', 's', '2', '\'', '0', '1', '3', '9', ' ',
    '\t', '/', '*', '²', '½', '٣', 'é', 'ß', '\n', 'W', '😀',
];

fn text<G: Gen>(g: &mut G, length: u32) -> Vec<char> {
    (0..g.int(length + 1)).map(|_| CHARS[g.index(CHARS.len())]).collect()
}

fn read_as_written<const N: u32>(s: &[char]) {
    let t: String = s.iter().collect();
    assert!(WideAxisMove::<N>::parse(&t).ok() == wide_move_of::<N>(s), "{t:?}");
}

fn wide_comes_back<const N: u32, G: Gen>(g: &mut G) {
    let m = axis_move(g);
    // The known finding: wide moves of more depth
    for depth in 0..=N.min(1) {
        let wide = WideAxisMove::<N>::new(m.face.clone(), m.amount, depth).unwrap();
        assert!(WideAxisMove::<N>::parse(&wide.to_string()).ok() == Some(wide));
    }
}

probes! {
    fn moves_come_back_from_their_text(g) {
        let m = axis_move(g);
        assert!(AxisMove::parse(&m.to_string()).ok() == Some(m.clone()));
        assert!(Face::parse(&m.face.to_string()).ok() == Some(m.face.clone()));
        assert!(Amount::parse(&m.amount.to_string()).ok() == Some(m.amount));
        assert!(ExtendedAxisMove::parse(&m.to_string()).ok() == Some(ExtendedAxisMove::Regular(m.clone())));
    }
    fn wide_moves_come_back_from_their_text(g) {
        match g.int(5) {
            0 => wide_comes_back::<0, G>(g),
            1 => wide_comes_back::<1, G>(g),
            2 => wide_comes_back::<2, G>(g),
            3 => wide_comes_back::<3, G>(g),
            _ => wide_comes_back::<{ u32::MAX }, G>(g),
        }
    }
    fn algs_come_back_from_their_text(g) {
        let n = g.int(9);
        let mut moves = Vec::new();
        let mut wide = Vec::new();
        for _ in 0..n {
            let m = axis_move(g);
            wide.push(WideAxisMove::<2>::new(m.face.clone(), m.amount, g.int(2)).unwrap());
            moves.push(m);
        }
        let alg = Alg::<AxisMove>::new(moves);
        assert!(Alg::<AxisMove>::parse(&alg.to_string()).ok() == Some(alg.clone()));
        assert!(Alg::<AxisMove>::try_from(alg.to_string().as_str()).ok() == Some(alg));
        let alg = Alg::<WideAxisMove<2>>::new(wide);
        assert!(Alg::<WideAxisMove<2>>::parse(&alg.to_string()).ok() == Some(alg));
    }
    fn non_redundant_moves_are_printed_as_their_moves(g) {
        let m = crate::moves::non_redundant(g);
        let moves: Vec<_> = m.moves().collect();
        assert!(Alg::<AxisMove>::parse(&m.to_string()).ok() == Some(Alg::new(moves)));
        let alg = Alg::<NonRedundantAxisMove>::new(vec![m.clone(), m.clone()]);
        let moves: Vec<_> = m.moves().chain(m.moves()).collect();
        assert!(Alg::<AxisMove>::parse(&alg.to_string()).ok() == Some(Alg::new(moves)));
    }
    /// What is no notation is refused, and nothing panics
    fn text_is_read_as_it_is_written(g) {
        let s = text(g, 4);
        let t: String = s.iter().collect();
        assert!(AxisMove::parse(&t).ok() == axis_move_of(&s), "{t:?}");
        assert!(Amount::parse(&t).ok() == amount_of(&s), "{t:?}");
        assert!(ExtendedAxisMove::parse(&t).ok() == extended_of(&s), "{t:?}");
        read_as_written::<0>(&s);
        read_as_written::<1>(&s);
        read_as_written::<2>(&s);
        read_as_written::<{ u32::MAX }>(&s);
    }
    fn texts_of_algs_are_read_as_they_are_written(g) {
        let s = text(g, 12);
        let t: String = s.iter().collect();
        let words: Option<Vec<AxisMove>> = t.split_whitespace().map(|w| axis_move_of(&w.chars().collect::<Vec<_>>())).collect();
        assert!(Alg::<AxisMove>::parse(&t).ok() == words.map(Alg::new), "{t:?}");
    }
    /// Text that is nearly one, or one
    fn texts_of_parts_are_read_as_they_are_written(g) {
        const PARTS: [&[&str]; 4] = [
            &["", "0", "1", "2", "3", "9", "10", "²", " "],
            &["R", "U", "F", "L", "D", "B", "r", "u", "f", "l", "d", "b", "x", "y", "z", "M", "E", "S", "m", "e", "s", "A", ""],
            &["", "w", "W", " w", "ww"],
            &["", "2", "'", "2'", "3", " ", "2 ", "’"],
        ];
        let t: String = PARTS.iter().map(|p| p[g.index(p.len())]).collect();
        let s: Vec<char> = t.chars().collect();
        assert!(AxisMove::parse(&t).ok() == axis_move_of(&s), "{t:?}");
        assert!(ExtendedAxisMove::parse(&t).ok() == extended_of(&s), "{t:?}");
        read_as_written::<0>(&s);
        read_as_written::<1>(&s);
        read_as_written::<2>(&s);
        read_as_written::<{ u32::MAX }>(&s);
    }
}

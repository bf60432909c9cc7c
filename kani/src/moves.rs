//! Contracts of the kinds of moves and of the conversions between them.

use barbarosa::{
    cube_n::{
        moves::{
            non_redundant::{absorve, AbsorveResult},
            AxisMove, NonRedundantAxisMove, QuarterAxisMove,
        },
        space::{Axis, Face},
        WideAxisMove,
    },
    generic::{moves::AsMove, Alg, Cube, Movable, Move},
};

use crate::{choice::Gen, geom::*, obligations, values::*};

/// How far each face of an axis is turned, in quarter turns
type Turned = (Option<Axis>, u8, u8);

fn add_move(turned: &mut Turned, m: &AxisMove) {
    assert!(turned.0.is_none() || turned.0 == Some(m.face.axis));
    turned.0 = Some(m.face.axis);
    let k = quarters(m.amount);
    if sign(m.face.direction) > 0 {
        turned.1 = (turned.1 + k) % 4;
    } else {
        turned.2 = (turned.2 + k) % 4;
    }
}

fn turned_by(nr: &Option<NonRedundantAxisMove>) -> Turned {
    match nr {
        None => (None, 0, 0),
        Some(NonRedundantAxisMove::Single(m)) => {
            let mut t = (None, 0, 0);
            add_move(&mut t, m);
            t
        }
        Some(NonRedundantAxisMove::Double { axis, amount_positive, amount_negative }) => {
            (Some(*axis), quarters(*amount_positive), quarters(*amount_negative))
        }
    }
}

pub fn non_redundant(g: &mut impl Gen) -> NonRedundantAxisMove {
    if g.flag() {
        NonRedundantAxisMove::Single(axis_move(g))
    } else {
        NonRedundantAxisMove::Double { axis: axis(g), amount_positive: amount(g), amount_negative: amount(g) }
    }
}

/// A cube that remembers its last moves
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub n: usize,
    pub moves: [Option<AxisMove>; 3],
}
impl Cube for Log {
    const SOLVED: Self = Log { n: 0, moves: [None, None, None] };
}
impl AsMove for Log {
    type Move = AxisMove;
}
impl Movable<AxisMove> for Log {
    fn apply(&mut self, m: &AxisMove) {
        self.moves[self.n] = Some(m.clone());
        self.n += 1;
    }
}

/// Something that can be moved in any way whatsoever: a move leads from 0 to the state of a table
#[derive(Clone, Debug)]
pub struct Arbitrary {
    pub state: u32,
    pub table: [u32; 18],
}
impl PartialEq for Arbitrary {
    fn eq(&self, other: &Self) -> bool {
        self.state == other.state
    }
}
impl Eq for Arbitrary {}
fn number(m: &AxisMove) -> usize {
    (m.face.axis as usize) * 6 + (sign(m.face.direction) > 0) as usize * 3 + quarters(m.amount) as usize - 1
}
impl Movable<AxisMove> for Arbitrary {
    fn apply(&mut self, m: &AxisMove) {
        self.state = if self.state == 0 { self.table[number(m)] } else { 99 };
    }
}

fn same_axis(nr: &NonRedundantAxisMove, m: &AxisMove) -> bool {
    nr.axis() == m.face.axis
}

/// All moves of the two other axes, each of them once
fn given_last_axis<G: Gen>(g: &mut G, last: Axis) {
    let a = axis(g);
    let (p, q) = (g.int(4) as u8, g.int(4) as u8);
    let (mut n, mut seen) = (0, 0);
    for nr in NonRedundantAxisMove::given_last_axis(&last) {
        let t = turned_by(&Some(nr));
        assert!(t.0 != Some(last));
        n += 1;
        if t == (Some(a), p, q) {
            seen += 1;
        }
    }
    assert!(n == 30);
    assert!(seen == (a != last && (p != 0 || q != 0)) as i32);
}

obligations! {
    /// Absorbing a move composes it, or refuses it if and only if it is on another axis
    #[unwind(9)]
    fn absorve_composes(g) {
        let before = if g.flag() { None } else { Some(non_redundant(g)) };
        let m = axis_move(g);
        let mut after = before.clone();
        let result = absorve(&mut after, &m);
        if let Some(nr) = &before {
            if !same_axis(nr, &m) {
                assert!(result == AbsorveResult::NotAdded && after == before);
                return;
            }
        }
        assert!(result != AbsorveResult::NotAdded);
        let mut expected = turned_by(&before);
        add_move(&mut expected, &m);
        let now = turned_by(&after);
        assert!(now.1 == expected.1 && now.2 == expected.2);
        assert!(now.0 == Some(m.face.axis) || (after.is_none() && now.1 == 0 && now.2 == 0));

        let faces = |t: &Turned| (t.1 != 0) as i32 + (t.2 != 0) as i32;
        let (was, is) = (faces(&turned_by(&before)), faces(&now));
        match result {
            AbsorveResult::Absorved => assert!(is == was || before.is_none()),
            AbsorveResult::Added => assert!(is == was + 1),
            AbsorveResult::Collapsed => assert!(is == was - 1),
            AbsorveResult::NotAdded => unreachable!(),
        }
    }
    #[unwind(9)]
    fn non_redundant_moves_are_its_moves(g) {
        let nr = non_redundant(g);
        let mut t: Turned = (None, 0, 0);
        let mut n = 0;
        for m in nr.moves() {
            add_move(&mut t, &m);
            n += 1;
        }
        assert!(t == turned_by(&Some(nr.clone())));
        assert!(n == (t.1 != 0) as i32 + (t.2 != 0) as i32);
        assert!(Some(nr.axis()) == t.0);
        let i = turned_by(&Some(nr.inverse()));
        assert!(i.0 == t.0 && (i.1 + t.1) % 4 == 0 && (i.2 + t.2) % 4 == 0);
    }
    /// The non-redundant moves of an axis are all the ways to turn its two faces, each of them once
    #[unwind(17)]
    fn of_axis_is_complete(g) {
        let a = axis(g);
        let (p, q) = (g.int(4) as u8, g.int(4) as u8);
        let (mut n, mut seen) = (0, 0);
        for nr in NonRedundantAxisMove::of_axis(a) {
            let t = turned_by(&Some(nr));
            assert!(t.0 == Some(a) && (t.1 != 0 || t.2 != 0));
            n += 1;
            if t.1 == p && t.2 == q {
                seen += 1;
            }
        }
        assert!(n == 15);
        assert!(seen == (p != 0 || q != 0) as i32);
    }
    #[unwind(48)]
    fn all_non_redundant_is_complete(g) {
        let a = axis(g);
        let (p, q) = (g.int(4) as u8, g.int(4) as u8);
        let (mut n, mut seen) = (0, 0);
        for nr in NonRedundantAxisMove::all() {
            n += 1;
            if turned_by(&Some(nr)) == (Some(a), p, q) {
                seen += 1;
            }
        }
        assert!(n == 45);
        assert!(seen == (p != 0 || q != 0) as i32);
    }
    /// There are 18 axis moves, all different
    #[unwind(20)]
    fn all_axis_moves_are_listed_once(g) {
        let m = axis_move(g);
        let all = AxisMove::all();
        let mut seen = 0;
        for i in 0..18 {
            if all[i] == m {
                seen += 1;
            }
        }
        assert!(all.len() == 18 && seen == 1);
        let mut n = 0;
        seen = 0;
        for other in <AxisMove as strum::IntoEnumIterator>::iter() {
            n += 1;
            if other == m {
                seen += 1;
            }
        }
        assert!(n == 18 && seen == 1);
    }
    /// A connecting move is one that leads there, and it is found if there is one
    #[unwind(20)]
    fn connect_finds_a_move_that_leads_there(g) {
        let mut table = [0; 18];
        for i in 0..18 {
            table[i] = g.int(4);
        }
        let from = Arbitrary { state: 0, table };
        let to = Arbitrary { state: g.int(4), table };
        match barbarosa::generic::moves::connect::<AxisMove, Arbitrary>(&from, &to) {
            Some(m) => assert!(from.clone().moved(&m) == to),
            None => assert!(!table.contains(&to.state)),
        }
    }
    #[unwind(9)]
    fn quarter_moves_are_axis_moves(g) {
        let q = quarter_move(g);
        let m = AxisMove::from(&q);
        assert!(m.face == q.face && quarters(m.amount) as i8 == (4 + sign(q.direction)) % 4);
    }
    /// An axis move as quarter moves
    #[unwind(9)]
    fn axis_move_in_quarters(g) {
        let m = axis_move(g);
        let quarter_alg = Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(vec![m.clone()]));
        let mut k = 0;
        for q in &quarter_alg.moves {
            assert!(q.face == m.face);
            k += 4 + sign(q.direction);
        }
        assert!(k as u8 % 4 == quarters(m.amount));
        assert!(quarter_alg.moves.len() == if quarters(m.amount) == 2 { 2 } else { 1 });
    }
    #[unwind(9)]
    fn wide_moves_are_made_within_their_depth(g) {
        let (f, a) = (face(g), amount(g));
        let depth = g.int(5);
        match WideAxisMove::<2>::new(f.clone(), a, depth) {
            Err(_) => assert!(depth > 2),
            Ok(m) => assert!(depth <= 2 && m.depth() == depth && m.face() == &f && m.amount() == a),
        }
        match AxisMove::new(f.clone(), a).widen::<1>(depth) {
            Err(_) => assert!(depth > 1),
            Ok(m) => assert!(depth <= 1 && m.depth() == depth && m.face() == &f && m.amount() == a),
        }
    }
    #[unwind(9)]
    fn wide_moves_stay_within_their_depth(g) {
        let m = wide_move::<2>(g);
        let depth = g.int(5);
        let mut changed = m.clone();
        match changed.set_depth(depth) {
            Err(_) => assert!(depth > 2 && changed == m),
            Ok(()) => assert!(depth <= 2 && changed.depth() == depth && changed.axis_move == m.axis_move),
        }
        match m.clone().set_max_depth::<1>() {
            Err(_) => assert!(m.depth() > 1),
            Ok(n) => assert!(m.depth() <= 1 && n.depth() == m.depth() && n.axis_move == m.axis_move),
        }
        match m.clone().set_max_depth::<3>() {
            Err(_) => assert!(false),
            Ok(n) => assert!(n.depth() == m.depth() && n.axis_move == m.axis_move),
        }
    }
    /// Whatever can be moved by axis moves is moved in the same way by the other kinds
    #[unwind(9)]
    fn cubes_follow_quarter_moves(g) {
        let q = quarter_move(g);
        let mut log = Log::SOLVED;
        log.apply(&q);
        assert!(log.n == 1 && log.moves[0] == Some(AxisMove::from(&q)));
    }
    #[unwind(9)]
    fn cubes_follow_wide_0_moves(g) {
        let m = wide_move::<0>(g);
        let mut log = Log::SOLVED;
        log.apply(&m);
        assert!(log.n == 1 && log.moves[0] == Some(m.axis_move));
    }
    #[unwind(9)]
    fn cubes_follow_non_redundant_moves(g) {
        let nr = non_redundant(g);
        let mut log = Log::SOLVED;
        log.apply(&nr);
        let mut t: Turned = (None, 0, 0);
        for i in 0..log.n {
            add_move(&mut t, log.moves[i].as_ref().unwrap());
        }
        assert!(t == turned_by(&Some(nr)));
    }
    #[unwind(9)]
    fn axis_moves_become_non_redundant(g) {
        let m = axis_move(g);
        let mut t: Turned = (None, 0, 0);
        add_move(&mut t, &m);
        assert!(turned_by(&Some(NonRedundantAxisMove::from(m))) == t);
        let nr = non_redundant(g);
        let alg = Alg::<AxisMove>::from(nr.clone());
        let mut t: Turned = (None, 0, 0);
        for m in &alg.moves {
            add_move(&mut t, m);
        }
        assert!(t == turned_by(&Some(nr)));
    }
}

/// No move can be merged with one before
fn tidy(moves: &[AxisMove]) {
    for pair in moves.windows(2) {
        assert!(pair[0].face != pair[1].face);
    }
    for three in moves.windows(3) {
        assert!(three[0].face.axis != three[1].face.axis || three[1].face.axis != three[2].face.axis);
    }
}

/// Moves that are likely to be of a face that was just moved
fn alg(g: &mut impl Gen, max: u32) -> Alg<AxisMove> {
    let (first, second) = (axis(g), axis(g));
    let mut moves = Vec::new();
    for _ in 0..g.int(max + 1) {
        let axis = if g.flag() { first } else { second };
        moves.push(AxisMove::new(Face::new(axis, direction(g)), amount(g)));
    }
    Alg::new(moves)
}

fn effect<M>(moves: &[M]) -> barbarosa::cube_n::Cube3
where
    M: Move,
    barbarosa::cube_n::Cube3: Movable<M>,
{
    let mut cube = barbarosa::cube_n::Cube3::SOLVED;
    for m in moves {
        cube.apply(m);
    }
    cube
}

crate::probes! {
    fn normalized_algs_are_tidy_and_do_the_same(g) {
        let alg = alg(g, 9);
        let normalized = Alg::<AxisMove>::new(alg.moves.clone()).normalized();
        tidy(&normalized.moves);
        assert!(normalized.moves.len() <= alg.moves.len());
        assert!(effect(&normalized.moves) == effect(&alg.moves));
    }
    fn wide_moves_change_their_maximum_depth(g) {
        macro_rules! all {
            ($($n:literal)*) => {$(
                let m = wide_move::<$n>(g);
                all!(m, $n, 0 1 2 3 4 6 9 14);
            )*};
            ($m:ident, $n:literal, $($to:literal)*) => {$(
                let wanted = g.int(17);
                match $m.clone().set_max_depth::<$to>() {
                    Err(_) => assert!($m.depth() > $to),
                    Ok(n) => assert!($m.depth() <= $to && n.depth() == $m.depth() && n.axis_move == $m.axis_move),
                }
                match $m.axis_move.clone().widen::<$to>(wanted) {
                    Err(_) => assert!(wanted > $to),
                    Ok(n) => assert!(wanted <= $to && n.depth() == wanted && n.axis_move == $m.axis_move),
                }
                let mut n = $m.clone();
                match n.set_depth(wanted) {
                    Err(_) => assert!(wanted > $n && n == $m),
                    Ok(()) => assert!(wanted <= $n && n.depth() == wanted && n.axis_move == $m.axis_move),
                }
            )*};
        }
        all!(0 1 2 3 4 6 9 14);
    }
    fn widened_algs_have_widened_moves(g) {
        let a = alg(g, 5);
        let depth = g.int(4);
        match Alg::<AxisMove>::new(a.moves.clone()).widen::<2>(depth) {
            Err(_) => assert!(depth > 2 && !a.moves.is_empty()),
            Ok(w) => {
                assert!(w.moves.len() == a.moves.len());
                assert!(w.moves.iter().zip(&a.moves).all(|(w, m)| w.depth() == depth && &w.axis_move == m));
            }
        }
    }
    fn random_algs_are_tidy(g) {
        use rand::{rngs::StdRng, SeedableRng};
        let n = g.int(40) as usize;
        let mut rng = StdRng::seed_from_u64(((g.int(64) as u64) << 6) + g.int(64) as u64);
        let alg = Alg::<AxisMove>::random_with_rng(n, &mut rng);
        assert!(alg.moves.len() == n);
        tidy(&alg.moves);
    }
    fn converted_algs_do_the_same(g) {
        let a = alg(g, 9);
        let quarters = Alg::<QuarterAxisMove>::from(Alg::<AxisMove>::new(a.moves.clone()));
        assert!(effect(&quarters.moves) == effect(&a.moves));
        let mut nr = Vec::new();
        for _ in 0..g.int(6) {
            nr.push(non_redundant(g));
        }
        let expected = effect(&nr);
        assert!(effect(&Alg::<AxisMove>::from(Alg::<NonRedundantAxisMove>::new(nr)).moves) == expected);
    }
    /// A rotated alg is the alg, seen from elsewhere
    fn rotated_algs_have_rotated_moves(g) {
        use barbarosa::cube_n::{moves::rotation::Rotatable, Corner, Edge};
        let (a, r, c, e) = (alg(g, 4), rotation(g), corner(g), edge(g));
        let b = a.clone().rotated(&r);
        let moves: Vec<_> = a.moves.iter().map(|m| m.clone().rotated(&r)).collect();
        assert!(b.moves == moves);
        assert!(b == moves.into_iter().collect::<Alg<AxisMove>>());
        let there: Corner = c.clone().moved(&a).rotated(&r);
        assert!(there == c.rotated(&r).moved(&b));
        let there: Edge = e.clone().moved(&a).rotated(&r);
        assert!(there == e.rotated(&r).moved(&b));
    }
    /// The moves of an alg are found from the states it goes through; a jump is not made up for
    fn algs_come_back_from_their_states(g) {
        let n = g.int(7);
        let mut start = barbarosa::cube_n::Cube3::SOLVED;
        for _ in 0..g.int(5) {
            start.apply(&axis_move(g));
        }
        let mut states = vec![start];
        let mut moves = Vec::new();
        for _ in 0..n {
            let m = axis_move(g);
            let next = states[states.len() - 1].clone().moved(&m);
            states.push(next);
            moves.push(m);
        }
        let alg = Alg::<AxisMove>::try_from_states(&states).expect("each state is one move away from the one before");
        assert!(alg.moves.len() == moves.len());
        let mut cube = states[0].clone();
        for (i, m) in alg.moves.iter().enumerate() {
            cube.apply(m);
            assert!(cube == states[i + 1]);
        }
        if n > 0 {
            // Twice the same state is no move
            let i = g.index(n as usize);
            let mut broken = states.clone();
            broken.insert(i, states[i].clone());
            assert!(Alg::<AxisMove>::try_from_states(&broken).is_err());
        }
    }
    fn given_last_axis_is_complete(g) { let last = axis(g); given_last_axis(g, last) }
}

"""Algs of axis moves: normalizing them, making random ones, and converting between kinds of moves. For algs of any length.

What the extraction changes: iterators over the moves of a non-redundant move come as a `Vec`; the closure that captures nothing becomes
a function; `while let` loops become what they stand for; `mut self` becomes a variable."""
import re

from lib.rustsrc import (LostAnchor, Source, closures, desugar_for, desugar_while_let, fields, lex, matching, norm, rename_self, split_at_commas,
                         variants, with_closures, with_invariants)

PRELUDE = """
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
verus! {

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Axis { X, Y, Z }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Direction { Positive, Negative }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Amount { Single, Double, Inverse }
#[derive(PartialEq, Eq, Structural)]
pub struct Face { pub axis: Axis, pub direction: Direction }
#[derive(PartialEq, Eq, Structural)]
pub struct AxisMove { pub face: Face, pub amount: Amount }
#[derive(PartialEq, Eq, Structural)]
pub struct QuarterAxisMove { pub face: Face, pub direction: Direction }

impl Clone for Face {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for AxisMove {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub struct Alg<M> { pub moves: Vec<M> }

impl<M> Alg<M> {
    // NEW_WHERE
    pub fn new(moves: Vec<M>) -> (r: Self)
        ensures r.moves == moves
    NEW_BODY
}

/// Anything that can be moved, and what a turn of a face (by quarter turns) makes of it
#[verifier::external_body]
pub struct State { s: u8 }
pub uninterp spec fn turn(c: State, face: Face, quarters: int) -> State;

/// Turns of a face add up, and turns of opposite faces commute (kani/src/pieces.rs: `*_turns_add_up`, `*_opposite_turns_commute`)
#[verifier::opaque]
pub open spec fn laws() -> bool {
    &&& forall|c: State, f: Face| #[trigger] turn(c, f, 0) == c
    &&& forall|c: State, f: Face, a: int, b: int| 0 <= a < 4 && 0 <= b < 4 ==> #[trigger] turn(turn(c, f, a), f, b) == turn(c, f, (a + b) % 4)
    &&& forall|c: State, f: Face, g: Face, a: int, b: int| f.axis == g.axis && f.direction != g.direction
            ==> #[trigger] turn(turn(c, f, a), g, b) == turn(turn(c, g, b), f, a)
}

pub proof fn none(c: State, f: Face)
    requires laws()
    ensures turn(c, f, 0) == c
{ reveal(laws); }
pub proof fn add_up(c: State, f: Face, a: int, b: int)
    requires laws(), 0 <= a < 4, 0 <= b < 4
    ensures turn(turn(c, f, a), f, b) == turn(c, f, (a + b) % 4)
{ reveal(laws); }
pub proof fn commute(c: State, f: Face, g: Face, a: int, b: int)
    requires laws(), f.axis == g.axis, f.direction != g.direction
    ensures turn(turn(c, f, a), g, b) == turn(turn(c, g, b), f, a)
{ reveal(laws); }

pub open spec fn quarters(a: Amount) -> int {
    match a { Amount::Single => 1, Amount::Double => 2, Amount::Inverse => 3 }
}
pub open spec fn quarter(d: Direction) -> int {
    match d { Direction::Positive => 1, Direction::Negative => 3 }
}

/// What a move does (kani/src/pieces.rs), and what quarter moves do (kani/src/moves.rs: `quarter_moves_are_axis_moves`, `cubes_follow_quarter_moves`)
pub open spec fn by(c: State, m: AxisMove) -> State { turn(c, m.face, quarters(m.amount)) }
pub open spec fn by_quarter(c: State, m: QuarterAxisMove) -> State { turn(c, m.face, quarter(m.direction)) }

pub open spec fn fold(c: State, moves: Seq<AxisMove>) -> State
    decreases moves.len()
{
    if moves.len() == 0 { c } else { fold(by(c, moves[0]), moves.drop_first()) }
}
pub open spec fn fold_quarters(c: State, moves: Seq<QuarterAxisMove>) -> State
    decreases moves.len()
{
    if moves.len() == 0 { c } else { fold_quarters(by_quarter(c, moves[0]), moves.drop_first()) }
}

/// How far the moves turn a face
pub open spec fn total(moves: Seq<AxisMove>, face: Face) -> int
    decreases moves.len()
{
    if moves.len() == 0 { 0 } else { ((if moves[0].face == face { quarters(moves[0].amount) } else { 0 }) + total(moves.drop_first(), face)) % 4 }
}

pub open spec fn on_axis(moves: Seq<AxisMove>, axis: Axis) -> bool {
    forall|i: int| 0 <= i < moves.len() ==> (#[trigger] moves[i]).face.axis == axis
}

/// One move, or one of each face of an axis
pub open spec fn one_or_two(moves: Seq<AxisMove>) -> bool {
    &&& moves.len() == 1 || moves.len() == 2
    &&& on_axis(moves, moves[0].face.axis)
    &&& moves.len() == 2 ==> moves[0].face.direction != moves[1].face.direction
}

pub open spec fn two_faces(moves: Seq<AxisMove>, i: int) -> bool { moves[i].face != moves[i + 1].face }
pub open spec fn two_axes(moves: Seq<AxisMove>, i: int) -> bool {
    !(moves[i].face.axis == moves[i + 1].face.axis && moves[i + 1].face.axis == moves[i + 2].face.axis)
}

/// No two moves of a face next to each other, or with only one of the opposite face in between
pub open spec fn tidy(moves: Seq<AxisMove>) -> bool {
    &&& forall|i: int| 0 <= i < moves.len() - 1 ==> #[trigger] two_faces(moves, i)
    &&& forall|i: int| 0 <= i < moves.len() - 2 ==> #[trigger] two_axes(moves, i)
}

#[verifier::external_body]
pub struct NonRedundantAxisMove { n: u8 }
pub uninterp spec fn moves_of(nr: NonRedundantAxisMove) -> Seq<AxisMove>;

/// kani/src/moves.rs: `non_redundant_moves_are_its_moves`
pub open spec fn sound(nr: NonRedundantAxisMove) -> bool { one_or_two(moves_of(nr)) }

pub open spec fn axis_of(nr: NonRedundantAxisMove) -> Axis { moves_of(nr)[0].face.axis }

pub open spec fn pending(nr: Option<NonRedundantAxisMove>) -> Seq<AxisMove> {
    match nr { Some(nr) => moves_of(nr), None => Seq::empty() }
}

impl NonRedundantAxisMove {
    #[verifier::external_body]
    pub fn moves(&self) -> (r: Vec<AxisMove>)
        ensures r@ == moves_of(*self), sound(*self)
    { unimplemented!() }
    // kani/src/moves.rs: `given_last_axis_is_complete`, `all_non_redundant_is_complete`
    #[verifier::external_body]
    pub fn given_last_axis(last_axis: &Axis) -> (r: Vec<NonRedundantAxisMove>)
        ensures r@.len() == 30, forall|i: int| 0 <= i < r@.len() ==> axis_of(#[trigger] r@[i]) != *last_axis
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all() -> (r: Vec<NonRedundantAxisMove>)
        ensures r@.len() == 45
    { unimplemented!() }
}

pub enum AbsorveResult { Absorved, Added, NotAdded, Collapsed }

/// kani/src/moves.rs: `absorve_composes`
pub open spec fn absorved(before: Option<NonRedundantAxisMove>, m: AxisMove, after: Option<NonRedundantAxisMove>, r: AbsorveResult) -> bool {
    let (was, is) = (pending(before), pending(after));
    match r {
        AbsorveResult::NotAdded => before is Some && axis_of(before.unwrap()) != m.face.axis && after == before,
        _ => {
            &&& before is Some ==> axis_of(before.unwrap()) == m.face.axis
            &&& after is Some ==> axis_of(after.unwrap()) == m.face.axis
            &&& forall|f: Face| #[trigger] total(is, f) == (total(was, f) + if f == m.face { quarters(m.amount) } else { 0 }) % 4
            &&& r is Absorved ==> after is Some && (before is None && is.len() == 1 || before is Some && is.len() == was.len())
            &&& r is Added ==> is.len() == was.len() + 1
            &&& r is Collapsed ==> is.len() + 1 == was.len()
        }
    }
}

#[verifier::external_body]
pub fn absorve(nr_move_option: &mut Option<NonRedundantAxisMove>, other: &AxisMove) -> (r: AbsorveResult)
    requires *old(nr_move_option) is Some ==> sound(old(nr_move_option).unwrap())
    ensures
        *final(nr_move_option) is Some ==> sound(final(nr_move_option).unwrap()),
        absorved(*old(nr_move_option), *other, *final(nr_move_option), r),
{ unimplemented!() }

/// What is done, then: moves that are to be dealt with, those that are gathered, and a stack of those that come after
pub open spec fn whole(rest: Seq<AxisMove>, nr: Option<NonRedundantAxisMove>, stack: Seq<AxisMove>) -> Seq<AxisMove> {
    rest + pending(nr) + stack.reverse()
}

/// `extend` with what an `Option` holds
pub trait Extended<T>: Sized {
    fn extend_by(&mut self, more: Option<T>);
}
impl Extended<AxisMove> for Vec<AxisMove> {
    #[verifier::external_body]
    fn extend_by(&mut self, more: Option<AxisMove>)
        ensures final(self)@ == match more { Some(m) => old(self)@.push(m), None => old(self)@ }
    { unimplemented!() }
}

pub proof fn total_range(moves: Seq<AxisMove>, face: Face)
    ensures 0 <= total(moves, face) < 4
{
}

pub proof fn fold_of_two(c: State, a: Seq<AxisMove>, b: Seq<AxisMove>)
    ensures fold(c, a + b) == fold(fold(c, a), b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        fold_of_two(by(c, a[0]), a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }
}

pub proof fn total_of_two(a: Seq<AxisMove>, b: Seq<AxisMove>, face: Face)
    ensures total(a + b, face) == (total(a, face) + total(b, face)) % 4
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        total_range(b, face);
    } else {
        total_of_two(a.drop_first(), b, face);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }
}

pub open spec fn on(axis: Axis, direction: Direction) -> Face { Face { axis, direction } }

/// Of moves of one axis all that counts is how far they turn its two faces
pub proof fn run(c: State, moves: Seq<AxisMove>, axis: Axis)
    requires laws(), on_axis(moves, axis)
    ensures fold(c, moves) == turn(turn(c, on(axis, Direction::Positive), total(moves, on(axis, Direction::Positive))),
                                   on(axis, Direction::Negative), total(moves, on(axis, Direction::Negative)))
    decreases moves.len()
{
    let (p, n) = (on(axis, Direction::Positive), on(axis, Direction::Negative));
    if moves.len() > 0 {
        let m = moves[0];
        let rest = moves.drop_first();
        assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]).face.axis == axis by { assert(rest[i] == moves[i + 1]); }
        run(by(c, m), rest, axis);
        let (k, a, b) = (quarters(m.amount), total(rest, p), total(rest, n));
        total_range(rest, p);
        total_range(rest, n);
        if m.face.direction == Direction::Positive {
            assert(m.face == p);
            add_up(c, p, k, a);
        } else {
            assert(m.face == n);
            commute(c, n, p, k, a);
            add_up(turn(c, p, a), n, k, b);
        }
    } else {
        none(c, p);
        none(c, n);
    }
}

/// Moves of an axis that turn its faces as far as others do the same
pub proof fn same(c: State, rest: Seq<AxisMove>, a: Seq<AxisMove>, b: Seq<AxisMove>, tail: Seq<AxisMove>, axis: Axis)
    requires
        laws(), on_axis(a, axis), on_axis(b, axis),
        total(a, on(axis, Direction::Positive)) == total(b, on(axis, Direction::Positive)),
        total(a, on(axis, Direction::Negative)) == total(b, on(axis, Direction::Negative)),
    ensures fold(c, rest + a + tail) == fold(c, rest + b + tail)
{
    let d = fold(c, rest);
    run(d, a, axis);
    run(d, b, axis);
    fold_of_two(c, rest, a);
    fold_of_two(c, rest, b);
    fold_of_two(c, rest + a, tail);
    fold_of_two(c, rest + b, tail);
}

pub proof fn total_of_one(m: AxisMove, f: Face)
    ensures total(seq![m], f) == if m.face == f { quarters(m.amount) } else { 0 }
{
    assert(seq![m].drop_first() =~= Seq::<AxisMove>::empty());
    reveal_with_fuel(total, 2);
}

pub proof fn total_with_one(m: AxisMove, was: Seq<AxisMove>, f: Face)
    ensures total(seq![m] + was, f) == (total(was, f) + if f == m.face { quarters(m.amount) } else { 0 }) % 4
{
    total_of_two(seq![m], was, f);
    total_of_one(m, f);
}

/// The move that was absorbed and the ones that were there before do what is there now
pub proof fn absorbing_keeps_effect(c: State, rest: Seq<AxisMove>, m: AxisMove, before: Option<NonRedundantAxisMove>, after: Option<NonRedundantAxisMove>,
                                    stack: Seq<AxisMove>, r: AbsorveResult)
    requires
        laws(), before is Some ==> sound(before.unwrap()), after is Some ==> sound(after.unwrap()),
        absorved(before, m, after, r), !(r is NotAdded),
    ensures fold(c, whole(rest, after, stack)) == fold(c, whole(rest.push(m), before, stack))
{
    let (was, is) = (pending(before), pending(after));
    let axis = m.face.axis;
    let all = seq![m] + was;
    assert(on_axis(is, axis));
    assert(on_axis(all, axis));
    let (p, n) = (on(axis, Direction::Positive), on(axis, Direction::Negative));
    total_with_one(m, was, p);
    total_with_one(m, was, n);
    assert(total(is, p) == total(all, p));
    assert(total(is, n) == total(all, n));
    same(c, rest, is, all, stack.reverse(), axis);
    assert(rest + all + stack.reverse() =~= whole(rest.push(m), before, stack));
}

/// The moves of a non-redundant move may be taken in any order
pub proof fn order_does_not_matter(nr: Option<NonRedundantAxisMove>, stack: Seq<AxisMove>)
    requires laws(), nr is Some ==> sound(nr.unwrap())
    ensures forall|c: State, rest: Seq<AxisMove>| #[trigger] fold(c, whole(rest, nr, stack)) == fold(c, whole(rest, None, stack + pending(nr)))
{
    let is = pending(nr);
    let tail = stack.reverse();
    assert((stack + is).reverse() =~= is.reverse() + tail);
    assert forall|c: State, rest: Seq<AxisMove>| #[trigger] fold(c, whole(rest, nr, stack)) == fold(c, whole(rest, None, stack + is)) by {
        let back = is.reverse();
        if is.len() == 2 {
            let axis = is[0].face.axis;
            let (p, n) = (on(axis, Direction::Positive), on(axis, Direction::Negative));
            assert(on_axis(back, axis));
            assert(is =~= seq![is[0]] + seq![is[1]]);
            assert(back =~= seq![is[1]] + seq![is[0]]);
            total_of_two(seq![is[0]], seq![is[1]], p);
            total_of_two(seq![is[1]], seq![is[0]], p);
            total_of_two(seq![is[0]], seq![is[1]], n);
            total_of_two(seq![is[1]], seq![is[0]], n);
            same(c, rest, is, back, tail, axis);
        } else {
            assert(is =~= back);
        }
        assert(rest + pending(None) + (back + tail) =~= rest + back + tail);
    }
}

/// What is taken from the stack is to be dealt with again
pub proof fn taken_back()
    ensures
        forall|rest: Seq<AxisMove>, m: AxisMove, stack: Seq<AxisMove>| #[trigger] whole(rest.push(m), None, stack) == whole(rest, None, stack.push(m)),
        forall|s: Seq<AxisMove>| s.len() > 0 ==> #[trigger] s.subrange(0, s.len() - 1).push(s[s.len() - 1]) == s,
        forall|s: Seq<AxisMove>| s.len() > 0 ==> #[trigger] s.drop_last().push(s[s.len() - 1]) == s,
{
    assert forall|rest: Seq<AxisMove>, m: AxisMove, stack: Seq<AxisMove>| #[trigger] whole(rest.push(m), None, stack) == whole(rest, None, stack.push(m)) by {
        assert(stack.push(m).reverse() =~= seq![m] + stack.reverse());
        assert(whole(rest.push(m), None, stack) =~= whole(rest, None, stack.push(m)));
    }
    assert forall|s: Seq<AxisMove>| s.len() > 0 implies #[trigger] s.subrange(0, s.len() - 1).push(s[s.len() - 1]) == s by {
        assert(s.subrange(0, s.len() - 1).push(s[s.len() - 1]) =~= s);
    }
    assert forall|s: Seq<AxisMove>| s.len() > 0 implies #[trigger] s.drop_last().push(s[s.len() - 1]) == s by {
        assert(s.drop_last().push(s[s.len() - 1]) =~= s);
    }
}

/// Parts of tidy sequences are tidy
pub proof fn parts_are_tidy()
    ensures forall|s: Seq<AxisMove>| #[trigger] tidy(s) && s.len() > 0 ==> tidy(s.subrange(0, s.len() - 1))
        && (s.len() > 2 && s[s.len() - 1].face.axis == s[s.len() - 2].face.axis ==> s[s.len() - 3].face.axis != s[s.len() - 1].face.axis)
{
    assert forall|s: Seq<AxisMove>| #[trigger] tidy(s) && s.len() > 0 implies tidy(s.subrange(0, s.len() - 1))
        && (s.len() > 2 && s[s.len() - 1].face.axis == s[s.len() - 2].face.axis ==> s[s.len() - 3].face.axis != s[s.len() - 1].face.axis) by {
        part_is_tidy(s);
    }
}

pub proof fn still_tidy(stack: Seq<AxisMove>, more: Seq<AxisMove>)
    requires tidy(stack), one_or_two(more), stack.len() > 0 ==> stack.last().face.axis != more[0].face.axis
    ensures tidy(stack + more)
{
    let all = stack + more;
    assert forall|i: int| 0 <= i < all.len() - 1 implies #[trigger] two_faces(all, i) by {
        if i + 1 < stack.len() { assert(two_faces(stack, i)); }
    }
    assert forall|i: int| 0 <= i < all.len() - 2 implies #[trigger] two_axes(all, i) by {
        if i + 2 < stack.len() { assert(two_axes(stack, i)); }
    }
}

pub proof fn tidy_in_reverse(moves: Seq<AxisMove>)
    requires tidy(moves)
    ensures tidy(moves.reverse())
{
    let back = moves.reverse();
    let n = moves.len() as int;
    assert forall|i: int| 0 <= i < back.len() - 1 implies #[trigger] two_faces(back, i) by {
        assert(two_faces(moves, n - 2 - i));
    }
    assert forall|i: int| 0 <= i < back.len() - 2 implies #[trigger] two_axes(back, i) by {
        assert(two_axes(moves, n - 3 - i));
    }
}

/// A part of a tidy sequence is tidy, and there are at most two moves of one axis at its end
pub proof fn part_is_tidy(moves: Seq<AxisMove>)
    requires tidy(moves), moves.len() > 0
    ensures
        tidy(moves.subrange(0, moves.len() - 1)),
        moves.len() > 2 && moves[moves.len() - 1].face.axis == moves[moves.len() - 2].face.axis
            ==> moves[moves.len() - 3].face.axis != moves[moves.len() - 1].face.axis,
{
    let part = moves.subrange(0, moves.len() - 1);
    assert forall|i: int| 0 <= i < part.len() - 1 implies #[trigger] two_faces(part, i) by {
        assert(two_faces(moves, i));
    }
    assert forall|i: int| 0 <= i < part.len() - 2 implies #[trigger] two_axes(part, i) by {
        assert(two_axes(moves, i));
    }
    if moves.len() > 2 { assert(two_axes(moves, moves.len() - 3)); }
}
"""

SHAPES = [
    ("cube_n/space/face.rs", "struct", "Face", ["axis", "direction"]),
    ("cube_n/moves/mod.rs", "struct", "AxisMove", ["face", "amount"]),
    ("cube_n/moves/quarter.rs", "struct", "QuarterAxisMove", ["face", "direction"]),
    ("cube_n/space/axis.rs", "enum", "Axis", ["X", "Y", "Z"]),
    ("cube_n/space/direction.rs", "enum", "Direction", ["Negative", "Positive"]),
    ("cube_n/moves/amount.rs", "enum", "Amount", ["Double", "Inverse", "Single"]),
    ("cube_n/moves/non_redundant.rs", "enum", "AbsorveResult", ["Absorved", "Added", "Collapsed", "NotAdded"]),
]

END = """} // verus!
fn main() {}
"""


def prelude():
    for path, kind, name, parts in SHAPES:
        item = Source(path).item(kind, name)
        found = sorted(n for n, _ in fields(item)) if kind == "struct" else sorted(variants(item))
        if found != sorted(parts):
            raise LostAnchor(f"{kind} {name} is made of {found}")
    new = Source("generic/alg.rs").impl(r"^impl<T:AsMove>Alg<T>$").fn("new")
    return PRELUDE.replace("NEW_WHERE", new.where()).replace("NEW_BODY", new.body), new


def hoisted(text):
    """Closures that are bound by a `let` as functions: what is left, and (name, parameters, body) of each"""
    found = []
    while True:
        tokens = lex(text)
        for j, k, end in closures(tokens):
            if tokens[j - 1].text == "=" and tokens[j - 3].text == "let" and tokens[j - 2].kind == "ident" and tokens[end].text == ";":
                parameters = [norm(part) for part in split_at_commas(tokens[j + 1 : k])]
                found.append((tokens[j - 2].text, parameters, text[tokens[k].end : tokens[end - 1].end]))
                text = text[: tokens[j - 3].start] + text[tokens[end].end :]
                break
        else:
            return text, found


def typed(text, name, kind):
    """With the type of a variable"""
    return re.sub(rf"\blet mut {name} =", f"let mut {name}: {kind} =", text, count=1)


def normalizing():
    text, new = prelude()
    source = Source("cube_n/moves/non_redundant.rs")
    normalized = source.impl(r"^impl Alg<AxisMove>$").fn("normalized")
    body, functions = hoisted(normalized.body)
    if [(name, [p.split(":")[1] for p in parameters]) for name, parameters, _ in functions] != [
            ("offload", ["&mut Option<NonRedundantAxisMove>", "&mut Vec<AxisMove>"])]:
        raise LostAnchor(f"closures of normalized: {functions}")
    (_, parameters, offload), = functions
    nr, stack = (p.split(":")[0] for p in parameters)
    offload = desugar_for(offload, "it", f"{stack}@ =~= stack0 + it_all.take(it_n)", "")
    body = with_closures(body, [("", ["&AxisMove"], "-> (r: Axis) ensures r == $0.face.axis")])
    body = rename_self(body.replace(".extend(", ".extend_by("))
    body = typed(body.replace("Self::new", "Alg::new"), "moves", "Vec<AxisMove>")
    body = desugar_while_let(body, """
            invariant
                laws(),
                nr_move is Some ==> sound(nr_move.unwrap()),
                nr_move is Some && moves@.len() > 0 ==> moves@.last().face.axis != axis_of(nr_move.unwrap()),
                nr_move is None && moves@.len() > 0 ==> this.moves@.len() > 0 && this.moves@.last().face.axis != moves@.last().face.axis,
                tidy(moves@),
                forall|c: State| #[trigger] fold(c, all) == fold(c, whole(this.moves@, nr_move, moves@)),
                this.moves@.len() + pending(nr_move).len() + moves@.len() <= all.len(),
            ensures this.moves@.len() == 0
            decreases this.moves@.len() + pending(nr_move).len() + moves@.len(), this.moves@.len()
        """, """
            let ghost nr0 = nr_move;
            let ghost stack0 = moves@;
            let ghost rest0 = this.moves@;
        """, """
            proof {
                let rest = rest0.drop_last();
                assert(rest0 =~= rest.push(*mov));
                let offloaded = stack0 + pending(nr0);
                assert forall|after: Option<NonRedundantAxisMove>, r: AbsorveResult| (after is Some ==> sound(after.unwrap()))
                    && #[trigger] absorved(nr0, *mov, after, r) && !(r is NotAdded) implies keeps(rest, *mov, nr0, after, stack0) by {
                    assert forall|c: State| #[trigger] fold(c, whole(rest, after, stack0)) == fold(c, whole(rest.push(*mov), nr0, stack0)) by {
                        absorbing_keeps_effect(c, rest, *mov, nr0, after, stack0, r);
                    }
                }
                assert forall|after: Option<NonRedundantAxisMove>, r: AbsorveResult| (after is Some ==> sound(after.unwrap()))
                    && #[trigger] absorved(None, *mov, after, r) && !(r is NotAdded) implies keeps(rest, *mov, None, after, offloaded) by {
                    assert forall|c: State| #[trigger] fold(c, whole(rest, after, offloaded)) == fold(c, whole(rest.push(*mov), None, offloaded)) by {
                        absorbing_keeps_effect(c, rest, *mov, None, after, offloaded, r);
                    }
                }
                taken_back();
                parts_are_tidy();
            }
        """)
    text += f"""
pub open spec fn keeps(rest: Seq<AxisMove>, m: AxisMove, before: Option<NonRedundantAxisMove>, after: Option<NonRedundantAxisMove>, stack: Seq<AxisMove>) -> bool {{
    forall|c: State| #[trigger] fold(c, whole(rest, after, stack)) == fold(c, whole(rest.push(m), before, stack))
}}

// {normalized.where()} (offload)
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn offload({nr}: &mut Option<NonRedundantAxisMove>, {stack}: &mut Vec<AxisMove>)
    requires
        laws(), tidy(old({stack})@), *old({nr}) is Some ==> sound(old({nr}).unwrap()),
        *old({nr}) is Some && old({stack})@.len() > 0 ==> old({stack})@.last().face.axis != axis_of(old({nr}).unwrap()),
    ensures
        *final({nr}) is None, final({stack})@ == old({stack})@ + pending(*old({nr})), tidy(final({stack})@),
        forall|c: State, rest: Seq<AxisMove>|
            #![trigger fold(c, whole(rest, *old({nr}), old({stack})@))] #![trigger fold(c, whole(rest, None, final({stack})@))]
            fold(c, whole(rest, *old({nr}), old({stack})@)) == fold(c, whole(rest, None, final({stack})@)),
{{
    let ghost stack0 = {stack}@;
    proof {{
        order_does_not_matter(*old({nr}), stack0);
        if *old({nr}) is Some {{ still_tidy(stack0, pending(*old({nr}))); }}
    }}
    {offload}
    assert({stack}@ =~= stack0 + pending(*old({nr})));
}}

// {normalized.where()}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn normalized(that: Alg<AxisMove>) -> (r: Alg<AxisMove>)
    requires laws()
    ensures
        forall|c: State| #[trigger] fold(c, r.moves@) == fold(c, that.moves@),
        tidy(r.moves@),
        r.moves@.len() <= that.moves@.len(),
{{
    let mut this = that;
    let ghost all = this.moves@;
    proof {{
        assert(whole(all, None, Seq::empty()) =~= all);
        assert forall|s: Seq<AxisMove>| tidy(s) implies tidy(#[trigger] s.reverse()) by {{ tidy_in_reverse(s); }}
        assert forall|s: Seq<AxisMove>, t: Seq<AxisMove>| s.len() == 0 implies #[trigger] whole(s, None, t) == t.reverse() by {{
            assert(whole(s, None, t) =~= t.reverse());
        }}
    }}
    {body}
}}
"""
    return text + END, [new, normalized]


RANDOM = """
/// A random generator, and the choice of one of many (`rand`)
pub struct Rng { r: u64 }
pub trait Chosen<T>: Sized {
    fn choose(self, rng: &mut Rng) -> Option<T>;
}
impl Chosen<NonRedundantAxisMove> for Vec<NonRedundantAxisMove> {
    #[verifier::external_body]
    fn choose(self, rng: &mut Rng) -> (r: Option<NonRedundantAxisMove>)
        ensures self@.len() > 0 ==> r is Some && self@.contains(r.unwrap())
    { unimplemented!() }
}
"""


def random():
    text, new = prelude()
    source = Source("cube_n/moves/non_redundant.rs")
    random = source.impl(r"^impl Alg<AxisMove>$").fn("random_with_rng")
    body = with_invariants(random.body, [("while", """
            invariant tidy(moves@), moves@.len() <= length
            decreases length - moves@.len()"""), ("for", "")], loop_start=["""
            let ghost moves0 = moves@;
        """])
    body = desugar_for(body, "it", """
            it_all == moves_of(chosen), one_or_two(it_all),
            moves@ =~= moves0 + it_all.take(it_n), moves@.len() <= length, tidy(moves@),
        """, """
            proof {
                assert(it_all.take(it_n).len() >= 1);
                assert(it_all.take(it_n)[0] == it_all[0]);
                assert(on_axis(it_all.take(it_n), it_all[0].face.axis));
                still_tidy(moves0, it_all.take(it_n));
                assert(moves@.push(it_all[it_n - 1]) =~= moves0 + it_all.take(it_n));
                assert(tidy(moves@.push(it_all[it_n - 1])));
            }
        """, breaks="moves@.len() < length,")
    return text + RANDOM + f"""
// {random.where()}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn random_with_rng(length: usize, rng: &mut Rng) -> (r: Alg<AxisMove>)
    ensures r.moves@.len() == length, tidy(r.moves@)
{body}
""" + END, [new, random]


CONVERSIONS = """
pub proof fn fold_push(c: State, moves: Seq<AxisMove>, m: AxisMove)
    ensures fold(c, moves.push(m)) == by(fold(c, moves), m)
{
    fold_of_two(c, moves, seq![m]);
    assert(moves + seq![m] =~= moves.push(m));
    reveal_with_fuel(fold, 2);
    assert(seq![m].drop_first() =~= Seq::empty());
}

pub proof fn fold_quarters_push(c: State, moves: Seq<QuarterAxisMove>, m: QuarterAxisMove)
    ensures fold_quarters(c, moves.push(m)) == by_quarter(fold_quarters(c, moves), m)
    decreases moves.len()
{
    if moves.len() == 0 {
        assert(moves.push(m).drop_first() =~= Seq::empty());
        reveal_with_fuel(fold_quarters, 2);
    } else {
        fold_quarters_push(by_quarter(c, moves[0]), moves.drop_first(), m);
        assert(moves.push(m).drop_first() =~= moves.drop_first().push(m));
    }
}

pub open spec fn clockwise(face: Face) -> QuarterAxisMove { QuarterAxisMove { face, direction: Direction::Positive } }
pub open spec fn anticlockwise(face: Face) -> QuarterAxisMove { QuarterAxisMove { face, direction: Direction::Negative } }

/// A double turn is two quarter turns
pub proof fn in_quarters(moves: Seq<QuarterAxisMove>, face: Face)
    requires laws()
    ensures
        forall|c: State| #[trigger] fold_quarters(c, moves.push(clockwise(face))) == turn(fold_quarters(c, moves), face, 1),
        forall|c: State| #[trigger] fold_quarters(c, moves.push(anticlockwise(face))) == turn(fold_quarters(c, moves), face, 3),
        forall|c: State| #[trigger] fold_quarters(c, moves.push(clockwise(face)).push(clockwise(face))) == turn(fold_quarters(c, moves), face, 2),
        forall|c: State| #[trigger] fold_quarters(c, moves.push(anticlockwise(face)).push(anticlockwise(face))) == turn(fold_quarters(c, moves), face, 2),
{
    let (p, n) = (clockwise(face), anticlockwise(face));
    assert forall|c: State| #[trigger] fold_quarters(c, moves.push(p)) == turn(fold_quarters(c, moves), face, 1) by { fold_quarters_push(c, moves, p); }
    assert forall|c: State| #[trigger] fold_quarters(c, moves.push(n)) == turn(fold_quarters(c, moves), face, 3) by { fold_quarters_push(c, moves, n); }
    assert forall|c: State| #[trigger] fold_quarters(c, moves.push(p).push(p)) == turn(fold_quarters(c, moves), face, 2) by {
        fold_quarters_push(c, moves, p);
        fold_quarters_push(c, moves.push(p), p);
        add_up(fold_quarters(c, moves), face, 1, 1);
    }
    assert forall|c: State| #[trigger] fold_quarters(c, moves.push(n).push(n)) == turn(fold_quarters(c, moves), face, 2) by {
        fold_quarters_push(c, moves, n);
        fold_quarters_push(c, moves.push(n), n);
        add_up(fold_quarters(c, moves), face, 3, 3);
    }
}

/// Non-redundant moves do what their moves do (kani/src/moves.rs: `cubes_follow_non_redundant_moves`)
pub open spec fn fold_non_redundant(c: State, moves: Seq<NonRedundantAxisMove>) -> State
    decreases moves.len()
{
    if moves.len() == 0 { c } else { fold_non_redundant(fold(c, moves_of(moves[0])), moves.drop_first()) }
}

pub proof fn fold_non_redundant_push(c: State, moves: Seq<NonRedundantAxisMove>, m: NonRedundantAxisMove)
    ensures fold_non_redundant(c, moves.push(m)) == fold(fold_non_redundant(c, moves), moves_of(m))
    decreases moves.len()
{
    if moves.len() == 0 {
        assert(moves.push(m).drop_first() =~= Seq::empty());
        reveal_with_fuel(fold_non_redundant, 2);
    } else {
        fold_non_redundant_push(fold(c, moves_of(moves[0])), moves.drop_first(), m);
        assert(moves.push(m).drop_first() =~= moves.drop_first().push(m));
    }
}
"""


def conversions():
    text, new = prelude()
    quarter, redundant = Source("cube_n/moves/quarter.rs"), Source("cube_n/moves/non_redundant.rs")
    quarter_new = quarter.impl(r"^impl QuarterAxisMove$").fn("new")
    quarters = quarter.impl(r"From<Alg<AxisMove>>for Alg<QuarterAxisMove>").fn("from")
    plain = redundant.impl(r"From<Alg<NonRedundantAxisMove>>for Alg<AxisMove>").fn("from")
    single = redundant.impl(r"From<NonRedundantAxisMove>for Alg<AxisMove>").fn("from")
    quarters_body = desugar_for(typed(quarters.body, "output_moves", "Vec<QuarterAxisMove>"), "it",
        "forall|c: State| #[trigger] fold_quarters(c, output_moves@) == fold(c, it_all.take(it_n)),", """
            proof {
                assert(it_all.take(it_n) =~= it_all.take(it_n - 1).push(mov));
                in_quarters(output_moves@, mov.face);
                assert forall|c: State| #[trigger] fold(c, it_all.take(it_n)) == by(fold_quarters(c, output_moves@), mov) by {
                    fold_push(c, it_all.take(it_n - 1), mov);
                }
            }
        """)
    plain_body = desugar_for(typed(plain.body, "moves", "Vec<AxisMove>").replace("Self::", "Alg::"), "outer", """
            forall|c: State| #[trigger] fold(c, moves@) == fold_non_redundant(c, outer_all.take(outer_n)),
        """, """
            let ghost moves0 = moves@;
            proof {
                assert(outer_all.take(outer_n) =~= outer_all.take(outer_n - 1).push(nr_move));
                assert forall|c: State| #[trigger] fold_non_redundant(c, outer_all.take(outer_n)) == fold(c, moves0 + moves_of(nr_move)) by {
                    fold_non_redundant_push(c, outer_all.take(outer_n - 1), nr_move);
                    fold_of_two(c, moves0, moves_of(nr_move));
                }
            }
        """)
    plain_body = desugar_for(plain_body, "inner", "moves@ =~= moves0 + inner_all.take(inner_n),", "")
    single_body = re.sub(r"\.collect::<Vec<_>>\(\)", "", single.body)
    return text + CONVERSIONS + f"""
impl QuarterAxisMove {{
    // {quarter_new.where()}
    pub fn new(face: Face, direction: Direction) -> (r: Self)
        ensures r.face == face, r.direction == direction
    {quarter_new.body}
}}

// {quarters.where()}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn to_quarters(value: Alg<AxisMove>) -> (r: Alg<QuarterAxisMove>)
    requires laws()
    ensures forall|c: State| #[trigger] fold_quarters(c, r.moves@) == fold(c, value.moves@)
{{
    proof {{
        assert forall|s: Seq<AxisMove>| #[trigger] s.take(s.len() as int) == s by {{ assert(s.take(s.len() as int) =~= s); }}
        assert(value.moves@.take(0) =~= Seq::empty());
    }}
    {quarters_body}
}}

// {plain.where()}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
pub fn to_plain(value: Alg<NonRedundantAxisMove>) -> (r: Alg<AxisMove>)
    ensures forall|c: State| #[trigger] fold(c, r.moves@) == fold_non_redundant(c, value.moves@)
{{
    proof {{
        assert forall|s: Seq<NonRedundantAxisMove>| #[trigger] s.take(s.len() as int) == s by {{ assert(s.take(s.len() as int) =~= s); }}
        assert forall|s: Seq<AxisMove>| #[trigger] s.take(s.len() as int) == s by {{ assert(s.take(s.len() as int) =~= s); }}
        assert(value.moves@.take(0) =~= Seq::empty());
    }}
    {plain_body}
}}

// {single.where()}
pub fn one_to_plain(value: NonRedundantAxisMove) -> (r: Alg<AxisMove>)
    ensures r.moves@ == moves_of(value)
{single_body}
""" + END, [new, quarter_new, quarters, plain, single]


LISTS = """
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Axis { X, Y, Z }
#[verifier::external_body]
pub struct NonRedundantAxisMove { m: u8 }
impl NonRedundantAxisMove {
    pub uninterp spec fn of(self) -> Axis;
}

/// All moves of an axis, each once (kani/src/moves.rs: `of_axis_is_complete`)
pub open spec fn of_axis_lists(axis: Axis, r: Seq<NonRedundantAxisMove>) -> bool {
    r.len() == 15 && r.no_duplicates() && forall|m: NonRedundantAxisMove| #[trigger] r.contains(m) <==> m.of() == axis
}
pub open spec fn flat<T>(parts: Seq<Seq<T>>) -> Seq<T>
    decreases parts.len()
{ if parts.len() == 0 { Seq::empty() } else { flat(parts.drop_last()) + parts.last() } }

pub open spec fn parts_are<T, U, F: Fn(T) -> It<U>>(parts: Seq<It<U>>, from: Seq<T>, f: F) -> bool {
    parts.len() == from.len() && forall|i: int| 0 <= i < from.len() ==> call_ensures(f, (from[i],), #[trigger] parts[i])
}
pub open spec fn items_of_each<U>(parts: Seq<It<U>>) -> Seq<Seq<U>> { Seq::new(parts.len(), |i: int| parts[i].items()) }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures exists|parts: Seq<It<U>>| #[trigger] parts_are(parts, self.items(), f) && r.items() == flat(items_of_each(parts))
    { unimplemented!() }
}
/// `IntoIterator` of arrays
pub trait IntoIt<T> {
    spec fn all_items(self) -> Seq<T>;
    fn into_it(self) -> (r: It<T>)
        ensures r.items() == self.all_items();
}
impl<T> IntoIt<T> for [T; 2] {
    open spec fn all_items(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_it(self) -> (r: It<T>) { unimplemented!() }
}

pub proof fn flat_of_axes(axes: Seq<Axis>, parts: Seq<Seq<NonRedundantAxisMove>>)
    requires axes.no_duplicates(), parts.len() == axes.len(), forall|i: int| 0 <= i < axes.len() ==> of_axis_lists(axes[i], #[trigger] parts[i])
    ensures flat(parts).len() == 15 * axes.len(), flat(parts).no_duplicates(),
        forall|m: NonRedundantAxisMove| #[trigger] flat(parts).contains(m) <==> axes.contains(m.of())
    decreases axes.len()
{
    if axes.len() > 0 {
        let (before, last) = (flat(parts.drop_last()), parts.last());
        flat_of_axes(axes.drop_last(), parts.drop_last());
        assert(of_axis_lists(axes.last(), parts[axes.len() - 1]));
        assert forall|m: NonRedundantAxisMove| #[trigger] flat(parts).contains(m) <==> axes.contains(m.of()) by {
            if flat(parts).contains(m) {
                let i = choose|i: int| 0 <= i < flat(parts).len() && flat(parts)[i] == m;
                if i < before.len() {
                    assert(before[i] == m);
                    assert(before.contains(m));
                    assert(axes.drop_last().contains(m.of()));
                    let k = choose|k: int| 0 <= k < axes.len() - 1 && axes.drop_last()[k] == m.of();
                    assert(axes[k] == m.of());
                }
                else { assert(last[i - before.len()] == m); assert(last.contains(m)); assert(axes[axes.len() - 1] == m.of()); }
            }
            if axes.contains(m.of()) {
                let i = choose|i: int| 0 <= i < axes.len() && axes[i] == m.of();
                if i < axes.len() - 1 {
                    assert(axes.drop_last()[i] == m.of());
                    assert(axes.drop_last().contains(m.of()));
                    assert(before.contains(m));
                    let k = choose|k: int| 0 <= k < before.len() && before[k] == m;
                    assert(flat(parts)[k] == m);
                } else {
                    assert(last.contains(m));
                    let k = choose|k: int| 0 <= k < last.len() && last[k] == m;
                    assert(flat(parts)[before.len() + k] == m);
                }
            }
        }
        assert forall|i: int, j: int| 0 <= i < flat(parts).len() && 0 <= j < flat(parts).len() && i != j implies flat(parts)[i] != flat(parts)[j] by {
            let n = before.len() as int;
            if i < n && j >= n { assert(before.contains(before[i])); assert(last.contains(last[j - n])); assert(axes.drop_last().contains(before[i].of())); }
            if j < n && i >= n { assert(before.contains(before[j])); assert(last.contains(last[i - n])); assert(axes.drop_last().contains(before[j].of())); }
        }
    } else {
        assert(flat(parts) =~= Seq::empty());
    }
}
pub open spec fn lists_of(axes: Seq<Axis>, parts: Seq<It<NonRedundantAxisMove>>) -> bool {
    axes.no_duplicates() && parts.len() == axes.len() && forall|i: int| 0 <= i < axes.len() ==> of_axis_lists(axes[i], (#[trigger] parts[i]).items())
}
pub proof fn flat_of_all()
    ensures forall|axes: Seq<Axis>, parts: Seq<It<NonRedundantAxisMove>>| #![trigger axes.no_duplicates(), items_of_each(parts)] lists_of(axes, parts) ==> {
        let all = flat(items_of_each(parts));
        all.len() == 15 * axes.len() && all.no_duplicates() && forall|m: NonRedundantAxisMove| #[trigger] all.contains(m) <==> axes.contains(m.of())
    }
{
    assert forall|axes: Seq<Axis>, parts: Seq<It<NonRedundantAxisMove>>| #![trigger axes.no_duplicates(), items_of_each(parts)] lists_of(axes, parts) implies {
        let all = flat(items_of_each(parts));
        all.len() == 15 * axes.len() && all.no_duplicates() && forall|m: NonRedundantAxisMove| #[trigger] all.contains(m) <==> axes.contains(m.of())
    } by {
        assert forall|i: int| 0 <= i < axes.len() implies of_axis_lists(axes[i], #[trigger] items_of_each(parts)[i]) by {
            assert(of_axis_lists(axes[i], parts[i].items()));
        }
        flat_of_axes(axes, items_of_each(parts));
    }
}
"""


def lists():
    from verus.sets import END as SETS_END, PRELUDE as SETS
    source, space = Source("cube_n/moves/non_redundant.rs"), Source("cube_n/space/axis.rs")
    of = r"^impl NonRedundantAxisMove$"
    given, all_ = source.method(of, "given_last_axis"), source.method(of, "all")
    basis = space.impl(r"^impl Axis$").fn("basis")
    into = lambda body: re.sub(r"\.\s*into_iter\(\)", ".into_it()", body)
    text = SETS[: SETS.index("// Pieces: opaque")] + LISTS + f"""
impl Axis {{
    // {basis.where()}
    pub fn basis(normal: &Axis) -> (r: [Axis; 2])
        ensures r@.len() == 2, r@.no_duplicates(), forall|a: Axis| #[trigger] r@.contains(a) <==> a != *normal
    {{
        let r = {basis.body};
        proof {{
            assert forall|a: Axis| a != *normal implies #[trigger] r@.contains(a) by {{ if r@[0] != a {{ assert(r@[1] == a); }} }}
        }}
        r
    }}
    /// Each axis once (kani/src/space.rs: `axis_order_is_right_handed`)
    #[verifier::external_body]
    pub fn iter() -> (r: It<Axis>)
        ensures r.items().len() == 3, r.items().no_duplicates(), forall|a: Axis| #[trigger] r.items().contains(a)
    {{ unimplemented!() }}
}}
impl NonRedundantAxisMove {{
    #[verifier::external_body]
    pub fn of_axis(axis: Axis) -> (r: It<NonRedundantAxisMove>)
        ensures of_axis_lists(axis, r.items())
    {{ unimplemented!() }}

    // {given.where()}
    pub fn given_last_axis(last_axis: &Axis) -> (r: It<NonRedundantAxisMove>)
        ensures r.items().len() == 30, r.items().no_duplicates(), forall|m: NonRedundantAxisMove| #[trigger] r.items().contains(m) <==> m.of() != *last_axis
    {{
        proof {{ flat_of_all(); }}
        {into(given.body)}
    }}

    // {all_.where()}
    pub fn all() -> (r: It<NonRedundantAxisMove>)
        ensures r.items().len() == 45, r.items().no_duplicates(), forall|m: NonRedundantAxisMove| #[trigger] r.items().contains(m)
    {{
        proof {{ flat_of_all(); }}
        {into(all_.body)}
    }}
}}
"""
    return text + SETS_END, [given, all_, basis]

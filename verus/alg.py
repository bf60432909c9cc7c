"""Algs: applying one is applying its moves in order, and the reversed alg undoes it."""
from lib.rustsrc import Source, lex, matching, rename_self, with_invariants

PRELUDE = """
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
"""
POSTLUDE = """
} // verus!
fn main() {}
"""


def over_iter_mut(body):
    """`for _ in &mut x` goes over `x.iter_mut()`: that is what `IntoIterator` for `&mut Vec` is"""
    tokens = lex(body)
    for j, t in enumerate(tokens):
        if t.text == "in" and tokens[j + 1].text == "&" and tokens[j + 2].text == "mut":
            k = j + 3
            while tokens[k].text != "{":
                k = matching(tokens, k) if tokens[k].text in ("(", "[") else k
                k += 1
            over = body[tokens[j + 3].start : tokens[k - 1].end]
            return body[: tokens[j + 1].start] + f"({over}).iter_mut() " + body[tokens[k].start :]
    return body


def unit():
    alg, moves, rotation = Source("generic/alg.rs"), Source("generic/moves.rs"), Source("cube_n/moves/rotation.rs")
    rotate = rotation.impl(r"Rotatable for Alg<AxisMove>$").fn("rotate")
    rotated = rotation.item("trait", "Rotatable").fn("rotated")
    from_iter = alg.impl(r"FromIterator<T::Move> ?for Alg<T>$").fn("from_iter")
    lazy_apply = alg.impl(r"Movable<Lazy<Alg<M>>> ?for T$").fn("apply")
    rotate_body = with_invariants(
        over_iter_mut(rename_self(rotate.body)),
        [("for", """invariant
            it.seq().len() == all.len(),
            forall|i: int| 0 <= i < all.len() ==> *it.seq()[i] == all[i],
            forall|i: int| 0 <= i < it.index@ ==> *final(it.seq()[i]) == #[trigger] all[i].by_rotation(*rotation),""")],
        iterators=["it"],
    )
    moved = moves.item("trait", "Movable").fn("moved")
    slice_apply = alg.impl(r"Movable<\[M\]> ?for C$").fn("apply")
    alg_apply = alg.impl(r"Movable<Alg<T>> ?for C$").fn("apply")
    inherent = alg.impl(r"^impl<T:AsMove>Alg<T>$")
    new, empty, reversed_ = inherent.fn("new"), inherent.fn("empty"), inherent.fn("reversed")

    slice_body = with_invariants(
        rename_self(slice_apply.body),
        [("for", """invariant
            it.seq().map_values(|r: &M| *r) == all,
            it.index@ <= all.len(),
            fold(*this, all.skip(it.index@)) == fold(start, all),""")],
        iterators=["it"],
        loop_start=["assert(all.skip(it.index@)[0] == *it.seq()[it.index@]); assert(all.skip(it.index@).drop_first() =~= all.skip(it.index@ + 1));"],
    )
    text = PRELUDE + f"""
pub trait Move: Sized + Clone {{
    spec fn inverted(self) -> Self;
    fn inverse(&self) -> (r: Self)
        ensures r == self.inverted();
}}

pub trait AsMove {{
    type Move: Move;
}}

pub trait Movable<M: ?Sized>: Sized {{
    spec fn by(self, m: &M) -> Self;

    fn apply(&mut self, m: &M)
        ensures *final(self) == old(self).by(m);
}}

// {moved.where()}
fn moved<M, C: Movable<M>>(that: C, m: &M) -> (r: C)
    ensures r == that.by(m)
{{
    let mut this = that;
    {rename_self(moved.body)}
}}

/// The moves of a sequence, one after the other
pub open spec fn fold<M: Move, C: Movable<M>>(c: C, moves: Seq<M>) -> C
    decreases moves.len()
{{
    if moves.len() == 0 {{ c }} else {{ fold(c.by(&moves[0]), moves.drop_first()) }}
}}

pub struct Alg<T: AsMove> {{
    pub moves: Vec<T::Move>,
}}

pub open spec fn undone<M: Move>(moves: Seq<M>) -> Seq<M> {{
    Seq::new(moves.len(), |i: int| moves[moves.len() - 1 - i].inverted())
}}

impl<T: AsMove> Alg<T> {{
    // {new.where()}
    pub fn new(moves: Vec<T::Move>) -> (r: Self)
        ensures r.moves == moves
    {new.body}

    // {empty.where()}
    pub fn empty() -> (r: Self)
        ensures r.moves@.len() == 0
    {empty.body}

    // {reversed_.where()}
    pub fn reversed(&self) -> (r: Self)
        ensures r.moves@ == undone(self.moves@)
    {{
        let r = {reversed_.body};
        assert(r.moves@ =~= undone(self.moves@));
        r
    }}
}}

// {slice_apply.where()}
fn slice_apply<M: Move, C: Movable<M>>(this: &mut C, m: &[M])
    ensures *final(this) == fold(*old(this), m@)
{{
    let ghost all = m@;
    let ghost start = *this;
    assert(all.skip(0) =~= all);
    {slice_body}
    assert(all.skip(all.len() as int) =~= Seq::empty());
}}


/// What `slice_apply` gives to whatever can be moved
pub trait MovableBySlice<M: Move>: Sized {{
    spec fn by_all(self, moves: Seq<M>) -> Self;
    fn apply(&mut self, moves: &[M])
        ensures *final(self) == old(self).by_all(moves@);
}}

// {alg_apply.where()}
fn alg_apply<T: AsMove, C: MovableBySlice<T::Move>>(this: &mut C, m: &Alg<T>)
    ensures *final(this) == old(this).by_all(m.moves@)
{rename_self(alg_apply.body)}

// {from_iter.where()}, for vectors
fn alg_from_iter<T: AsMove>(iter: Vec<T::Move>) -> (r: Alg<T>)
    ensures r.moves@ == iter@
{rename_self(from_iter.body).replace("Self::", "Alg::<T>::")}

impl<M: Move> AsMove for M {{
    type Move = M;
}}

// {lazy_apply.where()}, with what `Lazy` holds in its place
fn lazy_apply<M: Move, T: Movable<Alg<M>>>(this: &mut T, m: &Alg<M>)
    ensures *final(this) == old(this).by(m)
{rename_self(lazy_apply.body)}

pub struct AxisRotation {{
    _any: u8,
}}

pub trait Rotatable: Sized {{
    spec fn by_rotation(self, rotation: AxisRotation) -> Self;

    fn rotate(&mut self, rotation: &AxisRotation)
        ensures *final(self) == old(self).by_rotation(*rotation);
}}

// {rotated.where()}
fn rotated<T: Rotatable>(that: T, rotation: &AxisRotation) -> (r: T)
    ensures r == that.by_rotation(*rotation)
{{
    let mut this = that;
    {rename_self(rotated.body)}
}}

/// Each of the moves, rotated
pub open spec fn rotated_moves<M: Rotatable>(moves: Seq<M>, rotation: AxisRotation) -> Seq<M> {{
    moves.map_values(|m: M| m.by_rotation(rotation))
}}

// {rotate.where()}
fn alg_rotate<AxisMove: Move + Rotatable>(this: &mut Alg<AxisMove>, rotation: &AxisRotation)
    ensures final(this).moves@ == rotated_moves(old(this).moves@, *rotation)
{{
    let ghost all = this.moves@;
    {rotate_body}
    assert(this.moves@ =~= rotated_moves(all, *rotation));
}}

/// A rotated move does to what is rotated what the move does to it (`space::rotated_moves_are_conjugates` and `.._on_edges`)
pub open spec fn conjugates<M: Move + Rotatable, C: Movable<M> + Rotatable>(rotation: AxisRotation) -> bool {{
    forall|c: C, m: M| (#[trigger] c.by(&m)).by_rotation(rotation) == c.by_rotation(rotation).by(&m.by_rotation(rotation))
}}

/// A rotated alg does to what is rotated what the alg does to it
pub proof fn rotated_algs_are_conjugates<M: Move + Rotatable, C: Movable<M> + Rotatable>(c: C, moves: Seq<M>, rotation: AxisRotation)
    requires conjugates::<M, C>(rotation)
    ensures fold(c, moves).by_rotation(rotation) == fold(c.by_rotation(rotation), rotated_moves(moves, rotation))
    decreases moves.len()
{{
    if moves.len() > 0 {{
        assert(rotated_moves(moves, rotation).drop_first() =~= rotated_moves(moves.drop_first(), rotation));
        rotated_algs_are_conjugates(c.by(&moves[0]), moves.drop_first(), rotation);
    }}
}}

/// Whatever the state, a move is undone by its inverse
pub open spec fn invertible<M: Move, C: Movable<M>>() -> bool {{
    forall|c: C, m: M| #[trigger] c.by(&m).by(&m.inverted()) == c
}}

pub proof fn fold_of_two<M: Move, C: Movable<M>>(c: C, a: Seq<M>, b: Seq<M>)
    ensures fold(c, a + b) == fold(fold(c, a), b)
    decreases a.len()
{{
    if a.len() == 0 {{
        assert(a + b =~= b);
    }} else {{
        fold_of_two(c.by(&a[0]), a.drop_first(), b);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }}
}}

/// An alg and then its reverse leave any state as it was
pub proof fn reverse_undoes<M: Move, C: Movable<M>>(c: C, moves: Seq<M>)
    requires invertible::<M, C>()
    ensures fold(fold(c, moves), undone(moves)) == c
    decreases moves.len()
{{
    if moves.len() == 0 {{
    }} else {{
        let first = moves[0];
        let rest = moves.drop_first();
        reverse_undoes(c.by(&first), rest);
        assert(undone(moves) =~= undone(rest) + seq![first.inverted()]);
        fold_of_two(fold(c, moves), undone(rest), seq![first.inverted()]);
        reveal_with_fuel(fold, 3);
        assert(seq![first.inverted()].drop_first() =~= Seq::<M>::empty());
    }}
}}
""" + POSTLUDE
    return text, [moved, slice_apply, alg_apply, lazy_apply, new, empty, reversed_, rotate, rotated]

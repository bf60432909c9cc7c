"""Moves between states: `connect` finds one if there is one, and an alg made from states goes through exactly these.
For all kinds of states and moves."""
import re

from lib.rustsrc import LostAnchor, Source, closures, lex, norm, with_closures
from verus.sets import END, PRELUDE

CONTRACTS = """
// The standard library

/// `s.windows(n)`
#[verifier::external_body]
pub fn windows_of<'a, T>(s: &'a [T], n: usize) -> (r: It<&'a [T]>)
    requires n > 0
    ensures r.items().len() == if s@.len() < n { 0 } else { s@.len() - n + 1 },
        forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i])@ == s@.subrange(i, i + n)
{ unimplemented!() }

impl<A, E> It<Result<A, E>> {
    /// All, if none is an error
    #[verifier::external_body]
    pub fn collect_results(self) -> (r: Result<Vec<A>, E>)
        ensures
            r is Ok ==> r->Ok_0@.len() == self.items().len() && forall|i: int| 0 <= i < self.items().len() ==> self.items()[i] == Ok::<A, E>(#[trigger] r->Ok_0@[i]),
            r is Err ==> exists|i: int| 0 <= i < self.items().len() && (#[trigger] self.items()[i]) is Err
    { unimplemented!() }
}

// Moves

pub trait Move: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
    /// What `IntoEnumIterator` lists (kani/src/moves.rs: `all_axis_moves_are_listed_once`)
    spec fn listed() -> Seq<Self>;
    fn iter() -> (r: It<Self>)
        ensures r.items() == Self::listed();
}
pub trait State<M>: Sized {
    spec fn by(self, m: M) -> Self;
    fn clone(&self) -> (r: Self)
        ensures r == *self;
    fn to_owned(&self) -> (r: Self)
        ensures r == *self;
    fn moved(self, m: &M) -> (r: Self)
        ensures r == self.by(*m);
    /// `==`
    fn equals(&self, other: &Self) -> (r: bool)
        ensures r == (*self == *other);
}
pub enum TryFromStatesError<M, T> { NotConnected(T, T, core::marker::PhantomData<M>) }
pub struct Alg<M> { pub moves: Vec<M> }
use core::marker::PhantomData;

pub open spec fn connected<M: Move, T: State<M>>(from: T, to: T) -> bool {
    exists|i: int| 0 <= i < M::listed().len() && from.by(#[trigger] M::listed()[i]) == to
}
"""


def equality(text):
    """`a == b` in the body of a closure, by `equals`"""
    tokens = lex(text)
    at = [j for j, t in enumerate(tokens) if t.text == "=="]
    if len(at) != 1:
        raise LostAnchor("not one comparison")
    j = at[0]
    start, end = j, j
    while tokens[start - 1].text not in ("|", ";", "{", "("):
        start -= 1
        if tokens[start].text in (")", "]", "}"):
            depth = 1
            while depth:
                start -= 1
                depth += {")": 1, "]": 1, "}": 1, "(": -1, "[": -1, "{": -1}.get(tokens[start].text, 0)
    while end + 1 < len(tokens) and tokens[end + 1].text not in (")", ";", "}", ","):
        end += 1
        if tokens[end].text in "([{":
            depth = 1
            while depth:
                end += 1
                depth += {")": -1, "]": -1, "}": -1, "(": 1, "[": 1, "{": 1}.get(tokens[end].text, 0)
    left, right = text[tokens[start].start : tokens[j].start].strip(), text[tokens[j].end : tokens[end].end].strip()
    return text[: tokens[start].start] + f"({left}).equals(&({right}))" + text[tokens[end].end :]


def unit():
    moves, alg = Source("generic/moves.rs"), Source("generic/alg.rs")
    connect = moves.fn("connect")
    states = alg.method(r"^impl<T:AsMove>Alg<T>where T::Move:Debug\+IntoEnumIterator,?$", "try_from_states")
    convert = alg.impl(r"TryFrom<&\[T\]>for Alg<M>$").fn("try_from")
    new = alg.method(r"^impl<T:AsMove>Alg<T>$", "new")
    connect_body = with_closures(equality(connect.body), [("", ["&M"], "-> (r: bool) ensures r == (from.by(*$0) == *to)")])
    body = states.body
    # A window of two
    body, n = re.subn(r"let\s*\[(\w+),\s*(\w+)\]\s*=\s*(\w+)\s*else\s*\{[^{}]*\}\s*;", r"let (\1, \2) = (&\3[0], &\3[1]);", body)
    if n != 1:
        raise LostAnchor("windows are taken apart otherwise")
    body = re.sub(r"\bstates\s*\.\s*windows\((\d+)\)", r"windows_of(states, \1)", body)
    body = re.sub(r"\.\s*collect::<\s*Result<Vec<[^<>]*>,\s*_>\s*>\(\)", ".collect_results()", body)
    body = re.sub(r"\bgeneric::moves::connect\b", "connect::<M, C>", body)
    tokens = lex(body)
    found = closures(tokens)
    outer = found[0]
    if any(j > outer[2] for j, _, _ in found[1:]) or outer[1] != outer[0] + 2:
        raise LostAnchor("closures are otherwise")
    window = tokens[outer[0] + 1].text
    body = (body[: tokens[outer[0]].start] + f"""|{window}: &[C]| -> (r: Result<M, TryFromStatesError<M, C>>)
        requires {window}@.len() == 2
        ensures r is Ok ==> {window}@[0].by(r->Ok_0) == {window}@[1], r is Err ==> !connected::<M, C>({window}@[0], {window}@[1])
        {{""" + body[tokens[outer[1]].end : tokens[outer[2] - 1].end] + "}" + body[tokens[outer[2] - 1].end :])
    prelude = PRELUDE[: PRELUDE.index("// Pieces: opaque")]
    text = prelude + CONTRACTS + f"""
// {connect.where()}
pub fn connect<M: Move, T: State<M>>(from: &T, to: &T) -> (r: Option<M>)
    ensures r is Some ==> from.by(r.unwrap()) == *to && M::listed().contains(r.unwrap()), r is None <==> !connected::<M, T>(*from, *to)
{connect_body}

impl<M: Move> Alg<M> {{
    // {new.where()}
    pub fn new(moves: Vec<M>) -> (r: Self)
        ensures r.moves@ == moves@
    {new.body}

    // {states.where()}
    pub fn try_from_states<C: State<M>>(states: &[C]) -> (r: Result<Self, TryFromStatesError<M, C>>)
        ensures
            r is Ok ==> r->Ok_0.moves@.len() == if states@.len() == 0 {{ 0 }} else {{ states@.len() - 1 }},
            r is Ok ==> forall|i: int| 0 <= i < states@.len() - 1 ==> (#[trigger] states@[i]).by(r->Ok_0.moves@[i]) == states@[i + 1],
            r is Err ==> exists|i: int| 0 <= i < states@.len() - 1 && !connected::<M, C>(#[trigger] states@[i], states@[i + 1])
    {body}

    // {convert.where()}
    pub fn try_from<T: State<M>>(value: &[T]) -> (r: Result<Self, TryFromStatesError<M, T>>)
        ensures
            r is Ok ==> r->Ok_0.moves@.len() == if value@.len() == 0 {{ 0 }} else {{ value@.len() - 1 }},
            r is Ok ==> forall|i: int| 0 <= i < value@.len() - 1 ==> (#[trigger] value@[i]).by(r->Ok_0.moves@[i]) == value@[i + 1],
            r is Err ==> exists|i: int| 0 <= i < value@.len() - 1 && !connected::<M, T>(#[trigger] value@[i], value@[i + 1])
    {convert.body}
}}
"""
    return text + END, [connect, new, states, convert]

"""Wide moves: for all depths and maximum depths (they are constants that the code is generic over), and the
narrower moves of the cubes, which a macro writes: the macro is expanded here for each cube that calls it."""
import re

from lib.rustsrc import LostAnchor, Source, fields, macro_arms, macro_calls, norm, lex, parsed, rename_self, with_closures
from verus.cubes import parts_of

PRELUDE = """
use vstd::prelude::*;
verus! {

#[derive(Clone, Copy)]
pub struct Amount { a: u8 }
pub struct Face { f: u8 }
pub struct AxisMove { pub face: Face, pub amount: Amount }

impl Clone for AxisMove {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

impl AxisMove {
    pub uninterp spec fn inverted(self) -> AxisMove;
    /// kani/src/space.rs: `moves_have_inverses`
    #[verifier::external_body]
    pub fn inverse(&self) -> (r: Self) ensures r == self.inverted() { unimplemented!() }
}
impl<const N: u32> Clone for WideAxisMove<N> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub struct WideAxisMove<const N: u32> { pub depth: u32, pub axis_move: AxisMove }
#[derive(Debug)]
pub enum WideMoveCreationError { ExcededDepth(u32, u32) }

impl<const N: u32> WideAxisMove<N> {
    /// The invariant of the type
    pub open spec fn wf(self) -> bool { self.depth <= N }
}

/// What a move is, whatever its type says of its maximum depth
pub trait Layers {
    spec fn layers(self) -> (u32, AxisMove);
}
impl<const N: u32> Layers for WideAxisMove<N> {
    open spec fn layers(self) -> (u32, AxisMove) { (self.depth, self.axis_move) }
}
impl<const N: u32> Layers for &WideAxisMove<N> {
    open spec fn layers(self) -> (u32, AxisMove) { (self.depth, self.axis_move) }
}
pub mod mem {
    use super::*;
    /// Of wide moves, which are laid out alike
    #[verifier::external_body]
    pub unsafe fn transmute<A: Layers, B: Layers>(a: A) -> (r: B)
        ensures r.layers() == a.layers()
    { unimplemented!() }
}

pub trait Movable<M>: Sized {
    spec fn by(self, m: &M) -> Self;
    fn apply(&mut self, m: &M)
        requires old(self).can(m)
        ensures *final(self) == old(self).by(m);
    spec fn can(self, m: &M) -> bool;
}

pub struct Alg<M> { pub moves: Vec<M> }

/// `map` of the iterator of a vector
#[verifier::external_body]
pub fn mapped<T, U, F: Fn(T) -> U>(items: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < items@.len() ==> call_requires(f, (#[trigger] items@[i],))
    ensures r@.len() == items@.len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (items@[i],), #[trigger] r@[i])
{ unimplemented!() }

/// `collect` of results, and then of an alg
#[verifier::external_body]
pub fn collected<M, E: core::fmt::Debug>(items: Vec<Result<M, E>>) -> (r: Result<Alg<M>, E>)
    ensures
        r is Ok ==> r.unwrap().moves@.len() == items@.len() && forall|i: int| 0 <= i < items@.len() ==> items@[i] == Ok::<M, E>(#[trigger] r.unwrap().moves@[i]),
        r is Ok && items@.len() > 0 ==> items@[0] == Ok::<M, E>(r.unwrap().moves@[0]),
        r is Err ==> exists|i: int| 0 <= i < items@.len() && #[trigger] items@[i] is Err,
{ unimplemented!() }
"""

END = "} // verus!\nfn main() {}\n"


def collected(body):
    """`a.into_iter().map(f).collect()` as `collected(mapped(a, f))`, if that is all there is"""
    m = re.match(r"(?s)^\{\s*(\S[^;{]*?)\s*\.into_iter\(\)\s*\.map\((.*)\)\s*\.collect\(\)\s*\}$", body)
    if not m:
        raise LostAnchor("the moves are not collected from a map")
    return f"{{ collected(mapped({m.group(1)}, {m.group(2)})) }}"


def unit():
    wide, moves = Source("cube_n/moves/wide.rs"), Source("cube_n/moves/mod.rs")
    if fields(wide.item("struct", "WideAxisMove")) != [("depth", "u32"), ("axis_move", "AxisMove")] \
            or sorted(fields(moves.item("struct", "AxisMove"))) != [("amount", "Amount"), ("face", "Face")]:
        raise LostAnchor("moves are made of something else")
    of = wide.impl(r"^impl<const N:u32>WideAxisMove<N>$")
    new, set_depth, set_max_depth = of.fn("new"), of.fn("set_depth"), of.fn("set_max_depth")
    face, amount, depth = of.fn("face"), of.fn("amount"), of.fn("depth")
    inverse = wide.impl(r"Move for WideAxisMove<N>$").fn("inverse")
    widen = moves.method(r"^impl AxisMove$", "widen")
    widen_all = wide.method(r"^impl Alg<AxisMove>$", "widen")
    narrowest = wide.impl(r"Movable<WideAxisMove<0>>for C$").fn("apply")
    all_body = with_closures(collected(widen_all.body), [
        ("", ["AxisMove"], "-> (r: Result<WideAxisMove<N>, WideMoveCreationError>) ensures widened($0, depth, r)")])
    text = PRELUDE + f"""
impl<const N: u32> WideAxisMove<N> {{
    // {new.where()}
    pub fn new(face: Face, amount: Amount, depth: u32) -> (r: Result<Self, WideMoveCreationError>)
        ensures r is Ok <==> depth <= N, r is Ok ==> r.unwrap().depth == depth && r.unwrap().axis_move == (AxisMove {{ face, amount }}) && r.unwrap().wf()
    {new.body}

    // {face.where()}
    pub fn face(&self) -> (r: &Face) ensures *r == self.axis_move.face
    {face.body}

    // {amount.where()}
    pub fn amount(&self) -> (r: Amount) ensures r == self.axis_move.amount
    {amount.body}

    // {depth.where()}
    pub fn depth(&self) -> (r: u32) ensures r == self.depth
    {depth.body}

    // {set_depth.where()}
    pub fn set_depth(&mut self, new_depth: u32) -> (r: Result<(), WideMoveCreationError>)
        requires old(self).wf()
        ensures
            final(self).wf(), r is Ok <==> new_depth <= N,
            r is Ok ==> *final(self) == (WideAxisMove::<N> {{ depth: new_depth, axis_move: old(self).axis_move }}),
            r is Err ==> *final(self) == *old(self)
    {set_depth.body}

    // {set_max_depth.where()}
    pub fn set_max_depth<const M: u32>(self) -> (r: Result<WideAxisMove<M>, WideMoveCreationError>)
        requires self.wf()
        ensures r is Ok <==> self.depth <= M, r is Ok ==> r.unwrap().wf() && r.unwrap().depth == self.depth && r.unwrap().axis_move == self.axis_move
    {set_max_depth.body}
}}

impl<const N: u32> WideAxisMove<N> {{
    // {inverse.where()}
    fn inverse(&self) -> (r: Self)
        ensures r.depth == self.depth, r.axis_move == self.axis_move.inverted()
    {inverse.body}
}}

impl AxisMove {{
    // {widen.where()}
    pub fn widen<const N: u32>(self, depth: u32) -> (r: Result<WideAxisMove<N>, WideMoveCreationError>)
        ensures widened(self, depth, r)
    {widen.body}
}}

pub open spec fn widened<const N: u32>(m: AxisMove, depth: u32, r: Result<WideAxisMove<N>, WideMoveCreationError>) -> bool {{
    &&& r is Ok <==> depth <= N
    &&& r is Ok ==> r.unwrap().depth == depth && r.unwrap().axis_move == m && r.unwrap().wf()
}}

impl Alg<AxisMove> {{
    // {widen_all.where()}
    pub fn widen<const N: u32>(self, depth: u32) -> (r: Result<Alg<WideAxisMove<N>>, WideMoveCreationError>)
        ensures
            r is Ok <==> self.moves@.len() == 0 || depth <= N,
            r is Ok ==> r.unwrap().moves@.len() == self.moves@.len() && forall|i: int| 0 <= i < self.moves@.len() ==>
                (#[trigger] r.unwrap().moves@[i]) == (WideAxisMove::<N> {{ depth, axis_move: self.moves@[i] }}),
    {all_body}
}}

// {narrowest.where()}
pub fn narrowest<C: Movable<AxisMove>>(this: &mut C, m: &WideAxisMove<0>)
    requires old(this).can(&m.axis_move)
    ensures *final(this) == old(this).by(&m.axis_move)
{rename_self(narrowest.body)}
"""
    functions = [new, face, amount, depth, set_depth, set_max_depth, inverse, widen, widen_all, narrowest]

    # The narrower moves of each cube
    arms = macro_arms(wide, "impl_movable_wide_move_inductively")
    by_pattern = dict(arms)
    lists = [p for p in by_pattern if "[" in p]
    if len(lists) != 1 or norm(lex(by_pattern[lists[0]])) != "$(impl_movable_wide_move_inductively!($cube,$max_width,$width);)*":
        raise LostAnchor("the macro does not go through its list of widths")
    for n in (4, 5, 6, 7):
        source, _ = parts_of(n)
        calls = macro_calls(source, "impl_movable_wide_move_inductively")
        widest = (n - 2) // 2
        text += f"""
#[verifier::external_body]
pub struct Cube{n} {{ c: u8 }}
pub uninterp spec fn moved_{n}(c: Cube{n}, m: WideAxisMove<{widest}>) -> Cube{n};
impl Movable<WideAxisMove<{widest}>> for Cube{n} {{
    open spec fn by(self, m: &WideAxisMove<{widest}>) -> Self {{ moved_{n}(self, *m) }}
    open spec fn can(self, m: &WideAxisMove<{widest}>) -> bool {{ m.wf() }}
    #[verifier::external_body]
    fn apply(&mut self, m: &WideAxisMove<{widest}>) {{ unimplemented!() }}
}}
"""
        seen = []
        for cube, most, widths in calls:
            if cube != f"Cube{n}":
                raise LostAnchor(f"moves of {cube} in {source.path}")
            for width in [w for w in widths.strip("[]").split(",") if w]:
                arm = by_pattern.get(f"($cube:ty,$max_width:literal,{width})") or by_pattern.get("($cube:ty,$max_width:literal,$width:literal)")
                if arm is None:
                    raise LostAnchor(f"no rule for {width}")
                expanded = arm.replace("$cube", cube).replace("$max_width", most).replace("$width", width)
                kind = "AxisMove" if width == "0" else f"WideAxisMove<{width}>"
                expanded = expanded.replace("crate::generic::", "").replace("crate::cube_n::", "").replace("std::mem::", "mem::")
                apply = parsed(expanded, wide.path).impl(rf"^impl Movable<{re.escape(kind)}>for Cube{n}$").fn("apply")
                meant = f"WideAxisMove::<{widest}> {{ depth: 0, axis_move: *m }}" if width == "0" else f"WideAxisMove::<{widest}> {{ depth: m.depth, axis_move: m.axis_move }}"
                seen.append(int(width))
                text += f"""
// {wide.path.split("/src/")[-1]}: impl_movable_wide_move_inductively!({cube}, {most}, {width})
impl Movable<{kind}> for Cube{n} {{
    open spec fn by(self, m: &{kind}) -> Self {{ moved_{n}(self, {meant}) }}
    open spec fn can(self, m: &{kind}) -> bool {{ {"true" if width == "0" else "m.wf()"} }}
    fn apply(&mut self, m: &{kind})
    {apply.body}
}}
"""
                apply.head = f"<Cube{n} as Movable<{kind}>>::apply"
                functions.append(apply)
        if seen != list(range(widest)):
            raise LostAnchor(f"Cube{n} has the narrower moves {seen}")
    return text + END, functions

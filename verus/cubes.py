"""Whole cubes: a move is applied once to each set of pieces, and nothing else happens; a cube is solved when
all of its sets are. For all states and all moves, and whatever the moves of the sets do."""
from lib.rustsrc import LostAnchor, Source, fields

PRELUDE = """
use vstd::prelude::*;
use core::marker::PhantomData;
verus! {

pub trait Movable<M>: Sized {
    spec fn by(self, m: &M) -> Self;
    fn apply(&mut self, m: &M)
        ensures *final(self) == old(self).by(m);
}

#[verifier::external_body]
pub struct AxisMove { m: u8 }

/// The fields do not matter here
pub struct WideAxisMove<const N: u32> { pub depth: u32, pub axis_move: AxisMove }

/// A set of pieces of some kind, at given depths. Its moves are under contract in kani/src/sets.rs
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct PieceSet<P, const N: usize> { p: PhantomData<P> }

#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct DepthPieceSet<P, const N: usize, const ND: u32, const TD: u32> { p: PhantomData<P> }

pub uninterp spec fn set_by<P, const N: usize>(s: PieceSet<P, N>, m: AxisMove) -> PieceSet<P, N>;
pub uninterp spec fn depth_set_by<P, const N: usize, const ND: u32, const TD: u32, const M: u32>(
    s: DepthPieceSet<P, N, ND, TD>, m: WideAxisMove<M>) -> DepthPieceSet<P, N, ND, TD>;

impl<P, const N: usize> Movable<AxisMove> for PieceSet<P, N> {
    open spec fn by(self, m: &AxisMove) -> Self { set_by(self, *m) }
    #[verifier::external_body]
    fn apply(&mut self, m: &AxisMove) { unimplemented!() }
}
impl<P, const N: usize, const ND: u32, const TD: u32, const M: u32> Movable<WideAxisMove<M>> for DepthPieceSet<P, N, ND, TD> {
    open spec fn by(self, m: &WideAxisMove<M>) -> Self { depth_set_by(self, *m) }
    #[verifier::external_body]
    fn apply(&mut self, m: &WideAxisMove<M>) { unimplemented!() }
}
impl<P, const N: usize> PieceSet<P, N> {
    pub uninterp spec fn solved(self) -> bool;
    #[verifier::external_body]
    pub fn is_solved(&self) -> (r: bool) ensures r == self.solved() { unimplemented!() }
}
impl<P, const N: usize, const ND: u32, const TD: u32> DepthPieceSet<P, N, ND, TD> {
    pub uninterp spec fn solved(self) -> bool;
    #[verifier::external_body]
    pub fn is_solved(&self) -> (r: bool) ensures r == self.solved() { unimplemented!() }
}

pub struct Corner { p: u8 }
pub struct Edge { p: u8 }
pub struct Wing { p: u8 }
pub struct CenterCorner { p: u8 }
pub struct CenterEdge { p: u8 }
pub struct CenterWing { p: u8 }
pub type CornerSet = PieceSet<Corner, 8>;
pub type EdgeSet = PieceSet<Edge, 12>;
pub type WingSet<const ND: u32> = DepthPieceSet<Wing, 24, ND, 0>;
pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND, 0>;
pub type CenterEdgeSet<const ND: u32> = DepthPieceSet<CenterEdge, 24, ND, 0>;
pub type CenterWingSet<const ND: u32, const TD: u32> = DepthPieceSet<CenterWing, 48, ND, TD>;

"""

# What a cube of each size is made of
PARTS = {
    2: ["CornerSet"],
    3: ["CornerSet", "EdgeSet"],
    4: ["CornerSet", "WingSet<1>", "CenterCornerSet<1>"],
    5: ["CornerSet", "EdgeSet", "WingSet<1>", "CenterCornerSet<1>", "CenterEdgeSet<1>"],
    6: ["CornerSet", "WingSet<1>", "WingSet<2>", "CenterCornerSet<1>", "CenterCornerSet<2>", "CenterWingSet<1,2>"],
    7: ["CornerSet", "EdgeSet", "WingSet<1>", "WingSet<2>", "CenterCornerSet<1>", "CenterCornerSet<2>",
        "CenterWingSet<1,2>", "CenterEdgeSet<1>", "CenterEdgeSet<2>"],
}


def parts_of(n):
    source = Source(f"cube_n/cube{n}/mod.rs")
    parts = fields(source.item("struct", f"Cube{n}"))
    parts = [(name, kind.split("::")[-1] if "<" not in kind else kind) for name, kind in parts]
    if sorted(kind for _, kind in parts) != sorted(PARTS[n]):
        raise LostAnchor(f"Cube{n} is made of {parts}")
    return source, parts


def struct(n, parts):
    return f"pub struct Cube{n} {{\n" + "".join(f"    pub {name}: {kind},\n" for name, kind in parts) + "}\n"


def moves_unit():
    text, functions = PRELUDE, []
    for n in PARTS:
        source, parts = parts_of(n)
        m = "AxisMove" if n < 4 else f"WideAxisMove<{(n - 2) // 2}>"
        apply = source.impl(rf"Movable<{m}> ?for Cube{n}$").fn("apply")
        functions.append(apply)
        def by(name, kind):
            plain = n >= 4 and kind in ("CornerSet", "EdgeSet")
            return f"self.{name}.by({'&m.axis_move' if plain else 'm'})"
        text += struct(n, parts) + f"""
impl Movable<{m}> for Cube{n} {{
    open spec fn by(self, m: &{m}) -> Self {{
        Cube{n} {{ {", ".join(f"{name}: {by(name, kind)}" for name, kind in parts)} }}
    }}
    // {apply.where()}
    fn apply(&mut self, m: &{m})
    {apply.body}
}}
"""
    return text + "} // verus!\nfn main() {}\n", functions


def solved_unit():
    text, functions = PRELUDE, []
    for n in (4, 5, 6, 7):
        source, parts = parts_of(n)
        is_solved = source.impl(rf"Cube ?for Cube{n}$").fn("is_solved")
        functions.append(is_solved)
        text += struct(n, parts) + f"""
impl Cube{n} {{
    // {is_solved.where()}
    fn is_solved(&self) -> (r: bool)
        ensures r == ({" && ".join(f"self.{name}.solved()" for name, _ in parts)})
    {is_solved.body}
}}
"""
    return text + "} // verus!\nfn main() {}\n", functions

"""Sets of pieces, of any size and any kind of piece: they are valid iff no two pieces share a place, lookups
find what is there, and moves move each piece once. The kinds of pieces and their positions are opaque."""
import re

from lib.rustsrc import LostAnchor, Source, desugar_for, desugar_for_mut, fields, norm, lex, rename_self, statements_of_filter, with_closures

PRELUDE = """
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

// The standard library: arrays, iterators and equality

pub struct Array<T, const N: usize> { pub v: Vec<T> }

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);

impl<T, const N: usize> Array<T, N> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>)
        ensures r.items() == references(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: It<T>)
        ensures r.items() == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures r == if i < self@.len() { Some(&self@[i as int]) } else { None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&self, i: usize) -> (r: &T)
        requires i < self@.len()
        ensures *r == self@[i as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    pub open spec fn number(&self) -> int { self@.len() as int }
    #[verifier::external_body]
    pub fn nth_mut(&mut self, i: usize) -> (r: &mut T)
        requires i < old(self)@.len()
        ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r))
    { unimplemented!() }
}

pub open spec fn references<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn zipped<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> {
    Seq::new(if a.len() < b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i]))
}

/// What can be gone over
pub trait Items<T>: Sized {
    spec fn items(self) -> Seq<T>;
    fn to_vec(self) -> (r: Vec<T>)
        ensures r@ == self.items();
}
pub uninterp spec fn items_of<T>(it: It<T>) -> Seq<T>;
impl<T> Items<T> for It<T> {
    open spec fn items(self) -> Seq<T> { items_of(self) }
    #[verifier::external_body]
    fn to_vec(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<'a, T, const N: usize> Items<&'a T> for &'a Array<T, N> {
    open spec fn items(self) -> Seq<&'a T> { references(self@) }
    #[verifier::external_body]
    fn to_vec(self) -> (r: Vec<&'a T>) { unimplemented!() }
}

impl<T> It<T> {
    pub open spec fn items(self) -> Seq<T> { items_of(self) }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures r.items().len() == self.items().len(), forall|i: int| 0 <= i < r.items().len() ==> call_ensures(f, (self.items()[i],), #[trigger] r.items()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, other: It<U>) -> (r: It<(T, U)>)
        ensures r.items() == zipped(self.items(), other.items())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures
            r ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (#[trigger] self.items()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.items().len() && call_ensures(f, (#[trigger] self.items()[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures
            !r ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (#[trigger] self.items()[i],), false),
            r ==> exists|i: int| 0 <= i < self.items().len() && call_ensures(f, (#[trigger] self.items()[i],), true)
    { unimplemented!() }
    /// The number of the first that is wanted
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures
            r is Some ==> r.unwrap() < self.items().len() && call_ensures(f, (self.items()[r.unwrap() as int],), true)
                && forall|j: int| 0 <= j < r.unwrap() ==> call_ensures(f, (#[trigger] self.items()[j],), false),
            r is None ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (#[trigger] self.items()[i],), false)
    { unimplemented!() }
    /// The first that is wanted
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (&#[trigger] self.items()[i],))
        ensures
            r is Some ==> exists|i: int| 0 <= i < self.items().len() && r == Some(#[trigger] self.items()[i]) && call_ensures(f, (&self.items()[i],), true)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self.items()[j],), false),
            r is None ==> forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (&#[trigger] self.items()[i],), false)
    { unimplemented!() }
}

// Pieces: opaque, with an opaque position

#[derive(PartialEq, Eq, Structural)]
pub struct Position { p: u64 }

pub trait Piece: Sized + PartialEq {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
    fn to_owned(&self) -> (r: Self)
        ensures r == *self;
    spec fn at(self) -> Position;
    fn position(&self) -> (r: Position)
        ensures r == self.at();
    spec fn solved(self, original: Position) -> bool;
    fn is_solved(&self, original_pos: &Position) -> (r: bool)
        ensures r == self.solved(*original_pos);
}
pub open spec fn home<const N: usize, P: PieceSetDescriptor<N>>(i: int) -> Position { P::reference_positions()[i] }

pub trait PieceSetDescriptor<const N: usize>: Piece {
    spec fn reference_positions() -> Seq<Position>;
    fn references() -> (r: Array<Position, N>)
        ensures r@ == Self::reference_positions(), r@.len() == N;
    /// They are all different (kani/src/pieces.rs: `solved_*_are_at_home`)
    proof fn references_differ()
        ensures Self::reference_positions().no_duplicates(), Self::reference_positions().len() == N;
}

pub enum ValidationError<P> { DuplicatePosition(Position), DuplicatePiece(P) }

pub struct PieceSet<P: PieceSetDescriptor<N>, const N: usize> { pub pieces: Array<P, N> }

/// No two pieces are at the same place
pub open spec fn valid<P: Piece>(pieces: Seq<P>) -> bool {
    forall|i: int, j: int| 0 <= i < j < pieces.len() ==> (#[trigger] pieces[i]).at() != (#[trigger] pieces[j]).at()
}
"""

MOVES = """
pub trait Movable<M>: Sized {
    spec fn by(self, m: &M) -> Self;
    fn apply(&mut self, m: &M)
        ensures *final(self) == old(self).by(m);
}

#[verifier::external_body]
pub struct AxisMove { m: u8 }
pub struct WideAxisMove<const N: u32> { pub depth: u32, pub axis_move: AxisMove }
#[verifier::external_body]
pub struct AxisRotation { r: u8 }
impl AxisRotation {
    pub uninterp spec fn of(m: AxisMove) -> AxisRotation;
    #[verifier::external_body]
    pub fn from(m: &AxisMove) -> (r: Self) ensures r == Self::of(*m) { unimplemented!() }
}
pub trait Rotatable: Sized {
    spec fn by_rotation(self, r: AxisRotation) -> Self;
    fn rotate(&mut self, r: &AxisRotation)
        ensures *final(self) == old(self).by_rotation(*r);
}
pub trait DepthPiece: Piece {
    spec fn inside<const M: u32>(self, normal_depth: u32, tangent_depth: u32, m: WideAxisMove<M>) -> bool;
    fn is_in_wide_move<const M: u32>(&self, normal_depth: u32, tangent_depth: u32, m: &WideAxisMove<M>) -> (r: bool)
        ensures r == self.inside(normal_depth, tangent_depth, *m);
}
pub struct DepthPieceSet<P: DepthPiece + PieceSetDescriptor<N>, const N: usize, const ND: u32, const TD: u32> { pub set: PieceSet<P, N> }

/// What a wide move does with a piece (kani/src/pieces.rs: `wide_moved`)
pub open spec fn wide_moved<P: DepthPiece + Rotatable, const M: u32>(piece: P, nd: u32, td: u32, m: WideAxisMove<M>) -> P {
    if piece.inside(nd, td, m) { piece.by_rotation(AxisRotation::of(m.axis_move)) } else { piece }
}
"""

END = "} // verus!\nfn main() {}\n"


def generic(text):
    """The associated types and constants of pieces, as they are called here"""
    text = re.sub(r"\bP::Position\b", "Position", text)
    text = re.sub(r"(?:Self|P)::REFERENCE_POSITIONS\b", "P::references()", text)
    return text


def shapes():
    source = Source("generic/piece/set.rs")
    if fields(source.item("struct", "PieceSet")) != [("pieces", "[P;N]")]:
        raise LostAnchor("sets are made of something else")
    return source


def unit():
    source = shapes()
    of = r"^impl<P:PieceSetDescriptor<N>,const N:usize>PieceSet<P,N>$"
    new, validate, pieces = (source.method(of, n) for n in ("new", "validate", "pieces"))
    zip_positions, iter_, iter_with_pos, is_solved = (source.method(of, n) for n in ("zip_positions", "iter", "iter_with_pos", "is_solved"))
    originally, original, at_index = (source.method(of, n) for n in ("piece_originally_at", "original_position_of_piece_at", "at_index"))
    duplicates = source.fn("find_duplicates")
    moved = source.impl(r"Movable<M>for PieceSet<P,N>").fn("apply")

    duplicates_body = desugar_for(re.sub(r"\bin iter\b", "in iter.to_vec()", duplicates.body.replace("let mut visited = Vec::new()", "let mut visited: Vec<T> = Vec::new()")), "it", """
            it_all == all, all.take(it_n).no_duplicates(), visited@ == all.take(it_n),
        """, """
            proof {
                assert(it_all.take(it_n) =~= it_all.take(it_n - 1).push(it_all[it_n - 1]));
                assert(visited@.push(it_all[it_n - 1]) =~= it_all.take(it_n));
                if !visited@.contains(it_all[it_n - 1]) { one_more(it_all.take(it_n - 1), it_all[it_n - 1]); }
                else { one_again(it_all, it_n - 1); }
            }
        """)
    pair = "(Position, &P)"
    is_solved_body = with_closures(is_solved.body, [("", [pair], "-> (r: bool) ensures r == $0.1.solved($0.0)")])
    originally_body = with_closures(generic(originally.body), [
        ("", [f"&{pair}"], "-> (r: bool) ensures r == ($0.0 == *target_pos)"), ("", [pair], "-> (r: &P) ensures *r == *$0.1")])
    original_body = with_closures(generic(original.body), [
        ("", [f"&{pair}"], "-> (r: bool) ensures r == ($0.1.at() == *target_pos)"), ("", [pair], "-> (r: Position) ensures r == $0.0")])
    text = PRELUDE + f"""
pub proof fn one_more<T>(s: Seq<T>, x: T)
    requires s.no_duplicates(), !s.contains(x)
    ensures s.push(x).no_duplicates()
{{}}
pub proof fn one_again<T>(s: Seq<T>, n: int)
    requires 0 <= n < s.len(), s.take(n).contains(s[n])
    ensures repeats(s, s[n])
{{
    let i = choose|i: int| 0 <= i < n && s.take(n)[i] == s[n];
    assert(s[i] == s[n]);
}}
/// A value that is there twice
pub open spec fn repeats<T>(s: Seq<T>, x: T) -> bool {{
    exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == x
}}

// {duplicates.where()}
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
fn find_duplicates<T: PartialEq, I: Items<T>>(iter: I) -> (r: Option<T>)
    ensures r is Some ==> repeats(iter.items(), r.unwrap()), r is None ==> iter.items().no_duplicates()
{{
    let ghost all = iter.items();
    proof {{
        assert forall|s: Seq<T>| #[trigger] s.take(s.len() as int) == s by {{ assert(s.take(s.len() as int) =~= s); }}
        assert(iter.items().take(0) =~= Seq::empty());
    }}
    {duplicates_body}
}}

pub open spec fn placed<P: Piece>(s: Seq<Position>, pieces: Seq<P>) -> bool {{
    s.len() == pieces.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == pieces[i].at()
}}
pub proof fn places_tell<P: Piece>(pieces: Seq<P>)
    ensures
        forall|s: Seq<Position>| placed(s, pieces) ==> #[trigger] s.no_duplicates() == valid(pieces),
        forall|s: Seq<Position>, x: Position| placed(s, pieces) && #[trigger] repeats(s, x) ==> !valid(pieces),
        forall|x: &P| #[trigger] repeats(references(pieces), x) ==> !valid(pieces)
{{
    assert forall|s: Seq<Position>| placed(s, pieces) implies #[trigger] s.no_duplicates() == valid(pieces) by {{
        if valid(pieces) {{
            assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {{
                assert(s[i] == pieces[i].at() && s[j] == pieces[j].at());
            }}
        }}
        if s.no_duplicates() {{
            assert forall|i: int, j: int| 0 <= i < j < pieces.len() implies (#[trigger] pieces[i]).at() != (#[trigger] pieces[j]).at() by {{
                assert(s[i] == pieces[i].at() && s[j] == pieces[j].at());
            }}
        }}
    }}
    assert forall|s: Seq<Position>, x: Position| placed(s, pieces) && #[trigger] repeats(s, x) implies !valid(pieces) by {{
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == x;
        assert(pieces[i].at() == pieces[j].at());
    }}
    assert forall|x: &P| #[trigger] repeats(references(pieces), x) implies !valid(pieces) by {{
        let s = references(pieces);
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == x && #[trigger] s[j] == x;
        assert(pieces[i].at() == pieces[j].at());
    }}
}}

/// The piece that belongs to the place of a number, at home or not
pub open spec fn index_of<P: PieceSetDescriptor<N>, const N: usize>(i: int, target: Position) -> bool {{
    0 <= i < N && P::reference_positions()[i] == target
}}

impl<P: PieceSetDescriptor<N>, const N: usize> PieceSet<P, N> {{
    pub open spec fn wf(&self) -> bool {{ self.pieces@.len() == N }}

    // {new.where()}
    pub fn new(pieces: Array<P, N>) -> (r: Result<Self, ValidationError<P>>)
        ensures r is Ok <==> valid(pieces@), r is Ok ==> r->Ok_0.pieces == pieces
    {new.body}

    // {validate.where()}
    pub fn validate(&self) -> (r: Option<ValidationError<P>>)
        ensures r is None <==> valid(self.pieces@)
    {{
        proof {{ places_tell(self.pieces@); }}
        {generic(validate.body).replace("P::position", "position::<P>")}
    }}

    // {pieces.where()}
    pub fn pieces(&self) -> (r: &Array<P, N>)
        ensures *r == self.pieces
    {pieces.body}

    // {zip_positions.where()}
    pub fn zip_positions<T>(other: It<T>) -> (r: It<(Position, T)>)
        ensures r.items() == zipped(P::reference_positions(), other.items())
    {generic(zip_positions.body)}

    // {iter_.where()}
    pub fn iter(&self) -> (r: It<&P>)
        ensures r.items() == references(self.pieces@)
    {generic(iter_.body)}

    // {iter_with_pos.where()}
    pub fn iter_with_pos(&self) -> (r: It<(Position, &P)>)
        ensures r.items() == zipped(P::reference_positions(), references(self.pieces@))
    {generic(iter_with_pos.body)}

    // {is_solved.where()}
    pub fn is_solved(&self) -> (r: bool)
        requires self.wf()
        ensures r <==> forall|i: int| 0 <= i < N ==> (#[trigger] self.pieces@[i]).solved(P::reference_positions()[i])
    {{
        proof {{
            P::references_differ();
            let all = zipped(P::reference_positions(), references(self.pieces@));
            assert forall|i: int| 0 <= i < N implies all[i] == (P::reference_positions()[i], &#[trigger] self.pieces@[i]) by {{}}
            assert forall|it: It<(Position, &P)>, i: int| it.items() == all && 0 <= i < N implies (#[trigger] self.pieces@[i], #[trigger] it.items()).0 == it.items()[i].1 by {{}}
        }}
        {is_solved_body}
    }}

    // {originally.where()}
    pub fn piece_originally_at(&self, target_pos: &Position) -> (r: &P)
        requires self.wf(), P::reference_positions().contains(*target_pos)
        ensures forall|i: int| #[trigger] index_of::<P, N>(i, *target_pos) ==> *r == self.pieces@[i]
    {{
        proof {{
            P::references_differ();
            let k = choose|k: int| 0 <= k < N && P::reference_positions()[k] == *target_pos;
            let all = zipped(P::reference_positions(), references(self.pieces@));
            assert(all[k] == (P::reference_positions()[k], &self.pieces@[k]));
        }}
        {originally_body}
    }}

    // {original.where()}
    pub fn original_position_of_piece_at(&self, target_pos: &Position) -> (r: Position)
        requires self.wf(), valid(self.pieces@), exists|i: int| 0 <= i < N && (#[trigger] self.pieces@[i]).at() == *target_pos
        ensures forall|i: int| 0 <= i < N && (#[trigger] self.pieces@[i]).at() == *target_pos ==> r == P::reference_positions()[i]
    {{
        proof {{
            P::references_differ();
            let k = choose|k: int| 0 <= k < N && (#[trigger] self.pieces@[k]).at() == *target_pos;
            let all = zipped(P::reference_positions(), references(self.pieces@));
            assert(all[k] == (P::reference_positions()[k], &self.pieces@[k]));
        }}
        {original_body}
    }}

    // {at_index.where()}
    pub fn at_index(&self, index: usize) -> (r: Option<&P>)
        ensures r == if index < self.pieces@.len() {{ Some(&self.pieces@[index as int]) }} else {{ None }}
    {at_index.body}
}}

/// `P::position`
fn position<P: Piece>(p: &P) -> (r: Position)
    ensures r == p.at()
{{ p.position() }}
"""
    return text + END, [duplicates, new, validate, pieces, zip_positions, iter_, iter_with_pos, is_solved, originally, original, at_index]


def elements(over):
    """What `&mut` a collection goes over"""
    m = re.fullmatch(r"&mut (.*)", over) or re.fullmatch(r"(.*)\.iter_mut\(\)", over)
    if m:
        return m.group(1)
    m = re.fullmatch(r"(.*)\.iter_mut_unchecked\(\)", over)
    if not m:
        raise LostAnchor(f"a loop over {over}")
    return m.group(1) + ".pieces"


def swapped(body):
    """`(a, b) = (x, y);` as what it stands for, and positions by `position_of`"""
    tokens = lex(body)
    m = re.search(r"(?s)\(([^(),]+),([^(),]+)\)\s*=\s*\(((?:[^()]|\(\))+?),((?:[^()]|\(\))+?)\)\s*;", body)
    if m:
        a, b, x, y = (g.strip() for g in m.groups())
        body = body[: m.start()] + f"let taken_x = {x}; let taken_y = {y}; *{a}_mut = taken_x; *{b}_mut = taken_y;" + body[m.end() :]
    del tokens
    body = re.sub(r"\*self\.pieces\[([^\]]+)\]_mut", r"*self.pieces.nth_mut(\1)", body)
    return re.sub(r"self\.pieces\[([^\]]+)\](?!\s*=)", r"self.pieces.nth(\1)", body)


def moves():
    source, wide = shapes(), Source("cube_n/moves/wide.rs")
    of = r"^impl<P:PieceSetDescriptor<N>,const N:usize>PieceSet<P,N>$"
    moved = source.impl(r"Movable<M>for PieceSet<P,N>").fn("apply")
    mutable, swap = source.method(of, "iter_mut_unchecked"), source.method(of, "swap")
    if norm(lex(mutable.body)) != "{self.pieces.iter_mut()}":
        raise LostAnchor("iter_mut_unchecked is something else")
    if fields(wide.item("struct", "DepthPieceSet")) != [("set", "PieceSet<P,N>")]:
        raise LostAnchor("depth sets are made of something else")
    wide_moved = wide.impl(r"Movable<WideAxisMove<M>>for DepthPieceSet<P,N,ND,TD>$").fn("apply")
    each = lambda pieces, by: f"""
            taken <= {pieces}.number(), {pieces}.number() == start.len(),
            forall|i: int| 0 <= i < start.len() ==> #[trigger] {pieces}@[i] == if i < taken {{ {by} }} else {{ start[i] }},"""
    moved_body = desugar_for_mut(rename_self(moved.body), "taken", elements, each("this.pieces", "start[i].by(m)"), "")
    wide_body = rename_self(wide_moved.body)
    if not any(t.text == "for" for t in lex(wide_body)):
        wide_body = statements_of_filter(wide_body)
    wide_body = desugar_for_mut(wide_body, "taken", elements, each("this.set.pieces", "wide_moved(start[i], ND, TD, *m)"), "")
    swap_body = swapped(generic(with_closures(swap.body, [
        ("", ["&Position"], "-> (r: bool) ensures r == (*$0 == *a)"), ("", ["&Position"], "-> (r: bool) ensures r == (*$0 == *b)")])))
    text = PRELUDE + MOVES + f"""
impl<P: PieceSetDescriptor<N>, const N: usize> PieceSet<P, N> {{
    // {swap.where()}
    pub fn swap(&mut self, a: &Position, b: &Position)
        requires old(self).pieces@.len() == N, P::reference_positions().contains(*a), P::reference_positions().contains(*b)
        ensures
            final(self).pieces@.len() == N,
            forall|i: int, j: int| 0 <= i < N && 0 <= j < N && P::reference_positions()[i] == *a && P::reference_positions()[j] == *b
                ==> final(self).pieces@ == #[trigger] old(self).pieces@.update(i, old(self).pieces@[j]).update(j, old(self).pieces@[i])
    {{
        proof {{
            P::references_differ();
            let s = P::reference_positions();
            assert(s.contains(s[choose|i: int| 0 <= i < N && s[i] == *a]));
            assert(references(s)[choose|i: int| 0 <= i < N && s[i] == *a] == &s[choose|i: int| 0 <= i < N && s[i] == *a]);
            assert(references(s)[choose|i: int| 0 <= i < N && s[i] == *b] == &s[choose|i: int| 0 <= i < N && s[i] == *b]);
        }}
        {swap_body}
    }}
}}

// {moved.where()}
#[verifier::loop_isolation(false)]
fn set_apply<M, P: PieceSetDescriptor<N> + Movable<M>, const N: usize>(this: &mut PieceSet<P, N>, m: &M)
    ensures
        final(this).pieces@.len() == old(this).pieces@.len(),
        forall|i: int| 0 <= i < old(this).pieces@.len() ==> #[trigger] final(this).pieces@[i] == old(this).pieces@[i].by(m)
{{
    let ghost start = this.pieces@;
    {moved_body}
}}

// {wide_moved.where()}
#[verifier::loop_isolation(false)]
fn depth_set_apply<P: DepthPiece + Rotatable + PieceSetDescriptor<N>, const M: u32, const N: usize, const ND: u32, const TD: u32>(
    this: &mut DepthPieceSet<P, N, ND, TD>, m: &WideAxisMove<M>)
    ensures
        final(this).set.pieces@.len() == old(this).set.pieces@.len(),
        forall|i: int| 0 <= i < old(this).set.pieces@.len() ==> #[trigger] final(this).set.pieces@[i] == wide_moved(old(this).set.pieces@[i], ND, TD, *m)
{{
    let ghost start = this.set.pieces@;
    {wide_body}
}}
"""
    return text + END, [moved, wide_moved, swap]

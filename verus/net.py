"""The unfolded net: populating it puts the color of each sticker of each piece on the square where the sticker is, and nothing else.
What stickers pieces have, and which square is where, is what Kani proves in kani/src/net.rs."""
import re

from lib.rustsrc import LostAnchor, Source, desugar_for, fields, lex, norm
from verus.sets import END

PRELUDE = """
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

#[verifier::external_body]
pub struct Face { f: u8 }
#[verifier::external_body]
pub struct Color { c: u8 }
#[verifier::external_body]
pub struct Coordinates { v: [f32; 3] }
/// One of the squares of the net
#[verifier::external_body]
pub struct Square { s: u8 }
pub type Colors = spec_fn(Square) -> Color;

/// The square of a place on a face, if it is on the net (kani/src/net.rs: `squares_are_where_the_net_folds`)
pub uninterp spec fn square(place: Coordinates, face: Face) -> Option<Square>;

#[verifier::external_body]
pub struct Unfolded<const N: usize> { u: u8 }
impl<const N: usize> Unfolded<N> {
    pub uninterp spec fn colors(self) -> Colors;
    pub uninterp spec fn blank() -> Colors;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.colors() == Self::blank()
    { unimplemented!() }
    /// kani/src/net.rs: `squares_are_where_the_net_folds`
    #[verifier::external_body]
    pub fn at_mut_unwrapped(&mut self, place: &Coordinates, face: &Face) -> (r: &mut Color)
        requires square(*place, *face) is Some
        ensures
            *r == old(self).colors()(square(*place, *face)->Some_0),
            final(self).colors() == colored(old(self).colors(), square(*place, *face)->Some_0, *final(r))
    { unimplemented!() }
}
pub open spec fn colored(net: Colors, s: Square, c: Color) -> Colors { |x: Square| if x == s { c } else { net(x) } }

pub trait Piece: Sized {
    type Position;
    spec fn at(self) -> Coordinates;
    fn coordinates(&self) -> (r: Coordinates)
        ensures r == self.at();
    spec fn stickers(self, original: Self::Position) -> Seq<(Face, Color)>;
    fn colors(&self, original_pos: Self::Position) -> (r: Vec<(Face, Color)>)
        ensures r@ == self.stickers(original_pos);
    spec fn references() -> Seq<Self::Position>;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(P)]
pub struct PieceSet<P: Piece, const M: usize> { p: Vec<P> }
impl<P: Piece, const M: usize> PieceSet<P, M> {
    pub uninterp spec fn pieces(self) -> Seq<P>;
    /// verus/sets.py: `iter_with_pos`
    #[verifier::external_body]
    pub fn iter_with_pos(&self) -> (r: Vec<(P::Position, &P)>)
        ensures r@.len() == M, self.pieces().len() == M, P::references().len() == M,
            forall|i: int| 0 <= i < M ==> (#[trigger] r@[i]).0 == P::references()[i] && *r@[i].1 == self.pieces()[i]
    { unimplemented!() }
}

// What is drawn

/// The stickers of a piece, on the squares where they are
pub open spec fn marks<P: Piece>(piece: P, original: P::Position) -> Seq<(Option<Square>, Color)> {
    Seq::new(piece.stickers(original).len(), |j: int| (square(piece.at(), piece.stickers(original)[j].0), piece.stickers(original)[j].1))
}
pub open spec fn painted(net: Colors, m: Seq<(Option<Square>, Color)>) -> Colors
    decreases m.len()
{ if m.len() == 0 { net } else { colored(painted(net, m.drop_last()), m.last().0->Some_0, m.last().1) } }
/// Those of all pieces up to one
pub open spec fn all_marks<P: Piece>(pieces: Seq<P>, n: int) -> Seq<(Option<Square>, Color)>
    decreases n
{ if n <= 0 { Seq::empty() } else { all_marks(pieces, n - 1) + marks(pieces[n - 1], P::references()[n - 1]) } }
pub open spec fn on_the_net<P: Piece>(pieces: Seq<P>) -> bool {
    forall|i: int, j: int| 0 <= i < pieces.len() && 0 <= j < pieces[i].stickers(P::references()[i]).len() ==>
        square(pieces[i].at(), (#[trigger] pieces[i].stickers(P::references()[i])[j]).0) is Some
}

pub proof fn painted_more(net: Colors, a: Seq<(Option<Square>, Color)>, b: Seq<(Option<Square>, Color)>, j: int)
    requires 0 <= j < b.len()
    ensures painted(net, a + b.take(j + 1)) == colored(painted(net, a + b.take(j)), b[j].0->Some_0, b[j].1)
{
    let all = a + b.take(j + 1);
    assert(all.drop_last() =~= a + b.take(j));
    assert(all.last() == b[j]);
}
/// Where no two marks are on the same square each shows, and the other squares stay as they are
pub proof fn each_mark_shows(net: Colors, m: Seq<(Option<Square>, Color)>, k: int)
    requires 0 <= k < m.len(), forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0->Some_0 != (#[trigger] m[j]).0->Some_0
    ensures painted(net, m)(m[k].0->Some_0) == m[k].1
    decreases m.len()
{
    if k < m.len() - 1 {
        let rest = m.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < rest.len() implies (#[trigger] rest[i]).0->Some_0 != (#[trigger] rest[j]).0->Some_0 by {
            assert(m[i].0->Some_0 != m[j].0->Some_0);
        }
        each_mark_shows(net, rest, k);
        assert(m[k].0->Some_0 != m[m.len() - 1].0->Some_0);
    }
}
pub proof fn others_stay(net: Colors, m: Seq<(Option<Square>, Color)>, s: Square)
    requires forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0->Some_0 != s
    ensures painted(net, m)(s) == net(s)
    decreases m.len()
{
    if m.len() > 0 {
        assert(m[m.len() - 1].0->Some_0 != s);
        assert forall|i: int| 0 <= i < m.drop_last().len() implies (#[trigger] m.drop_last()[i]).0->Some_0 != s by { assert(m[i].0->Some_0 != s); }
        others_stay(net, m.drop_last(), s);
    }
}
pub open spec fn is_mark<P: Piece>(pieces: Seq<P>, n: int, m: (Option<Square>, Color)) -> bool {
    exists|i: int, j: int| 0 <= i < n && 0 <= j < marks(pieces[i], P::references()[i]).len() && m == #[trigger] marks(pieces[i], P::references()[i])[j]
}
/// Which marks there are
pub proof fn marks_of_all<P: Piece>(pieces: Seq<P>, n: int)
    requires 0 <= n <= pieces.len()
    ensures
        forall|i: int, j: int| 0 <= i < n && 0 <= j < marks(pieces[i], P::references()[i]).len() ==>
            all_marks(pieces, n).contains(#[trigger] marks(pieces[i], P::references()[i])[j]),
        forall|k: int| 0 <= k < all_marks(pieces, n).len() ==> is_mark(pieces, n, #[trigger] all_marks(pieces, n)[k]),
    decreases n
{
    if n > 0 {
        marks_of_all(pieces, n - 1);
        let (a, b) = (all_marks(pieces, n - 1), marks(pieces[n - 1], P::references()[n - 1]));
        let all = all_marks(pieces, n);
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < marks(pieces[i], P::references()[i]).len() implies
            all.contains(#[trigger] marks(pieces[i], P::references()[i])[j]) by {
            let m = marks(pieces[i], P::references()[i])[j];
            if i == n - 1 { assert(all[a.len() + j] == m); }
            else { let k = choose|k: int| 0 <= k < a.len() && a[k] == m; assert(a.contains(m)); assert(all[k] == m); }
        }
        assert forall|k: int| 0 <= k < all.len() implies is_mark(pieces, n, #[trigger] all[k]) by {
            if k < a.len() {
                assert(all[k] == a[k]);
                assert(is_mark(pieces, n - 1, a[k]));
                let (i, j) = choose|i: int, j: int| 0 <= i < n - 1 && 0 <= j < marks(pieces[i], P::references()[i]).len() && a[k] == #[trigger] marks(pieces[i], P::references()[i])[j];
                assert(all[k] == marks(pieces[i], P::references()[i])[j]);
            } else {
                assert(all[k] == marks(pieces[n - 1], P::references()[n - 1])[k - a.len()]);
            }
        }
    }
}

// Corners and edges

#[verifier::external_body]
pub struct Corner { c: u8 }
#[verifier::external_body]
pub struct Edge { e: u8 }
#[verifier::external_body]
pub struct CornerPosition { c: u8 }
#[verifier::external_body]
pub struct EdgePosition { e: u8 }
pub uninterp spec fn corner_at(c: Corner) -> Coordinates;
pub uninterp spec fn edge_at(e: Edge) -> Coordinates;
pub uninterp spec fn corner_stickers(c: Corner, p: CornerPosition) -> Seq<(Face, Color)>;
pub uninterp spec fn edge_stickers(e: Edge, p: EdgePosition) -> Seq<(Face, Color)>;
pub uninterp spec fn corner_references() -> Seq<CornerPosition>;
pub uninterp spec fn edge_references() -> Seq<EdgePosition>;
impl Piece for Corner {
    type Position = CornerPosition;
    open spec fn at(self) -> Coordinates { corner_at(self) }
    #[verifier::external_body]
    fn coordinates(&self) -> (r: Coordinates) { unimplemented!() }
    open spec fn stickers(self, original: CornerPosition) -> Seq<(Face, Color)> { corner_stickers(self, original) }
    #[verifier::external_body]
    fn colors(&self, original_pos: CornerPosition) -> (r: Vec<(Face, Color)>) { unimplemented!() }
    open spec fn references() -> Seq<CornerPosition> { corner_references() }
}
impl Piece for Edge {
    type Position = EdgePosition;
    open spec fn at(self) -> Coordinates { edge_at(self) }
    #[verifier::external_body]
    fn coordinates(&self) -> (r: Coordinates) { unimplemented!() }
    open spec fn stickers(self, original: EdgePosition) -> Seq<(Face, Color)> { edge_stickers(self, original) }
    #[verifier::external_body]
    fn colors(&self, original_pos: EdgePosition) -> (r: Vec<(Face, Color)>) { unimplemented!() }
    open spec fn references() -> Seq<EdgePosition> { edge_references() }
}
pub struct Cube3 { pub edges: PieceSet<Edge, 12>, pub corners: PieceSet<Corner, 8> }

/// Stickers have squares of their own: those of pieces at different places, and those of a piece.
/// kani/src/net.rs: `stickers_of_corners_have_their_own_squares`, `stickers_of_edges_have_their_own_squares`, `corners_and_edges_have_their_own_squares`
pub open spec fn distinct_squares(m: Seq<(Option<Square>, Color)>, w: Seq<(Option<Square>, Color)>) -> bool {
    forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < w.len() ==> (#[trigger] m[i]).0 is Some && (#[trigger] w[j]).0 is Some && m[i].0 != w[j].0
}
pub open spec fn own_squares(m: Seq<(Option<Square>, Color)>) -> bool {
    forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]).0 is Some && forall|j: int| 0 <= j < i ==> (#[trigger] m[j]).0 != m[i].0
}
#[verifier::external_body]
pub proof fn corner_squares(a: Corner, p: CornerPosition, b: Corner, q: CornerPosition)
    ensures own_squares(marks(a, p)), a.at() != b.at() ==> distinct_squares(marks(a, p), marks(b, q))
{}
#[verifier::external_body]
pub proof fn edge_squares(a: Edge, p: EdgePosition, b: Edge, q: EdgePosition)
    ensures own_squares(marks(a, p)), a.at() != b.at() ==> distinct_squares(marks(a, p), marks(b, q))
{}
#[verifier::external_body]
pub proof fn mixed_squares(a: Corner, p: CornerPosition, b: Edge, q: EdgePosition)
    ensures distinct_squares(marks(a, p), marks(b, q))
{}
/// No two pieces are at the same place (C06)
pub open spec fn apart<P: Piece>(pieces: Seq<P>) -> bool {
    forall|i: int, j: int| 0 <= i < j < pieces.len() ==> (#[trigger] pieces[i]).at() != (#[trigger] pieces[j]).at()
}
pub proof fn corners_have_their_squares(pieces: Seq<Corner>, n: int)
    requires apart(pieces), 0 <= n <= pieces.len()
    ensures own_squares(all_marks(pieces, n))
    decreases n
{
    if n > 0 {
        corners_have_their_squares(pieces, n - 1);
        marks_of_all(pieces, n - 1);
        let (a, b) = (all_marks(pieces, n - 1), marks(pieces[n - 1], corner_references()[n - 1]));
        corner_squares(pieces[n - 1], corner_references()[n - 1], pieces[n - 1], corner_references()[n - 1]);
        assert forall|k: int, j: int| 0 <= k < a.len() && 0 <= j < b.len() implies (#[trigger] a[k]).0 != (#[trigger] b[j]).0 by {
            assert(is_mark(pieces, n - 1, a[k]));
            let (i, l) = choose|i: int, l: int| 0 <= i < n - 1 && 0 <= l < marks(pieces[i], corner_references()[i]).len() && a[k] == #[trigger] marks(pieces[i], corner_references()[i])[l];
            corner_squares(pieces[i], corner_references()[i], pieces[n - 1], corner_references()[n - 1]);
        }
        let all = all_marks(pieces, n);
        assert forall|k: int| 0 <= k < all.len() implies (#[trigger] all[k]).0 is Some && forall|j: int| 0 <= j < k ==> (#[trigger] all[j]).0 != all[k].0 by {
            assert(all =~= a + b);
            if k >= a.len() { assert(all[k] == b[k - a.len()]); } else { assert(all[k] == a[k]); }
            assert forall|j: int| 0 <= j < k implies (#[trigger] all[j]).0 != all[k].0 by {
                if j >= a.len() { assert(all[j] == b[j - a.len()]); } else { assert(all[j] == a[j]); }
            }
        }
    }
}
pub proof fn edges_have_their_squares(pieces: Seq<Edge>, n: int)
    requires apart(pieces), 0 <= n <= pieces.len()
    ensures own_squares(all_marks(pieces, n))
    decreases n
{
    if n > 0 {
        edges_have_their_squares(pieces, n - 1);
        marks_of_all(pieces, n - 1);
        let (a, b) = (all_marks(pieces, n - 1), marks(pieces[n - 1], edge_references()[n - 1]));
        edge_squares(pieces[n - 1], edge_references()[n - 1], pieces[n - 1], edge_references()[n - 1]);
        assert forall|k: int, j: int| 0 <= k < a.len() && 0 <= j < b.len() implies (#[trigger] a[k]).0 != (#[trigger] b[j]).0 by {
            assert(is_mark(pieces, n - 1, a[k]));
            let (i, l) = choose|i: int, l: int| 0 <= i < n - 1 && 0 <= l < marks(pieces[i], edge_references()[i]).len() && a[k] == #[trigger] marks(pieces[i], edge_references()[i])[l];
            edge_squares(pieces[i], edge_references()[i], pieces[n - 1], edge_references()[n - 1]);
        }
        let all = all_marks(pieces, n);
        assert forall|k: int| 0 <= k < all.len() implies (#[trigger] all[k]).0 is Some && forall|j: int| 0 <= j < k ==> (#[trigger] all[j]).0 != all[k].0 by {
            assert(all =~= a + b);
            if k >= a.len() { assert(all[k] == b[k - a.len()]); } else { assert(all[k] == a[k]); }
            assert forall|j: int| 0 <= j < k implies (#[trigger] all[j]).0 != all[k].0 by {
                if j >= a.len() { assert(all[j] == b[j - a.len()]); } else { assert(all[j] == a[j]); }
            }
        }
    }
}
pub proof fn shown(net: Colors, m: Seq<(Option<Square>, Color)>)
    requires own_squares(m)
    ensures
        forall|k: int| 0 <= k < m.len() ==> painted(net, m)((#[trigger] m[k]).0->Some_0) == m[k].1,
        forall|s: Square| (forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).0 != Some(s)) ==> #[trigger] painted(net, m)(s) == net(s)
{
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies (#[trigger] m[i]).0->Some_0 != (#[trigger] m[j]).0->Some_0 by {
        assert(m[j].0 is Some && m[i].0 is Some && m[i].0 != m[j].0);
    }
    assert forall|k: int| 0 <= k < m.len() implies painted(net, m)((#[trigger] m[k]).0->Some_0) == m[k].1 by { each_mark_shows(net, m, k); }
    assert forall|s: Square| (forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).0 != Some(s)) implies #[trigger] painted(net, m)(s) == net(s) by {
        assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]).0->Some_0 != s by { assert(m[i].0 != Some(s)); assert(m[i].0 is Some); }
        others_stay(net, m, s);
    }
}
pub open spec fn corner_marks(cube: Cube3) -> Seq<(Option<Square>, Color)> { all_marks(cube.corners.pieces(), 8) }
pub open spec fn edge_marks(cube: Cube3) -> Seq<(Option<Square>, Color)> { all_marks(cube.edges.pieces(), 12) }
/// What the drawing of a cube shows: each sticker of each piece, where it is, and what the blank net shows elsewhere
pub open spec fn drawn(net: Colors, cube: Cube3) -> bool {
    &&& forall|i: int, j: int| 0 <= i < 8 && 0 <= j < marks(cube.corners.pieces()[i], corner_references()[i]).len() ==> {
        let m = #[trigger] marks(cube.corners.pieces()[i], corner_references()[i])[j];
        m.0 is Some && net(m.0->Some_0) == m.1
    }
    &&& forall|i: int, j: int| 0 <= i < 12 && 0 <= j < marks(cube.edges.pieces()[i], edge_references()[i]).len() ==> {
        let m = #[trigger] marks(cube.edges.pieces()[i], edge_references()[i])[j];
        m.0 is Some && net(m.0->Some_0) == m.1
    }
    &&& forall|s: Square| (forall|k: int| 0 <= k < corner_marks(cube).len() ==> (#[trigger] corner_marks(cube)[k]).0 != Some(s))
            && (forall|k: int| 0 <= k < edge_marks(cube).len() ==> (#[trigger] edge_marks(cube)[k]).0 != Some(s)) ==> #[trigger] net(s) == Unfolded::<3>::blank()(s)
}
pub proof fn all_is_drawn(cube: Cube3)
    requires apart(cube.corners.pieces()), apart(cube.edges.pieces()), cube.corners.pieces().len() == 8, cube.edges.pieces().len() == 12
    ensures
        on_the_net(cube.corners.pieces()), on_the_net(cube.edges.pieces()),
        drawn(painted(painted(Unfolded::<3>::blank(), corner_marks(cube)), edge_marks(cube)), cube),
        drawn(painted(painted(Unfolded::<3>::blank(), edge_marks(cube)), corner_marks(cube)), cube),
{
    let (c, e) = (corner_marks(cube), edge_marks(cube));
    let blank = Unfolded::<3>::blank();
    corners_have_their_squares(cube.corners.pieces(), 8);
    edges_have_their_squares(cube.edges.pieces(), 12);
    marks_of_all(cube.corners.pieces(), 8);
    marks_of_all(cube.edges.pieces(), 12);
    shown(blank, c);
    shown(painted(blank, c), e);
    shown(blank, e);
    shown(painted(blank, e), c);
    assert forall|k: int, l: int| 0 <= k < c.len() && 0 <= l < e.len() implies (#[trigger] c[k]).0 != (#[trigger] e[l]).0 by {
        assert(is_mark(cube.corners.pieces(), 8, c[k]) && is_mark(cube.edges.pieces(), 12, e[l]));
        let (i, j) = choose|i: int, j: int| 0 <= i < 8 && 0 <= j < marks(cube.corners.pieces()[i], corner_references()[i]).len() && c[k] == #[trigger] marks(cube.corners.pieces()[i], corner_references()[i])[j];
        let (u, v) = choose|i: int, j: int| 0 <= i < 12 && 0 <= j < marks(cube.edges.pieces()[i], edge_references()[i]).len() && e[l] == #[trigger] marks(cube.edges.pieces()[i], edge_references()[i])[j];
        mixed_squares(cube.corners.pieces()[i], corner_references()[i], cube.edges.pieces()[u], edge_references()[u]);
    }
    let (first, second) = (painted(painted(blank, c), e), painted(painted(blank, e), c));
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < marks(cube.corners.pieces()[i], corner_references()[i]).len() implies {
        let m = #[trigger] marks(cube.corners.pieces()[i], corner_references()[i])[j];
        m.0 is Some && first(m.0->Some_0) == m.1 && second(m.0->Some_0) == m.1
    } by {
        let m = marks(cube.corners.pieces()[i], corner_references()[i])[j];
        assert(c.contains(m));
        let k = choose|k: int| 0 <= k < c.len() && c[k] == m;
        assert(c[k].0 is Some);
        assert forall|l: int| 0 <= l < e.len() implies (#[trigger] e[l]).0 != Some(m.0->Some_0) by { assert(c[k].0 != e[l].0); }
    }
    assert forall|i: int, j: int| 0 <= i < 12 && 0 <= j < marks(cube.edges.pieces()[i], edge_references()[i]).len() implies {
        let m = #[trigger] marks(cube.edges.pieces()[i], edge_references()[i])[j];
        m.0 is Some && first(m.0->Some_0) == m.1 && second(m.0->Some_0) == m.1
    } by {
        let m = marks(cube.edges.pieces()[i], edge_references()[i])[j];
        assert(e.contains(m));
        let k = choose|k: int| 0 <= k < e.len() && e[k] == m;
        assert(e[k].0 is Some);
        assert forall|l: int| 0 <= l < c.len() implies (#[trigger] c[l]).0 != Some(m.0->Some_0) by { assert(c[l].0 != e[k].0); }
    }
    assert forall|i: int, j: int| 0 <= i < 8 && 0 <= j < cube.corners.pieces()[i].stickers(corner_references()[i]).len() implies
        square(cube.corners.pieces()[i].at(), (#[trigger] cube.corners.pieces()[i].stickers(corner_references()[i])[j]).0) is Some by {
        assert(marks(cube.corners.pieces()[i], corner_references()[i])[j].0 is Some);
    }
    assert forall|i: int, j: int| 0 <= i < 12 && 0 <= j < cube.edges.pieces()[i].stickers(edge_references()[i]).len() implies
        square(cube.edges.pieces()[i].at(), (#[trigger] cube.edges.pieces()[i].stickers(edge_references()[i])[j]).0) is Some by {
        assert(marks(cube.edges.pieces()[i], edge_references()[i])[j].0 is Some);
    }
}
"""


def unit():
    source, cube3 = Source("cube_n/visualization/unfolded/mod.rs"), Source("cube_n/cube3/mod.rs")
    if fields(cube3.item("struct", "Cube3")) != [("edges", "EdgeSet"), ("corners", "CornerSet")]:
        raise LostAnchor("cubes are made of something else")
    populate = source.method(r"^impl<const N:usize>Unfolded<N>$", "populate_with")
    whole = source.impl(r"From<Cube3>for Unfolded<3>").fn("from")
    body = re.sub(r"\.at_mut\((.*?),\s*(&?\w+)\)\s*\.\s*(?:unwrap\(\)|expect\([^()]*\))", r".at_mut_unwrapped(\1, \2)", populate.body)
    body = desugar_for(body, "p", """p_all.len() == M, p_all == pairs,
            self.colors() == painted(blank, all_marks(set, p_n)), """, """
            let ghost done = all_marks(set, p_n - 1);
            let ghost here = marks(set[p_n - 1], P::references()[p_n - 1]);
            proof { assert(here.take(0) =~= Seq::empty()); assert(done + here.take(0) =~= done); }
        """, after="")
    body = desugar_for(body, "q", """q_all == set[p_n - 1].stickers(P::references()[p_n - 1]), here.len() == q_all.len(),
            self.colors() == painted(blank, done + here.take(q_n)), """, """
            proof {
                painted_more(blank, done, here, q_n - 1);
                assert(set[p_n - 1].stickers(P::references()[p_n - 1])[q_n - 1] == q_all[q_n - 1]);
            }
        """, after="proof { assert(here.take(q_n) =~= here); }")
    # What is gone over
    body = body.replace("let ghost p_all = p_over@;", "let ghost p_all = p_over@; let ghost pairs = p_all; proof { assert(all_marks(set, 0) =~= Seq::empty()); }", 1)
    text = PRELUDE + f"""
impl<const N: usize> Unfolded<N> {{
    // {populate.where()}
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    pub fn populate_with<P: Piece, const M: usize>(&mut self, piece_set: &PieceSet<P, M>)
        requires on_the_net(piece_set.pieces()), piece_set.pieces().len() == M
        ensures final(self).colors() == painted(old(self).colors(), all_marks(piece_set.pieces(), M as int))
    {{
        let ghost set = piece_set.pieces();
        let ghost blank = self.colors();
        {body}
    }}
}}
impl Unfolded<3> {{
    // {whole.where()}
    fn from(cube: Cube3) -> (r: Self)
        requires apart(cube.corners.pieces()), apart(cube.edges.pieces()), cube.corners.pieces().len() == 8, cube.edges.pieces().len() == 12
        ensures drawn(r.colors(), cube)
    {{
        proof {{ all_is_drawn(cube); }}
        {whole.body}
    }}
}}
"""
    return text + END, [populate, whole]



DRAWING = """
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

#[derive(Clone, Copy)]
pub enum Face { R, U, F, L, D, B }
#[verifier::external_body]
pub struct Color { c: u8 }
#[verifier::external_body]
pub struct Colorscheme { c: u8 }
#[verifier::external_body]
pub struct Error { e: u8 }
/// Of the width of a square: nothing, or a color
pub ghost enum Cell { Blank, Shown(Color, Colorscheme) }
pub type Lines = Seq<Seq<Cell>>;
/// What has been written, line by line (the last one is not ended yet)
#[verifier::external_body]
pub struct Formatter { f: u8 }
pub open spec fn blanks(n: nat) -> Seq<Cell> { Seq::new(n, |i: int| Cell::Blank) }
#[verifier::opaque]
pub open spec fn with(lines: Lines, more: Seq<Cell>) -> Lines { lines.drop_last().push(lines.last() + more) }
impl Formatter {
    pub uninterp spec fn lines(self) -> Lines;
    #[verifier::external_body]
    pub fn blanks(&mut self, n: usize) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).lines() == with(old(self).lines(), blanks(n as nat))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end_line(&mut self) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(self).lines() == old(self).lines().push(Seq::empty())
    { unimplemented!() }
}
impl Color {
    /// The escape sequences are those of crossterm (the probe `the_drawing_shows_the_net` reads them)
    #[verifier::external_body]
    pub fn write(&self, colorscheme: &Colorscheme, f: &mut Formatter) -> (r: Result<(), Error>)
        ensures r is Ok ==> final(f).lines() == with(old(f).lines(), seq![Cell::Shown(*self, *colorscheme)])
    { unimplemented!() }
}
impl Colorscheme {
    pub uninterp spec fn usual() -> Colorscheme;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r == Self::usual() { unimplemented!() }
}
/// kani/src/space.rs: `face_iter_and_index_agree`
pub uninterp spec fn place(f: Face) -> nat;
impl Face {
    #[verifier::external_body]
    pub fn index(&self) -> (r: usize) ensures r == place(*self), r < 6 { unimplemented!() }
}
/// References to what an array holds, in order
pub trait Refs<T>: Sized {
    spec fn held(self) -> Seq<T>;
    fn refs(&self) -> (r: Vec<&T>)
        ensures r@.len() == self.held().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.held()[i];
}
impl<T, const N: usize> Refs<T> for [T; N] {
    open spec fn held(self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn refs(&self) -> (r: Vec<&T>) { unimplemented!() }
}
pub trait Zip<A>: Sized {
    spec fn these(self) -> Seq<A>;
    fn zip<B>(self, other: Vec<B>) -> (r: Vec<(A, B)>)
        ensures
            r@.len() == if self.these().len() < other@.len() { self.these().len() } else { other@.len() },
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self.these()[i], other@[i]);
}
impl<A> Zip<A> for Vec<A> {
    open spec fn these(self) -> Seq<A> { self@ }
    #[verifier::external_body]
    fn zip<B>(self, other: Vec<B>) -> (r: Vec<(A, B)>) { unimplemented!() }
}
#[verifier::external_body]
pub fn range(from: usize, to: usize) -> (r: Vec<usize>)
    ensures r@.len() == if from <= to { to - from } else { 0 }
{ unimplemented!() }

// The drawing

pub open spec fn cells_of(row: Seq<&Color>, c: Colorscheme, n: int) -> Seq<Cell> { Seq::new(n as nat, |k: int| Cell::Shown(*row[k], c)) }
pub open spec fn row_cells<const N: usize>(s: Square<N>, c: Colorscheme, i: int) -> Seq<Cell> { Seq::new(N as nat, |j: int| Cell::Shown(s.data@[i]@[j], c)) }
pub open spec fn padded_rows<const N: usize>(s: Square<N>, c: Colorscheme, padding: nat) -> Lines { Seq::new(N as nat, |i: int| blanks(padding) + row_cells(s, c, i)) }
pub open spec fn middle_rows<const N: usize>(l: Square<N>, f: Square<N>, r: Square<N>, c: Colorscheme) -> Lines {
    Seq::new(N as nat, |i: int| row_cells(l, c, i) + blanks(1) + row_cells(f, c, i) + blanks(1) + row_cells(r, c, i))
}
pub open spec fn drawing<const N: usize>(u: Unfolded<N>, c: Colorscheme) -> Lines {
    let gap = seq![Seq::<Cell>::empty()];
    padded_rows(u.square(Face::U), c, N as nat + 1) + gap + middle_rows(u.square(Face::L), u.square(Face::F), u.square(Face::R), c) + gap
        + padded_rows(u.square(Face::D), c, N as nat + 1) + gap + padded_rows(u.square(Face::B), c, N as nat + 1) + gap
}
pub broadcast proof fn with_more(lines: Lines, a: Seq<Cell>, b: Seq<Cell>)
    requires lines.len() > 0
    ensures #[trigger] with(with(lines, a), b) == with(lines, a + b)
{
    reveal(with);
    assert(with(lines, a).drop_last() =~= lines.drop_last());
    assert(lines.last() + a + b =~= lines.last() + (a + b));
}
pub broadcast proof fn with_is_some(lines: Lines, a: Seq<Cell>)
    requires lines.len() > 0
    ensures (#[trigger] with(lines, a)).len() == lines.len()
{ reveal(with); }
pub broadcast proof fn with_none(lines: Lines, a: Seq<Cell>)
    requires lines.len() > 0, a.len() == 0
    ensures #[trigger] with(lines, a) == lines
{
    reveal(with);
    assert(lines.last() + a =~= lines.last());
    assert(with(lines, a) =~= lines);
}
#[verifier::opaque]
pub open spec fn fresh(lines: Lines) -> bool { lines.len() > 0 && lines.last().len() == 0 }
#[verifier::opaque]
pub open spec fn wrote(before: Lines, lines: Lines, after: Lines) -> bool { fresh(before) && after =~= (before.drop_last() + lines).push(Seq::empty()) }
pub broadcast proof fn wrote_is_fresh(before: Lines, lines: Lines, after: Lines)
    requires #[trigger] wrote(before, lines, after)
    ensures fresh(after), after.len() > 0
{ reveal(fresh); reveal(wrote); }
pub proof fn wrote_nothing(before: Lines, lines: Lines)
    requires fresh(before), lines.len() == 0
    ensures wrote(before, lines, before)
{ reveal(fresh); reveal(wrote); assert(before.last() =~= Seq::<Cell>::empty()); }
pub broadcast proof fn wrote_line(before: Lines, lines: Lines, now: Lines, line: Seq<Cell>)
    requires #[trigger] wrote(before, lines, now)
    ensures wrote(before, lines.push(line), #[trigger] with(now, line).push(Seq::empty()))
{
    reveal(fresh); reveal(wrote); reveal(with);
    assert(now.last() + line =~= line);
    assert(now.drop_last() =~= before.drop_last() + lines);
    assert(with(now, line).push(Seq::empty()) =~= (before.drop_last() + lines.push(line)).push(Seq::empty()));
}
pub broadcast proof fn wrote_gap(before: Lines, lines: Lines, now: Lines)
    requires #[trigger] wrote(before, lines, now)
    ensures wrote(before, lines + seq![Seq::empty()], #[trigger] now.push(Seq::empty()))
{
    reveal(fresh); reveal(wrote);
    assert(now.push(Seq::empty()) =~= (before.drop_last() + (lines + seq![Seq::empty()])).push(Seq::empty()));
}
pub broadcast proof fn wrote_more(before: Lines, lines: Lines, now: Lines, more: Lines, after: Lines)
    requires #[trigger] wrote(before, lines, now), #[trigger] wrote(now, more, after)
    ensures wrote(before, lines + more, after)
{
    reveal(fresh); reveal(wrote);
    assert(now.drop_last() =~= before.drop_last() + lines);
    assert(after =~= (before.drop_last() + (lines + more)).push(Seq::empty()));
}
pub broadcast group writing { with_more, with_is_some, with_none, wrote_is_fresh, wrote_line }
pub broadcast group sections { wrote_gap, wrote_more }

/// Which square is where on the drawing:
///     U
///   L F R
///     D
///     B
pub proof fn squares_are_in_their_places<const N: usize>(u: Unfolded<N>, c: Colorscheme, i: int, j: int)
    requires 0 <= i < N, 0 <= j < N
    ensures
        drawing(u, c).len() == 4 * N + 4,
        drawing(u, c)[i][N + 1 + j] == Cell::Shown(u.square(Face::U).data@[i]@[j], c),
        drawing(u, c)[N + 1 + i][j] == Cell::Shown(u.square(Face::L).data@[i]@[j], c),
        drawing(u, c)[N + 1 + i][N + 1 + j] == Cell::Shown(u.square(Face::F).data@[i]@[j], c),
        drawing(u, c)[N + 1 + i][2 * N + 2 + j] == Cell::Shown(u.square(Face::R).data@[i]@[j], c),
        drawing(u, c)[2 * N + 2 + i][N + 1 + j] == Cell::Shown(u.square(Face::D).data@[i]@[j], c),
        drawing(u, c)[3 * N + 3 + i][N + 1 + j] == Cell::Shown(u.square(Face::B).data@[i]@[j], c),
        forall|k: int| 0 <= k <= N ==> #[trigger] drawing(u, c)[i][k] == Cell::Blank,
{
    let m = middle_rows(u.square(Face::L), u.square(Face::F), u.square(Face::R), c)[i];
    assert(drawing(u, c)[N + 1 + i] == m);
    assert(drawing(u, c)[i] == padded_rows(u.square(Face::U), c, N as nat + 1)[i]);
    assert(drawing(u, c)[2 * N + 2 + i] == padded_rows(u.square(Face::D), c, N as nat + 1)[i]);
    assert(drawing(u, c)[3 * N + 3 + i] == padded_rows(u.square(Face::B), c, N as nat + 1)[i]);
}
"""


def drawing():
    source, cube = Source("cube_n/visualization/unfolded/mod.rs"), Source("cube_n/visualization/mod.rs")
    if fields(source.item("struct", "Square")) != [("data", "[[Color;N];N]")] or fields(source.item("struct", "Unfolded")) != [("faces", "[Square<N>;6]")]:
        raise LostAnchor("the net is made of something else")
    write, whole = source.method(r"^impl<const N:usize>Square<N>$", "write"), source.method(r"^impl<const N:usize>Unfolded<N>$", "write")
    index = source.impl(r"Index<&Face>for Unfolded<N>$").fn("index")
    show, show_cube = source.impl(r"Display for Unfolded<N>$").fn("fmt"), cube.impl(r"Display for Cube3$").fn("fmt")

    def plain(body):
        body = re.sub(r'write!\(\s*f\s*,\s*"((?:  )+)"\s*\)', lambda m: f"f.blanks({len(m.group(1)) // 2})", body)
        body = re.sub(r"writeln!\(\s*f\s*,?\s*\)", "f.end_line()", body)
        body = re.sub(r'write!\(\s*f\s*,\s*"\{(\w+)\}"\s*\)', r"\1.fmt(f)", body)
        body = re.sub(r'write!\(\s*f\s*,\s*"\{\}"\s*,\s*(\w+)\s*\)', r"\1.fmt(f)", body)
        body = re.sub(r"\bself\[(&[\w:]+)\]", r"self.index(\1)", body)
        if "write!" in body or "writeln!" in body:
            raise LostAnchor("something else is written")
        return re.sub(r"\.iter\(\)", ".refs()", body)

    def over(m):
        what = m.group(2).strip()
        bounds = re.fullmatch(r"(\w+)\.\.(\w+)", what)
        if bounds:
            return f"for {m.group(1)} in range({bounds.group(1)}, {bounds.group(2)}) {{"
        return f"for {m.group(1)} in {what if '.refs()' in what else f'({what}).refs()'} {{"

    def looped(body, loops):
        body = re.sub(r"\bfor\s+([^{]*?)\s+in\s+([^{]*?)\s*\{", over, plain(body), flags=re.S)
        for n, (name, invariant, start, after) in enumerate(loops):
            body = desugar_for(body, name, invariant, start, after=after)
        if re.search(r"\bfor\b", body):
            raise LostAnchor("more loops")
        return body

    cells = "cells_of({0}_all, *colorscheme, {0}_n)"

    def color_loop(name, square, base):
        """Writes a row of a square after `base`"""
        shown = cells.format(name)
        return (name, f"f.lines() == with({base}, {shown}), {name}_all.len() == N, {base}.len() > 0, forall|k: int| 0 <= k < N ==> *(#[trigger] {name}_all[k]) == {square}.data@[at]@[k],",
                f"proof {{ assert({shown} =~= cells_of({name}_all, *colorscheme, {name}_n - 1) + seq![Cell::Shown(*{name}_all[{name}_n - 1], *colorscheme)]); }}",
                f"proof {{ assert({shown} =~= row_cells({square}, *colorscheme, at)); }}")

    square_body = looped(write.body, [
        ("r", """r_all.len() == N, forall|k: int| 0 <= k < N ==> *(#[trigger] r_all[k]) == self.data@[k],
            wrote(before, padded_rows(*self, *colorscheme, padding as nat).take(r_n), f.lines()),""",
         """let ghost at = r_n - 1; let ghost line = f.lines();
            proof {
                let all = padded_rows(*self, *colorscheme, padding as nat);
                assert(all.take(r_n) =~= all.take(at).push(blanks(padding as nat) + row_cells(*self, *colorscheme, at)));
                assert(with(line, blanks(0)) == line);
            }""", "proof { assert(padded_rows(*self, *colorscheme, padding as nat).take(N as int) =~= padded_rows(*self, *colorscheme, padding as nat)); }"),
        ("p", "line.len() > 0, p_all.len() == padding, f.lines() == with(line, blanks(p_n as nat)),", "proof { assert(blanks(p_n as nat) =~= blanks((p_n - 1) as nat) + blanks(1)); }", ""),
        color_loop("c", "(*self)", "padded"),
    ])
    whole_body = looped(whole.body, [
        ("m", """m_all.len() == N,
            forall|k: int| 0 <= k < N ==> *(#[trigger] m_all[k]).0.0 == l.data@[k] && *m_all[k].0.1 == g.data@[k] && *m_all[k].1 == h.data@[k],
            wrote(start, above + middle_rows(l, g, h, *colorscheme).take(m_n), f.lines()),""", """let ghost at = m_n - 1; let ghost one = f.lines();
            proof {
                let all = middle_rows(l, g, h, *colorscheme);
                assert(above + all.take(m_n) =~= (above + all.take(at)).push(row_cells(l, *colorscheme, at) + blanks(1) + row_cells(g, *colorscheme, at) + blanks(1) + row_cells(h, *colorscheme, at)));
            }""",
         "proof { assert(middle_rows(l, g, h, *colorscheme).take(N as int) =~= middle_rows(l, g, h, *colorscheme)); }"),
        color_loop("a", "l", "one"),
        color_loop("b", "g", "two"),
        color_loop("d", "h", "three"),
    ])
    square_body = square_body.replace("let r_over =", "proof { wrote_nothing(before, padded_rows(*self, *colorscheme, padding as nat).take(0)); }\n            let r_over =", 1)
    square_body = square_body.replace("let c_over =", "let ghost padded = f.lines(); let c_over =", 1)
    whole_body = whole_body.replace("let m_over =", "let ghost (l, g, h) = (self.square(Face::L), self.square(Face::F), self.square(Face::R));\n            let ghost above = padded_rows(self.square(Face::U), *colorscheme, N as nat + 1) + seq![Seq::<Cell>::empty()];\n            proof { assert(above + middle_rows(l, g, h, *colorscheme).take(0) =~= above); }\n            let m_over =", 1)
    whole_body = whole_body.replace("let b_over =", "let ghost two = f.lines(); let b_over =", 1).replace("let d_over =", "let ghost three = f.lines(); let d_over =", 1)
    text = DRAWING + f"""
pub struct Square<const N: usize> {{ pub data: [[Color; N]; N] }}
pub struct Unfolded<const N: usize> {{ pub faces: [Square<N>; 6] }}
impl<const N: usize> Square<N> {{
    // {write.where()}
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    pub fn write(&self, colorscheme: &Colorscheme, padding: usize, f: &mut Formatter) -> (r: Result<(), Error>)
        requires fresh(old(f).lines())
        ensures r is Ok ==> wrote(old(f).lines(), padded_rows(*self, *colorscheme, padding as nat), final(f).lines())
    {{
        broadcast use writing;
        let ghost before = f.lines();
        {square_body}
    }}
}}
impl<const N: usize> Unfolded<N> {{
    pub open spec fn square(self, f: Face) -> Square<N> {{ self.faces@[place(f) as int] }}
    // {index.where()}
    fn index(&self, face: &Face) -> (r: &Square<N>)
        ensures *r == self.square(*face)
    {index.body}
    // {whole.where()}
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    pub fn write(&self, colorscheme: &Colorscheme, f: &mut Formatter) -> (r: Result<(), Error>)
        requires fresh(old(f).lines()), N < usize::MAX
        ensures r is Ok ==> wrote(old(f).lines(), drawing(*self, *colorscheme), final(f).lines())
    {{
        broadcast use {{writing, sections}};
        let ghost start = f.lines();
        {whole_body}
    }}
    // {show.where()}
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), Error>)
        requires fresh(old(f).lines()), N < usize::MAX
        ensures r is Ok ==> wrote(old(f).lines(), drawing(*self, Colorscheme::usual()), final(f).lines())
    {plain(show.body)}
}}
#[verifier::external_body]
pub struct Cube3 {{ c: u8 }}
/// The net of a cube (the unit `net`)
pub uninterp spec fn net(cube: Cube3) -> Unfolded<3>;
impl Cube3 {{
    #[verifier::external_body]
    fn clone(&self) -> (r: Cube3) ensures r == *self {{ unimplemented!() }}
    #[verifier::external_body]
    fn into(self) -> (r: Unfolded<3>) ensures r == net(self) {{ unimplemented!() }}
    // {show_cube.where()}
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), Error>)
        requires fresh(old(f).lines())
        ensures r is Ok ==> wrote(old(f).lines(), drawing(net(*self), Colorscheme::usual()), final(f).lines())
    {plain(show_cube.body)}
}}
"""
    return text + END, [write, index, whole, show, show_cube]

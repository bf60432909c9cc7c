"""The laws of the 3x3x3 cube: its edges and corners are permuted with the same parity, flips are even and twists add up
to whole turns. Moves keep them, by what Kani proves of pieces; `fix_swap_parity` restores the first one, and random cubes obey all."""
import re

from lib.rustsrc import LostAnchor, Source, desugar_for_mut, fields, lex, norm, statements_of_filter, with_closures
from verus.sets import END, PRELUDE, elements, generic

PARITY = """
// Parity of permutations: that of the number of inversions (as `odd` of kani/src/laws.rs)

/// Whether an odd number of entries is above `x`
pub open spec fn above(s: Seq<int>, x: int) -> bool
    decreases s.len()
{ if s.len() == 0 { false } else { above(s.drop_last(), x) != (s.last() > x) } }

pub open spec fn odd(s: Seq<int>) -> bool
    decreases s.len()
{ if s.len() == 0 { false } else { odd(s.drop_last()) != above(s.drop_last(), s.last()) } }

pub open spec fn exchanged<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }

pub proof fn above_exchanged(s: Seq<int>, i: int, x: int)
    requires 0 <= i < s.len() - 1
    ensures above(exchanged(s, i, i + 1), x) == above(s, x)
    decreases s.len()
{
    let t = exchanged(s, i, i + 1);
    if i + 2 == s.len() {
        assert(t.drop_last().drop_last() =~= s.drop_last().drop_last());
        reveal_with_fuel(above, 3);
    } else {
        assert(t.drop_last() =~= exchanged(s.drop_last(), i, i + 1));
        above_exchanged(s.drop_last(), i, x);
    }
}

pub proof fn odd_neighbours(s: Seq<int>, i: int)
    requires 0 <= i < s.len() - 1, s[i] != s[i + 1]
    ensures odd(exchanged(s, i, i + 1)) != odd(s)
    decreases s.len()
{
    let t = exchanged(s, i, i + 1);
    if i + 2 == s.len() {
        let rest = s.drop_last().drop_last();
        assert(t.drop_last().drop_last() =~= rest);
        assert(odd(s) == (odd(s.drop_last()) != above(s.drop_last(), s[i + 1])));
        assert(odd(s.drop_last()) == (odd(rest) != above(rest, s[i])));
        assert(above(s.drop_last(), s[i + 1]) == (above(rest, s[i + 1]) != (s[i] > s[i + 1])));
        assert(odd(t) == (odd(t.drop_last()) != above(t.drop_last(), s[i])));
        assert(odd(t.drop_last()) == (odd(rest) != above(rest, s[i + 1])));
        assert(above(t.drop_last(), s[i]) == (above(rest, s[i]) != (s[i + 1] > s[i])));
    } else {
        assert(t.drop_last() =~= exchanged(s.drop_last(), i, i + 1));
        odd_neighbours(s.drop_last(), i);
        above_exchanged(s.drop_last(), i, s.last());
    }
}

/// Exchanging two entries changes the parity
pub proof fn odd_exchanged(s: Seq<int>, i: int, j: int)
    requires 0 <= i < j < s.len(), s.no_duplicates()
    ensures odd(exchanged(s, i, j)) != odd(s)
    decreases j - i
{
    if j == i + 1 {
        odd_neighbours(s, i);
    } else {
        let a = exchanged(s, j - 1, j);
        let b = exchanged(a, i, j - 1);
        odd_neighbours(s, j - 1);
        assert(a.no_duplicates());
        odd_exchanged(a, i, j - 1);
        odd_neighbours(b, j - 1);
        assert(exchanged(b, j - 1, j) =~= exchanged(s, i, j));
    }
}
pub proof fn odd_exchanged_any(s: Seq<int>, i: int, j: int)
    requires 0 <= i < s.len(), 0 <= j < s.len(), i != j, s.no_duplicates()
    ensures odd(exchanged(s, i, j)) != odd(s)
{
    if i < j { odd_exchanged(s, i, j); }
    else { odd_exchanged(s, j, i); assert(exchanged(s, i, j) =~= exchanged(s, j, i)); }
}

pub open spec fn permutation(s: Seq<int>) -> bool {
    s.no_duplicates() && forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < s.len()
}
pub open spec fn in_order(n: nat) -> Seq<int> { Seq::new(n, |i: int| i) }

pub proof fn none_above(n: nat, x: int)
    requires x >= n - 1
    ensures !above(in_order(n), x)
    decreases n
{
    if n > 0 {
        assert(in_order(n).drop_last() =~= in_order((n - 1) as nat));
        none_above((n - 1) as nat, x);
    }
}
pub proof fn order_is_even(n: nat)
    ensures !odd(in_order(n))
    decreases n
{
    if n > 0 {
        assert(in_order(n).drop_last() =~= in_order((n - 1) as nat));
        order_is_even((n - 1) as nat);
        none_above((n - 1) as nat, n - 1);
    }
}

/// A permutation takes every value
pub proof fn takes_all(s: Seq<int>, x: int)
    requires permutation(s), 0 <= x < s.len()
    ensures s.contains(x)
{
    s.unique_seq_to_set();
    let all = vstd::set_lib::set_int_range(0, s.len() as int);
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    assert(s.to_set().subset_of(all));
    vstd::set_lib::lemma_subset_equality(s.to_set(), all);
    assert(s.to_set().contains(x));
}
"""

COMPOSED = """
pub open spec fn composed(outer: Seq<int>, inner: Seq<int>) -> Seq<int> { Seq::new(inner.len(), |i: int| outer[inner[i]]) }

pub proof fn composed_permutes(outer: Seq<int>, inner: Seq<int>)
    requires permutation(outer), permutation(inner), outer.len() == inner.len()
    ensures permutation(composed(outer, inner))
{
    let c = composed(outer, inner);
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        assert(inner[i] != inner[j]);
    }
}

/// Parities add up. By exchanging two entries at a time until the inner permutation is in order
pub proof fn odd_composed(outer: Seq<int>, inner: Seq<int>, done: int)
    requires permutation(outer), permutation(inner), outer.len() == inner.len(), 0 <= done <= inner.len(),
        forall|i: int| 0 <= i < done ==> inner[i] == i
    ensures odd(composed(outer, inner)) == (odd(outer) != odd(inner))
    decreases inner.len() - done
{
    if done == inner.len() {
        assert(inner =~= in_order(inner.len()));
        assert(composed(outer, inner) =~= outer);
        order_is_even(inner.len());
    } else if inner[done] == done {
        odd_composed(outer, inner, done + 1);
    } else {
        takes_all(inner, done);
        let k = choose|k: int| 0 <= k < inner.len() && inner[k] == done;
        let next = exchanged(inner, done, k);
        odd_exchanged_any(inner, done, k);
        composed_permutes(outer, inner);
        odd_exchanged_any(composed(outer, inner), done, k);
        assert(composed(outer, next) =~= exchanged(composed(outer, inner), done, k));
        odd_composed(outer, next, done + 1);
    }
}

pub open spec fn sum(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }

pub proof fn sum_updated(s: Seq<int>, i: int, x: int)
    requires 0 <= i < s.len()
    ensures sum(s.update(i, x)) == sum(s) - s[i] + x
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); }
    else {
        assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x));
        sum_updated(s.drop_last(), i, x);
    }
}
/// The order does not matter
pub proof fn sum_permuted(s: Seq<int>, p: Seq<int>, done: int)
    requires permutation(p), s.len() == p.len(), 0 <= done <= p.len(), forall|i: int| 0 <= i < done ==> p[i] == i
    ensures sum(composed(s, p)) == sum(s)
    decreases p.len() - done
{
    if done == p.len() {
        assert(composed(s, p) =~= s);
    } else if p[done] == done {
        sum_permuted(s, p, done + 1);
    } else {
        takes_all(p, done);
        let k = choose|k: int| 0 <= k < p.len() && p[k] == done;
        let c = composed(s, p);
        sum_updated(c, done, c[k]);
        sum_updated(c.update(done, c[k]), k, c[done]);
        assert(composed(s, exchanged(p, done, k)) =~= exchanged(c, done, k));
        sum_permuted(s, exchanged(p, done, k), done + 1);
    }
}
pub proof fn sum_added(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires a.len() == b.len() == c.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == a[i] + b[i]
    ensures sum(c) == sum(a) + sum(b)
    decreases a.len()
{
    if a.len() > 0 { sum_added(a.drop_last(), b.drop_last(), c.drop_last()); }
}
/// Sums of numbers that differ by multiples
pub proof fn sum_modulo(a: Seq<int>, b: Seq<int>, n: int)
    requires n > 0, a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) % n == b[i] % n
    ensures sum(a) % n == sum(b) % n
    decreases a.len()
{
    if a.len() > 0 {
        sum_modulo(a.drop_last(), b.drop_last(), n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(sum(a.drop_last()), a.last(), n);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(sum(b.drop_last()), b.last(), n);
        assert(a[a.len() - 1] % n == b[a.len() - 1] % n);
    }
}
"""


COUNTED = """
pub open spec fn count(s: Seq<bool>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { count(s.drop_last()) + (if s.last() { 1nat } else { 0nat }) } }

pub proof fn count_more(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i]
    ensures count(s.update(i, true)) == count(s) + 1
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.update(i, true).drop_last() =~= s.drop_last()); }
    else {
        assert(s.update(i, true).drop_last() =~= s.drop_last().update(i, true));
        count_more(s.drop_last(), i);
    }
}
pub proof fn count_of(s: Seq<bool>)
    ensures count(s) <= s.len(), (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i]) ==> count(s) == s.len(),
        (forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i]) ==> count(s) == 0
    decreases s.len()
{
    if s.len() > 0 {
        count_of(s.drop_last());
        if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] by { assert(s[i]); }
        }
        if forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies !#[trigger] s.drop_last()[i] by { assert(!s[i]); }
        }
    }
}

/// `[x; N]`
#[verifier::external_body]
pub fn filled<T, const N: usize>(x: T) -> (r: Array<T, N>)
    ensures r@ == Seq::new(N as nat, |i: int| x)
{ unimplemented!() }

pub trait PositionIndexable: Sized {
    spec fn place(self) -> int;
    fn position_index(&self) -> (r: usize)
        ensures r == self.place();
}
pub open spec fn places<P: PositionIndexable>(pieces: Seq<P>) -> Seq<int> { Seq::new(pieces.len(), |i: int| pieces[i].place()) }

/// Where `swap_cycles` is: what was visited is in place but for the first of the cycle, which holds what is next
pub open spec fn sorted_so_far(q: Seq<int>, p: Seq<int>, visited: Seq<bool>, first: int, current: int) -> bool {
    &&& q.len() == p.len() && permutation(q) && visited.len() == p.len()
    &&& 0 <= first < p.len() && 0 <= current < p.len()
    &&& forall|x: int| 0 <= x < p.len() ==> #[trigger] q[x] == if !visited[x] { p[x] } else if x == first { current } else { x }
}
"""

PIECES = """
// Pieces. What they hold besides their positions and orientations does not matter

#[verifier::external_body]
pub struct CornerPosition { p: u8 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Axis { X, Y, Z }
pub struct Edge { pub normal_axis: Axis, pub slice_position: [Direction; 2], pub oriented: bool }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Direction { Positive, Negative }
pub struct Corner { pub position: CornerPosition, pub orientation_axis: Axis }

pub uninterp spec fn edge_place(normal_axis: Axis, slice_position: [Direction; 2]) -> int;
pub uninterp spec fn corner_place(position: CornerPosition) -> int;
pub uninterp spec fn corner_twist(position: CornerPosition, orientation_axis: Axis) -> int;
/// kani/src/laws.rs: `position_indices_are_those_of_the_references`
impl PositionIndexable for Edge {
    open spec fn place(self) -> int { edge_place(self.normal_axis, self.slice_position) }
    #[verifier::external_body]
    fn position_index(&self) -> (r: usize) { unimplemented!() }
}
impl PositionIndexable for Corner {
    open spec fn place(self) -> int { corner_place(self.position) }
    #[verifier::external_body]
    fn position_index(&self) -> (r: usize) { unimplemented!() }
}
pub open spec fn flip(e: Edge) -> int { if e.oriented { 0 } else { 1 } }
pub open spec fn twist(c: Corner) -> int { corner_twist(c.position, c.orientation_axis) }
pub open spec fn flips(edges: Seq<Edge>) -> Seq<int> { Seq::new(edges.len(), |i: int| flip(edges[i])) }
pub open spec fn twists(corners: Seq<Corner>) -> Seq<int> { Seq::new(corners.len(), |i: int| twist(corners[i])) }

pub struct PieceSet<P, const N: usize> { pub pieces: Array<P, N> }
pub type EdgeSet = PieceSet<Edge, 12>;
pub type CornerSet = PieceSet<Corner, 8>;

/// One of `REFERENCE_POSITIONS`
pub struct Reference<P, const N: usize> { pub i: usize, pub p: core::marker::PhantomData<P> }
#[verifier::external_body]
pub fn reference<P, const N: usize>(i: usize) -> (r: Reference<P, N>)
    requires i < N
    ensures r.i == i
{ unimplemented!() }

pub struct Cube3 { pub edges: EdgeSet, pub corners: CornerSet }
pub struct Cube2 { pub corners: CornerSet }

pub open spec fn proper_edges(edges: EdgeSet) -> bool { edges.pieces@.len() == 12 && permutation(places(edges.pieces@)) }
pub open spec fn proper_corners(corners: CornerSet) -> bool { corners.pieces@.len() == 8 && permutation(places(corners.pieces@)) }
pub open spec fn flips_even(edges: EdgeSet) -> bool { sum(flips(edges.pieces@)) % 2 == 0 }
pub open spec fn twists_whole(corners: CornerSet) -> bool { sum(twists(corners.pieces@)) % 3 == 0 }
pub open spec fn same_parity(edges: EdgeSet, corners: CornerSet) -> bool { odd(places(edges.pieces@)) == odd(places(corners.pieces@)) }

/// The laws
pub open spec fn lawful(edges: EdgeSet, corners: CornerSet) -> bool {
    proper_edges(edges) && proper_corners(corners) && same_parity(edges, corners) && flips_even(edges) && twists_whole(corners)
}
"""

CODE = """
/// rand: shuffling gives the same things in some order
pub open spec fn shuffled<T>(after: Seq<T>, before: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] permutation(p) && p.len() == before.len() && after =~= Seq::new(before.len(), |i: int| before[p[i]])
}
#[verifier::external_body]
pub struct Rng { r: u8 }
pub trait Draw: Sized {}
impl Draw for bool {}
impl Draw for Axis {}
impl Rng {
    /// Anything
    #[verifier::external_body]
    pub fn gen<T: Draw>(&mut self) -> T { unimplemented!() }
}
impl<T, const N: usize> Array<T, N> {
    #[verifier::external_body]
    pub fn shuffle(&mut self, rng: &mut Rng)
        ensures shuffled(final(self)@, old(self)@), final(self)@.len() == old(self)@.len()
    { unimplemented!() }
}

impl<P, const N: usize> PieceSet<P, N> {
    /// (unit `sets`)
    #[verifier::external_body]
    pub fn pieces(&self) -> (r: &Array<P, N>)
        ensures *r == self.pieces
    { unimplemented!() }
    /// (unit `set_moves`)
    #[verifier::external_body]
    pub fn swap(&mut self, a: &Reference<P, N>, b: &Reference<P, N>)
        requires old(self).pieces@.len() == N, a.i < N, b.i < N
        ensures final(self).pieces@ == exchanged(old(self).pieces@, a.i as int, b.i as int)
    { unimplemented!() }
}

/// (kani/src/laws.rs: `solved_cubes_obey_the_laws`)
#[verifier::external_body]
pub fn solved_cube3() -> (r: Cube3)
    ensures r.edges.pieces@.len() == 12, r.corners.pieces@.len() == 8, places(r.edges.pieces@) =~= in_order(12), places(r.corners.pieces@) =~= in_order(8),
        lawful(r.edges, r.corners)
{ unimplemented!() }
#[verifier::external_body]
pub fn solved_cube2() -> (r: Cube2)
    ensures r.corners.pieces@.len() == 8, places(r.corners.pieces@) =~= in_order(8), twists_whole(r.corners)
{ unimplemented!() }

/// (kani/src/laws.rs: `flip_parity_gets_fixed`)
#[verifier::external_body]
pub fn fix_edge_flip_parity(edges: &mut EdgeSet)
    requires old(edges).pieces@.len() == 12
    ensures final(edges).pieces@.len() == 12, places(final(edges).pieces@) == places(old(edges).pieces@), flips_even(*final(edges))
{ unimplemented!() }
/// (kani/src/laws.rs: `corner_twists_get_fixed`)
#[verifier::external_body]
pub fn fix_corner_multiplicity(corners: &mut CornerSet)
    requires old(corners).pieces@.len() == 8
    ensures final(corners).pieces@.len() == 8, places(final(corners).pieces@) == places(old(corners).pieces@), twists_whole(*final(corners))
{ unimplemented!() }

pub proof fn exchanged_edges(a: Seq<Edge>, i: int, j: int)
    requires 0 <= i < a.len(), 0 <= j < a.len()
    ensures places(exchanged(a, i, j)) =~= exchanged(places(a), i, j), flips(exchanged(a, i, j)) =~= exchanged(flips(a), i, j),
        sum(flips(exchanged(a, i, j))) == sum(flips(a))
{
    let f = flips(a);
    assert(flips(exchanged(a, i, j)) =~= exchanged(f, i, j));
    sum_updated(f, i, f[j]);
    sum_updated(f.update(i, f[j]), j, f[i]);
}
pub proof fn shuffles_permute<P: PositionIndexable>(after: Seq<P>, before: Seq<P>)
    requires shuffled(after, before), permutation(places(before))
    ensures permutation(places(after)), after.len() == before.len()
{
    let p = choose|p: Seq<int>| #[trigger] permutation(p) && p.len() == before.len() && after =~= Seq::new(before.len(), |i: int| before[p[i]]);
    composed_permutes(places(before), p);
    assert(places(after) =~= composed(places(before), p));
}
"""

LAWS = """
// Moves keep the laws

#[verifier::external_body]
pub struct AxisMove { m: u8 }
pub uninterp spec fn edge_by(e: Edge, m: AxisMove) -> Edge;
pub uninterp spec fn corner_by(c: Corner, m: AxisMove) -> Corner;
/// Where a move takes what is at a place, and how much it flips or twists it
pub uninterp spec fn edge_turn(m: AxisMove) -> Seq<int>;
pub uninterp spec fn corner_turn(m: AxisMove) -> Seq<int>;
pub uninterp spec fn edge_flip(m: AxisMove) -> Seq<int>;
pub uninterp spec fn corner_twisting(m: AxisMove) -> Seq<int>;

/// kani/src/laws.rs: `flips_depend_on_the_position`, `moves_flip_evenly`, `twists_depend_on_the_position`, `moves_twist_by_whole_turns`,
/// `{x,y,z}_moves_permute_with_one_parity`
pub open spec fn turns(m: AxisMove) -> bool {
    &&& edge_turn(m).len() == 12 && permutation(edge_turn(m)) && edge_flip(m).len() == 12 && sum(edge_flip(m)) % 2 == 0
    &&& corner_turn(m).len() == 8 && permutation(corner_turn(m)) && corner_twisting(m).len() == 8 && sum(corner_twisting(m)) % 3 == 0
    &&& odd(edge_turn(m)) == odd(corner_turn(m))
    &&& forall|e: Edge| 0 <= e.place() < 12 ==> (#[trigger] edge_by(e, m)).place() == edge_turn(m)[e.place()]
        && flip(edge_by(e, m)) % 2 == (flip(e) + edge_flip(m)[e.place()]) % 2
    &&& forall|c: Corner| 0 <= c.place() < 8 ==> (#[trigger] corner_by(c, m)).place() == corner_turn(m)[c.place()]
        && twist(corner_by(c, m)) % 3 == (twist(c) + corner_twisting(m)[c.place()]) % 3
}
/// A move moves each piece once (units `cube_moves` and `set_moves`)
pub open spec fn moved(before: Cube3, m: AxisMove, after: Cube3) -> bool {
    &&& after.edges.pieces@ =~= Seq::new(before.edges.pieces@.len(), |i: int| edge_by(before.edges.pieces@[i], m))
    &&& after.corners.pieces@ =~= Seq::new(before.corners.pieces@.len(), |i: int| corner_by(before.corners.pieces@[i], m))
}
pub proof fn moves_keep_the_laws(before: Cube3, m: AxisMove, after: Cube3)
    requires turns(m), moved(before, m, after), lawful(before.edges, before.corners)
    ensures lawful(after.edges, after.corners)
{
    let (e, f) = (before.edges.pieces@, after.edges.pieces@);
    let p = places(e);
    assert forall|i: int| 0 <= i < 12 implies #[trigger] f[i].place() == edge_turn(m)[p[i]] && flip(f[i]) % 2 == (flip(e[i]) + edge_flip(m)[p[i]]) % 2 by {
        assert(0 <= p[i] < 12);
        assert(edge_by(e[i], m).place() == edge_turn(m)[e[i].place()]);
    }
    assert(places(f) =~= composed(edge_turn(m), p));
    composed_permutes(edge_turn(m), p);
    odd_composed(edge_turn(m), p, 0);
    let added = Seq::new(12, |i: int| flips(e)[i] + composed(edge_flip(m), p)[i]);
    sum_added(flips(e), composed(edge_flip(m), p), added);
    sum_permuted(edge_flip(m), p, 0);
    sum_modulo(flips(f), added, 2);

    let (c, d) = (before.corners.pieces@, after.corners.pieces@);
    let q = places(c);
    assert forall|i: int| 0 <= i < 8 implies #[trigger] d[i].place() == corner_turn(m)[q[i]] && twist(d[i]) % 3 == (twist(c[i]) + corner_twisting(m)[q[i]]) % 3 by {
        assert(0 <= q[i] < 8);
        assert(corner_by(c[i], m).place() == corner_turn(m)[c[i].place()]);
    }
    assert(places(d) =~= composed(corner_turn(m), q));
    composed_permutes(corner_turn(m), q);
    odd_composed(corner_turn(m), q, 0);
    let more = Seq::new(8, |i: int| twists(c)[i] + composed(corner_twisting(m), q)[i]);
    sum_added(twists(c), composed(corner_twisting(m), q), more);
    sum_permuted(corner_twisting(m), q, 0);
    sum_modulo(twists(d), more, 3);
}
/// Any number of moves
pub proof fn algs_keep_the_laws(cubes: Seq<Cube3>, moves: Seq<AxisMove>, n: int)
    requires cubes.len() == moves.len() + 1, 0 <= n <= moves.len(), lawful(cubes[0].edges, cubes[0].corners),
        forall|i: int| 0 <= i < moves.len() ==> turns(#[trigger] moves[i]) && moved(cubes[i], moves[i], cubes[i + 1])
    ensures lawful(cubes[n].edges, cubes[n].corners)
    decreases n
{
    if n > 0 {
        algs_keep_the_laws(cubes, moves, n - 1);
        assert(turns(moves[n - 1]));
        moves_keep_the_laws(cubes[n - 1], moves[n - 1], cubes[n]);
    }
}
"""


def arrays(body, names):
    """The arrays of these names: indices, and `[x; N]`"""
    body = re.sub(r"\[(false|true)\s*;\s*N\]", r"filled(\1)", re.sub(r"\[bool\s*;\s*N\]", "Array<bool, N>", body))
    for name in names:
        body = re.sub(rf"\b{name}\[([^\[\]]+)\](\s*=[^=])", rf"*{name}.nth_mut(\1)\2", body)
        body = re.sub(rf"\b{name}\[([^\[\]]+)\]\.", rf"{name}.nth(\1).", body)
        body = re.sub(rf"\b{name}\[([^\[\]]+)\]", rf"*{name}.nth(\1)", body)
    return body


def loops_of_for_each(body):
    """`a.for_each(|x| b);` as `for x in a { b; }`"""
    while True:
        tokens = lex(body)
        for j, t in enumerate(tokens):
            if t.text == "for_each" and tokens[j - 1].text == ".":
                start, end = j - 1, j + 1
                while tokens[start - 1].text not in (";", "}", "{"):
                    start -= 1
                while tokens[end].text != ";":
                    end += 1
                statement = "{" + body[tokens[start].start : tokens[end].end] + "}"
                loop = statements_of_filter(statement)
                body = body[: tokens[start].start] + loop[1:-1] + body[tokens[end].end :]
                break
        else:
            return body


def unit():
    source, cube3, cube2, sets = Source("cube_n/invariants.rs"), Source("cube_n/cube3/mod.rs"), Source("cube_n/cube2/mod.rs"), Source("generic/piece/set.rs")
    cycles, fix = source.fn("swap_cycles"), source.fn("fix_swap_parity")
    shuffle = sets.method(r"^impl<P:PieceSetDescriptor<N>,const N:usize>PieceSet<P,N>$", "shuffle")
    sample3, sample2 = cube3.impl(r"Distribution<Cube3>for Standard").fn("sample"), cube2.impl(r"Distribution<Cube2>for Standard").fn("sample")
    if fields(cube3.item("struct", "Cube3")) != [("edges", "EdgeSet"), ("corners", "CornerSet")] or fields(cube2.item("struct", "Cube2")) != [("corners", "CornerSet")]:
        raise LostAnchor("cubes are made of something else")
    cycles_body = with_closures(arrays(cycles.body, ["visited", "values"]), [("", ["&bool"], "-> (r: bool) ensures r == !*$0")])
    m = re.search(r"\bloop\s*\{", cycles_body)
    if not m:
        raise LostAnchor("no loop in swap_cycles")
    cycles_body = cycles_body[: m.start()] + """
        let ghost p = places(values@);
        let ghost mut q = p;
        let ghost mut first = 0int;
        let ghost mut done = 0nat;
        proof { count_of(visited@); }
        loop
            invariant
                N > 0, N <= 0x7fff_ffff, p == places(values@), permutation(p), values@.len() == N,
                sorted_so_far(q, p, visited@, first, current_index as int),
                done == count(visited@), done <= N, 0 <= cycles, cycles <= done, done > 0 ==> cycles < done,
                done == 0 ==> current_index == first && !visited@[first],
                done > 0 ==> visited@[first] && odd(p) == (odd(q) != ((done - cycles - 1) % 2 == 1)),
                done == 0 ==> q == p,
            decreases N - done
        {
            proof { count_of(visited@); }
            let ghost before = visited@;
            let ghost closed = visited@[current_index as int];
            proof {
                if closed {
                    // The cycle is closed
                    if current_index != first { assert(q[current_index as int] == q[first]); assert(false); }
                    if forall|x: int| 0 <= x < N ==> *#[trigger] references(visited@)[x] {
                        assert forall|x: int| 0 <= x < N implies #[trigger] visited@[x] by { assert(*references(visited@)[x]); }
                        assert(q =~= in_order(N as nat));
                        order_is_even(N as nat);
                    }
                } else if done > 0 {
                    assert(first != current_index);
                    odd_exchanged_any(q, first, current_index as int);
                }
            }
    """ + cycles_body[m.end():]
    # Ghost code where the first of a new cycle is known, and where it was visited
    tokens = lex(cycles_body)
    marks = [t for t in re.finditer(r"\*visited\.nth_mut\(current_index\)\s*=\s*true\s*;", cycles_body)]
    if len(marks) != 1:
        raise LostAnchor("visited places are marked elsewhere")
    cycles_body = cycles_body[: marks[0].start()] + """
            proof {
                count_more(visited@, current_index as int);
                count_of(visited@.update(current_index as int, true));
                assert(q[current_index as int] == p[current_index as int]);
                if closed || done == 0 {
                    first = current_index as int;
                } else {
                    q = exchanged(q, first, current_index as int);
                }
                done = done + 1;
            }
    """ + cycles_body[marks[0].start():]
    solved = lambda body: re.sub(r"\bCube([23])::SOLVED\b", r"solved_cube\1()", body)
    fix_body = re.sub(r"\b(Edge|Corner)::REFERENCE_POSITIONS\[([^\]]+)\]", r"reference(\2)", fix.body)

    def sampled(body, with_edges):
        body = loops_of_for_each(solved(body))
        n = 0
        while any(t.text == "for" and lex(body)[j + 1].text != "<" for j, t in enumerate(lex(body))):
            m = re.search(r"\bin\s+(?:&mut\s+)?cube\s*\.\s*(edges|corners)\b", body)
            if not m:
                raise LostAnchor("a loop over something else")
            set_, other = m.group(1), "corners" if m.group(1) == "edges" else "edges"
            name = f"taken{n}"
            invariant = f"""cube.{set_}.pieces@.len() == {12 if set_ == "edges" else 8}, places(cube.{set_}.pieces@) =~= places{n},
                {f"cube.{other} == other{n}, " if with_edges else ""} {name} <= cube.{set_}.pieces.number(),"""
            body = desugar_for_mut(body, name, elements, invariant, "")
            body = body.replace(f"let mut {name}: usize = 0;", f"let ghost places{n} = places(cube.{set_}.pieces@); " + (f"let ghost other{n} = cube.{other}; " if with_edges else "") + f"let mut {name}: usize = 0;")
            n += 1
        return body

    # What `shuffle` gives is known where it is called
    sample3_body = re.sub(r"cube\.(edges|corners)\.shuffle\(rng\);", r"let ghost before_\1 = cube.\1.pieces@; cube.\1.shuffle(rng); proof { shuffles_permute(cube.\1.pieces@, before_\1); }", sampled(sample3.body, True))
    sample2_body = re.sub(r"cube\.(edges|corners)\.shuffle\(rng\);", r"let ghost before_\1 = cube.\1.pieces@; cube.\1.shuffle(rng); proof { shuffles_permute(cube.\1.pieces@, before_\1); }", sampled(sample2.body, False))
    prelude = PRELUDE[: PRELUDE.index("// Pieces: opaque")]
    text = prelude + PARITY + COMPOSED + COUNTED + PIECES + CODE + LAWS + f"""
// {cycles.where()}
#[verifier::loop_isolation(false)]
#[verifier::rlimit(50)]
fn swap_cycles<T: PositionIndexable, const N: usize>(values: &Array<T, N>) -> (r: i32)
    requires 0 < N <= 0x7fff_ffff, values@.len() == N, permutation(places(values@))
    ensures 0 <= r < N, odd(places(values@)) == ((N - r - 1) % 2 == 1)
{cycles_body}

// {fix.where()}
pub fn fix_swap_parity(cube: &mut Cube3)
    requires proper_edges(old(cube).edges), proper_corners(old(cube).corners)
    ensures
        final(cube).corners == old(cube).corners, proper_edges(final(cube).edges), same_parity(final(cube).edges, final(cube).corners),
        sum(flips(final(cube).edges.pieces@)) == sum(flips(old(cube).edges.pieces@))
{{
    proof {{
        let e = cube.edges.pieces@;
        assert forall|i: int, j: int| 0 <= i < 12 && 0 <= j < 12 && i != j implies {{
            let x = #[trigger] exchanged(e, i, j);
            permutation(places(x)) && odd(places(x)) != odd(places(e)) && sum(flips(x)) == sum(flips(e))
        }} by {{
            exchanged_edges(e, i, j);
            odd_exchanged_any(places(e), i, j);
            assert(permutation(exchanged(places(e), i, j)));
        }}
    }}
    {fix_body}
}}

impl<P, const N: usize> PieceSet<P, N> {{
    // {shuffle.where()}
    pub fn shuffle(&mut self, rng: &mut Rng)
        ensures shuffled(final(self).pieces@, old(self).pieces@), final(self).pieces@.len() == old(self).pieces@.len()
    {shuffle.body}
}}

// {sample3.where()}
#[verifier::loop_isolation(false)]
fn sample_cube3(rng: &mut Rng) -> (r: Cube3)
    ensures lawful(r.edges, r.corners)
{sample3_body}

// {sample2.where()}
#[verifier::loop_isolation(false)]
fn sample_cube2(rng: &mut Rng) -> (r: Cube2)
    ensures proper_corners(r.corners), twists_whole(r.corners)
{sample2_body}
"""
    return text + END, [cycles, fix, shuffle, sample3, sample2]

"""The numbering of arrangements: what `index` makes of positions and orientations is a number below how many there are, different
arrangements have different numbers, and `deindex` gives the arrangement of a number. For any number of places, pieces and orientations."""
import re

from lib.rustsrc import LostAnchor, Source, fields, lex, matching, norm, split_at_commas, with_closures
from verus.laws import COUNTED, PARITY, arrays
from verus.sets import END, PRELUDE

ITERATORS = """
pub open spec fn numbered<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
/// Those that are chosen
pub open spec fn selected<T>(s: Seq<T>, chosen: Seq<bool>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 || chosen.len() != s.len() { Seq::empty() }
    else if chosen.last() { selected(s.drop_last(), chosen.drop_last()).push(s.last()) }
    else { selected(s.drop_last(), chosen.drop_last()) }
}
pub open spec fn choices_of<T, F: Fn(&T) -> bool>(chosen: Seq<bool>, s: Seq<T>, f: F) -> bool {
    chosen.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&s[i],), #[trigger] chosen[i])
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        requires self.items().len() <= usize::MAX
        ensures r.items() == numbered(self.items())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (&#[trigger] self.items()[i],))
        ensures exists|chosen: Seq<bool>| #[trigger] choices_of(chosen, self.items(), f) && r.items() == selected(self.items(), chosen)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.items().len()
    { unimplemented!() }
    /// That of a number, from 0
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<T>)
        ensures r == if n < self.items().len() { Some(self.items()[n as int]) } else { None }
    { unimplemented!() }
}
impl<T, const N: usize> Array<T, N> {
    /// `self[from..to].iter()`
    #[verifier::external_body]
    pub fn iter_between(&self, from: usize, to: usize) -> (r: It<&T>)
        requires from <= to <= self@.len()
        ensures r.items() == references(self@.subrange(from as int, to as int))
    { unimplemented!() }
}
"""

LEMMAS = """
// Which places are taken, and how many are free below a place

pub open spec fn marks(size: nat, taken: Seq<int>) -> Seq<bool> { Seq::new(size, |x: int| taken.contains(x)) }
pub open spec fn inverted(s: Seq<bool>) -> Seq<bool> { Seq::new(s.len(), |i: int| !s[i]) }
pub open spec fn free(used: Seq<bool>, x: int) -> int { count(inverted(used).take(x)) as int }

pub proof fn count_inverted(s: Seq<bool>)
    ensures count(inverted(s)) + count(s) == s.len()
    decreases s.len()
{
    if s.len() > 0 {
        assert(inverted(s).drop_last() =~= inverted(s.drop_last()));
        count_inverted(s.drop_last());
    }
}
pub proof fn free_and_taken(used: Seq<bool>, x: int)
    requires 0 <= x <= used.len()
    ensures free(used, x) == x - count(used.take(x))
{
    assert(inverted(used).take(x) =~= inverted(used.take(x)));
    count_inverted(used.take(x));
}
pub proof fn free_grows(used: Seq<bool>, x: int, y: int)
    requires 0 <= x < y <= used.len()
    ensures free(used, x) <= free(used, y), !used[x] ==> free(used, x) < free(used, y)
    decreases y
{
    let f = inverted(used);
    assert(f.take(y).drop_last() =~= f.take(y - 1));
    if y - 1 > x { free_grows(used, x, y - 1); }
}
/// A free place is told by how many are free below
pub proof fn free_tells(used: Seq<bool>, x: int, y: int)
    requires 0 <= x < used.len(), 0 <= y < used.len(), !used[x], !used[y], free(used, x) == free(used, y)
    ensures x == y
{
    if x < y { free_grows(used, x, y); }
    if y < x { free_grows(used, y, x); }
}
pub proof fn marks_count(size: nat, taken: Seq<int>)
    requires taken.no_duplicates(), forall|i: int| 0 <= i < taken.len() ==> 0 <= #[trigger] taken[i] < size
    ensures count(marks(size, taken)) == taken.len()
    decreases taken.len()
{
    if taken.len() == 0 {
        count_of(marks(size, taken));
    } else {
        marks_pushed(size, taken.drop_last(), taken.last());
        assert(taken.drop_last().push(taken.last()) =~= taken);
        assert forall|i: int| 0 <= i < taken.drop_last().len() implies 0 <= #[trigger] taken.drop_last()[i] < size by { assert(taken[i] == taken.drop_last()[i]); }
        marks_count(size, taken.drop_last());
        if taken.drop_last().contains(taken.last()) {
            let k = choose|k: int| 0 <= k < taken.len() - 1 && taken.drop_last()[k] == taken.last();
            assert(taken[k] == taken[taken.len() - 1]);
        }
        assert(!marks(size, taken.drop_last())[taken.last()]);
        count_more(marks(size, taken.drop_last()), taken.last());
    }
}
pub proof fn marks_pushed(size: nat, taken: Seq<int>, x: int)
    requires 0 <= x < size
    ensures marks(size, taken.push(x)) =~= marks(size, taken).update(x, true)
{
    assert forall|y: int| 0 <= y < size implies marks(size, taken.push(x))[y] == marks(size, taken).update(x, true)[y] by {
        let all = taken.push(x);
        if all.contains(y) && y != x {
            let k = choose|k: int| 0 <= k < all.len() && all[k] == y;
            assert(taken[k] == y);
        }
        if taken.contains(y) {
            let k = choose|k: int| 0 <= k < taken.len() && taken[k] == y;
            assert(all[k] == y);
        }
        assert(all[taken.len() as int] == x);
    }
}

pub proof fn selected_count<T>(s: Seq<T>, chosen: Seq<bool>)
    requires s.len() == chosen.len()
    ensures selected(s, chosen).len() == count(chosen)
    decreases s.len()
{
    if s.len() > 0 { selected_count(s.drop_last(), chosen.drop_last()); }
}
/// The one of a number among those chosen
pub proof fn selected_nth<T>(s: Seq<T>, chosen: Seq<bool>, n: int) -> (at: int)
    requires s.len() == chosen.len(), 0 <= n < count(chosen)
    ensures 0 <= at < s.len(), chosen[at], count(chosen.take(at)) == n, n < selected(s, chosen).len(), selected(s, chosen)[n] == s[at]
    decreases s.len()
{
    selected_count(s, chosen);
    if s.len() == 0 { return 0; }
    let (t, c) = (s.drop_last(), chosen.drop_last());
    selected_count(t, c);
    if n < count(c) {
        let at = selected_nth(t, c, n);
        assert(chosen.take(at) =~= c.take(at));
        at
    } else {
        assert(chosen.take(s.len() - 1) =~= c);
        s.len() - 1
    }
}

// Arrangements: `n` different places of `size`, and the choices among what is free that lead to it

pub open spec fn arrangement(p: Seq<int>, size: nat) -> bool {
    p.len() <= size && p.no_duplicates() && forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < size
}
pub open spec fn choice_at(p: Seq<int>, size: nat, i: int) -> int { free(marks(size, p.take(i)), p[i]) }
pub open spec fn choices_to(p: Seq<int>, size: nat) -> Seq<int> { Seq::new(p.len(), |i: int| choice_at(p, size, i)) }
pub open spec fn within(c: Seq<int>, size: nat) -> bool {
    c.len() <= size && forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < size - i
}

pub proof fn taken_before(p: Seq<int>, size: nat, i: int)
    requires arrangement(p, size), 0 <= i < p.len()
    ensures arrangement(p.take(i), size), !marks(size, p.take(i))[p[i]]
{
    let s = p.take(i);
    assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < size by { assert(s[k] == p[k]); }
    if s.contains(p[i]) { let k = choose|k: int| 0 <= k < s.len() && s[k] == p[i]; assert(p[k] == p[i]); }
}
pub proof fn choices_within(p: Seq<int>, size: nat)
    requires arrangement(p, size)
    ensures within(choices_to(p, size), size)
{
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] choices_to(p, size)[i] < size - i by {
        taken_before(p, size, i);
        let m = marks(size, p.take(i));
        assert(0 <= p[i] < size);
        marks_count(size, p.take(i));
        free_and_taken(m, size as int);
        assert(m.take(size as int) =~= m);
        free_grows(m, p[i], size as int);
    }
}
/// The same choices lead to the same arrangement
pub proof fn choices_tell(p: Seq<int>, q: Seq<int>, size: nat, n: int)
    requires arrangement(p, size), arrangement(q, size), p.len() == q.len(), 0 <= n <= p.len(), choices_to(p, size) =~= choices_to(q, size)
    ensures p.take(n) =~= q.take(n)
    decreases n
{
    if n > 0 {
        choices_tell(p, q, size, n - 1);
        taken_before(p, size, n - 1);
        taken_before(q, size, n - 1);
        assert(choices_to(p, size)[n - 1] == choices_to(q, size)[n - 1]);
        free_tells(marks(size, p.take(n - 1)), p[n - 1], q[n - 1]);
    }
}

// Numbers of mixed radix

/// What the choice of a number counts
pub open spec fn factor(size: nat, n: nat, i: int) -> int
    decreases n - i
{ if i >= n - 1 { 1 } else { factor(size, n, i + 1) * (size - (i + 1)) } }
/// How many arrangements there are
pub open spec fn total(size: nat, n: nat) -> int { factor(size, n, -1) }
pub open spec fn value(c: Seq<int>, size: nat, i: int) -> int
    decreases c.len() - i
{ if i >= c.len() || i < 0 { 0 } else { c[i] * factor(size, c.len(), i) + value(c, size, i + 1) } }
pub open spec fn number(p: Seq<int>, size: nat) -> int { value(choices_to(p, size), size, 0) }

pub proof fn factors(size: nat, n: nat, i: int)
    requires n <= size, -1 <= i
    ensures factor(size, n, i) >= 1, factor(size, n, i) <= total(size, n), i < n - 1 ==> factor(size, n, i + 1) <= factor(size, n, i)
    decreases n - i
{
    factors_positive(size, n, i);
    factors_grow(size, n, i);
    if i < n - 1 {
        factors_positive(size, n, i + 1);
        let (a, b) = (factor(size, n, i + 1), size - (i + 1));
        assert(a * b >= a) by (nonlinear_arith) requires a >= 1, b >= 1;
    }
}
pub proof fn factors_positive(size: nat, n: nat, i: int)
    requires n <= size, -1 <= i
    ensures factor(size, n, i) >= 1
    decreases n - i
{
    if i < n - 1 {
        factors_positive(size, n, i + 1);
        let (a, b) = (factor(size, n, i + 1), size - (i + 1));
        assert(a * b >= 1) by (nonlinear_arith) requires a >= 1, b >= 1;
    }
}
pub proof fn factors_grow(size: nat, n: nat, i: int)
    requires n <= size, -1 <= i
    ensures factor(size, n, i) <= total(size, n)
    decreases i + 1
{
    if i > -1 {
        factors_grow(size, n, i - 1);
        if i <= n - 1 {
            factors_positive(size, n, i);
            let (a, b) = (factor(size, n, i), size - i);
            assert(factor(size, n, i - 1) == a * b);
            assert(a * b >= a) by (nonlinear_arith) requires a >= 1, b >= 1;
        }
    }
}
pub proof fn value_below(c: Seq<int>, size: nat, i: int)
    requires within(c, size), 0 <= i <= c.len()
    ensures 0 <= value(c, size, i) < factor(size, c.len(), i - 1)
    decreases c.len() - i
{
    if i < c.len() {
        value_below(c, size, i + 1);
        let (f, x, s) = (factor(size, c.len(), i), c[i], size - i);
        factors_positive(size, c.len(), i);
        assert(factor(size, c.len(), i - 1) == f * s);
        assert(x * f + f <= f * s) by (nonlinear_arith) requires 0 <= x, x <= s - 1, f >= 1;
        assert(x * f >= 0) by (nonlinear_arith) requires 0 <= x, f >= 1;
    }
}
pub proof fn value_tells(c: Seq<int>, d: Seq<int>, size: nat, i: int)
    requires within(c, size), within(d, size), c.len() == d.len(), 0 <= i <= c.len(), value(c, size, i) == value(d, size, i)
    ensures c.skip(i) =~= d.skip(i)
    decreases c.len() - i
{
    if i < c.len() {
        value_below(c, size, i + 1);
        value_below(d, size, i + 1);
        let (f, x, y, v, w) = (factor(size, c.len(), i), c[i], d[i], value(c, size, i + 1), value(d, size, i + 1));
        assert(x == y) by (nonlinear_arith) requires x * f + v == y * f + w, 0 <= v < f, 0 <= w < f;
        value_tells(c, d, size, i + 1);
        assert forall|k: int| i <= k < c.len() implies c[k] == d[k] by {
            if k > i { assert(c.skip(i + 1)[k - i - 1] == d.skip(i + 1)[k - i - 1]); }
        }
    }
}
/// Different arrangements have different numbers, all of which are below the total
pub proof fn numbers_tell(p: Seq<int>, q: Seq<int>, size: nat)
    requires arrangement(p, size), arrangement(q, size), p.len() == q.len()
    ensures number(p, size) == number(q, size) <==> p == q, 0 <= number(p, size) < total(size, p.len())
{
    choices_within(p, size);
    choices_within(q, size);
    value_below(choices_to(p, size), size, 0);
    if number(p, size) == number(q, size) {
        value_tells(choices_to(p, size), choices_to(q, size), size, 0);
        assert(choices_to(p, size).skip(0) =~= choices_to(p, size));
        assert(choices_to(q, size).skip(0) =~= choices_to(q, size));
        choices_tell(p, q, size, p.len() as int);
        assert(p.take(p.len() as int) =~= p);
        assert(q.take(q.len() as int) =~= q);
    }
}
/// What comes before the first of those left
pub open spec fn partial(c: Seq<int>, size: nat, n: nat, i: int) -> int
    decreases i
{ if i <= 0 { 0 } else { partial(c, size, n, i - 1) + c[i - 1] * factor(size, n, i - 1) } }
pub proof fn partial_and_rest(c: Seq<int>, size: nat, i: int)
    requires 0 <= i <= c.len()
    ensures partial(c, size, c.len(), i) + value(c, size, i) == value(c, size, 0)
    decreases i
{ if i > 0 { partial_and_rest(c, size, i - 1); } }
pub proof fn partial_same(c: Seq<int>, d: Seq<int>, size: nat, n: nat, i: int)
    requires 0 <= i <= c.len(), i <= d.len(), forall|k: int| 0 <= k < i ==> c[k] == d[k]
    ensures partial(c, size, n, i) == partial(d, size, n, i)
    decreases i
{ if i > 0 { partial_same(c, d, size, n, i - 1); } }

pub proof fn in_order_is_first(n: nat, size: nat, i: int)
    requires n <= size, 0 <= i <= n
    ensures value(choices_to(in_order(n), size), size, i) == 0, arrangement(in_order(n), size)
    decreases n - i
{
    if i < n {
        in_order_is_first(n, size, i + 1);
        let m = marks(size, in_order(n).take(i));
        assert forall|k: int| 0 <= k < i implies #[trigger] m.take(i)[k] by { assert(in_order(n).take(i)[k] == k); }
        count_of(m.take(i));
        free_and_taken(m, i);
        assert(choices_to(in_order(n), size)[i] == 0);
    }
}

pub open spec fn ints(s: Seq<usize>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i] as int) }
"""

HINTS = """
pub open spec fn values_of(s: Seq<&bool>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i]) }
pub proof fn referred(s: Seq<bool>)
    ensures values_of(references(s)) =~= s
{}
/// How many of the first ones are set
pub proof fn counted_below(used: Seq<bool>, x: int)
    requires 0 <= x <= used.len()
    ensures forall|chosen: Seq<bool>| chosen.len() == x && (forall|i: int| 0 <= i < x ==> #[trigger] chosen[i] == used[i]) ==>
        (#[trigger] selected(references(used.subrange(0, x)), chosen)).len() == x - free(used, x)
{
    assert forall|chosen: Seq<bool>| chosen.len() == x && (forall|i: int| 0 <= i < x ==> #[trigger] chosen[i] == used[i]) implies
        (#[trigger] selected(references(used.subrange(0, x)), chosen)).len() == x - free(used, x) by {
        selected_count(references(used.subrange(0, x)), chosen);
        assert(chosen =~= used.take(x));
        free_and_taken(used, x);
    }
}
/// The free place of a number
pub open spec fn free_place(used: Seq<bool>, n: int, at: int) -> bool { 0 <= at < used.len() && !used[at] && free(used, at) == n }
pub proof fn the_free_one(used: Seq<bool>, n: int)
    requires 0 <= n < free(used, used.len() as int), used.len() <= usize::MAX
    ensures forall|chosen: Seq<bool>| chosen.len() == used.len() && (forall|i: int| 0 <= i < used.len() ==> #[trigger] chosen[i] == !used[i]) ==> {
        let s = #[trigger] selected(numbered(references(used)), chosen);
        n < s.len() && free_place(used, n, s[n].0 as int)
    }
{
    assert forall|chosen: Seq<bool>| chosen.len() == used.len() && (forall|i: int| 0 <= i < used.len() ==> #[trigger] chosen[i] == !used[i]) implies {
        let s = #[trigger] selected(numbered(references(used)), chosen);
        n < s.len() && free_place(used, n, s[n].0 as int)
    } by {
        assert(chosen =~= inverted(used));
        assert(inverted(used).take(used.len() as int) =~= inverted(used));
        let at = selected_nth(numbered(references(used)), chosen, n);
    }
}
"""


DIGITS = """
// Numbers of base `k`, from the first digit on

pub open spec fn power(k: nat, n: nat) -> int
    decreases n
{ if n == 0 { 1 } else { power(k, (n - 1) as nat) * k } }
pub open spec fn digits(o: Seq<int>, k: nat, i: int) -> int
    decreases o.len() - i
{ if i >= o.len() || i < 0 { 0 } else { o[i] * power(k, (o.len() - 1 - i) as nat) + digits(o, k, i + 1) } }
pub open spec fn below(o: Seq<int>, k: nat) -> bool { forall|i: int| 0 <= i < o.len() ==> 0 <= #[trigger] o[i] < k }

pub proof fn powers(k: nat, n: nat, m: nat)
    requires k >= 1, n <= m
    ensures 1 <= power(k, n) <= power(k, m)
    decreases m
{
    if m > 0 {
        let a = power(k, (m - 1) as nat);
        if n < m { powers(k, n, (m - 1) as nat); } else { powers(k, (m - 1) as nat, (m - 1) as nat); }
        assert(a * k >= a) by (nonlinear_arith) requires a >= 1, k >= 1;
    }
}
pub proof fn digits_below(o: Seq<int>, k: nat, i: int)
    requires below(o, k), 0 <= i <= o.len(), k >= 1
    ensures 0 <= digits(o, k, i) < power(k, (o.len() - i) as nat)
    decreases o.len() - i
{
    if i < o.len() {
        digits_below(o, k, i + 1);
        let (a, x) = (power(k, (o.len() - 1 - i) as nat), o[i]);
        powers(k, (o.len() - 1 - i) as nat, (o.len() - 1 - i) as nat);
        assert(0 <= x * a && x * a + a <= a * k) by (nonlinear_arith) requires a >= 1, 0 <= x, x + 1 <= k;
    }
}
pub proof fn digits_tell(o: Seq<int>, u: Seq<int>, k: nat, i: int)
    requires below(o, k), below(u, k), o.len() == u.len(), 0 <= i <= o.len(), k >= 1, digits(o, k, i) == digits(u, k, i)
    ensures o.skip(i) =~= u.skip(i)
    decreases o.len() - i
{
    if i < o.len() {
        digits_below(o, k, i + 1);
        digits_below(u, k, i + 1);
        let (a, x, y, v, w) = (power(k, (o.len() - 1 - i) as nat), o[i], u[i], digits(o, k, i + 1), digits(u, k, i + 1));
        assert(x == y) by (nonlinear_arith) requires x * a + v == y * a + w, 0 <= v < a, 0 <= w < a;
        digits_tell(o, u, k, i + 1);
        assert forall|j: int| i <= j < o.len() implies o[j] == u[j] by {
            if j > i { assert(o.skip(i + 1)[j - i - 1] == u.skip(i + 1)[j - i - 1]); }
        }
    }
}
pub proof fn digits_same(o: Seq<int>, u: Seq<int>, k: nat, i: int)
    requires o.len() == u.len(), 0 <= i, forall|j: int| i <= j < o.len() ==> o[j] == u[j]
    ensures digits(o, k, i) == digits(u, k, i)
    decreases o.len() - i
{ if i < o.len() { digits_same(o, u, k, i + 1); } }
pub proof fn zeros_are_first(o: Seq<int>, k: nat, i: int)
    requires 0 <= i, forall|j: int| 0 <= j < o.len() ==> o[j] == 0
    ensures digits(o, k, i) == 0
    decreases o.len() - i
{ if i < o.len() { zeros_are_first(o, k, i + 1); assert(o[i] * power(k, (o.len() - 1 - i) as nat) == 0) by (nonlinear_arith) requires o[i] == 0; } }

pub trait OrientationIndexable: Sized {
    const ORIENTATION_SET_SIZE: usize;
    spec fn orientation(self) -> int;
    /// kani/src/laws.rs: `orientation_indices_are_flips_and_twists`
    proof fn orientations()
        ensures Self::ORIENTATION_SET_SIZE >= 2, forall|x: Self| 0 <= #[trigger] x.orientation() < Self::ORIENTATION_SET_SIZE;
    fn orientation_index(&self) -> (r: usize)
        ensures r == self.orientation();
}
pub open spec fn orients<T: OrientationIndexable>(s: Seq<T>) -> Seq<int> { Seq::new(s.len(), |i: int| s[i].orientation()) }
"""

PIECES = """
// Pieces: what is known of them is proved by Kani (kani/src/laws.rs, `position_indices_are_those_of_the_references` and
// `orientation_indices_are_flips_and_twists`; kani/src/indexing.rs, `edges_are_told_by_their_indices`, `corners_are_told_by_their_indices`, `solved_pieces_are_in_order`)

#[verifier::external_body]
pub struct Edge { p: u8 }
#[verifier::external_body]
pub struct Corner { p: u8 }
pub uninterp spec fn edge_place(e: Edge) -> int;
pub uninterp spec fn edge_flip(e: Edge) -> int;
pub uninterp spec fn corner_place(c: Corner) -> int;
pub uninterp spec fn corner_twist(c: Corner) -> int;

impl PositionIndexable for Edge {
    open spec fn place(self) -> int { edge_place(self) }
    #[verifier::external_body]
    fn position_index(&self) -> (r: usize) { unimplemented!() }
}
impl OrientationIndexable for Edge {
    const ORIENTATION_SET_SIZE: usize = EDGE_ORIENTATIONS;
    open spec fn orientation(self) -> int { edge_flip(self) }
    #[verifier::external_body]
    proof fn orientations() {}
    #[verifier::external_body]
    fn orientation_index(&self) -> (r: usize) { unimplemented!() }
}
impl PositionIndexable for Corner {
    open spec fn place(self) -> int { corner_place(self) }
    #[verifier::external_body]
    fn position_index(&self) -> (r: usize) { unimplemented!() }
}
impl OrientationIndexable for Corner {
    const ORIENTATION_SET_SIZE: usize = CORNER_ORIENTATIONS;
    open spec fn orientation(self) -> int { corner_twist(self) }
    #[verifier::external_body]
    proof fn orientations() {}
    #[verifier::external_body]
    fn orientation_index(&self) -> (r: usize) { unimplemented!() }
}
impl Edge {
    #[verifier::external_body]
    pub fn flip(&mut self)
        ensures final(self).place() == old(self).place(), final(self).orientation() == 1 - old(self).orientation()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
impl Corner {
    #[verifier::external_body]
    pub fn twist(&mut self)
        ensures final(self).place() == old(self).place(), final(self).orientation() == (old(self).orientation() + 1) % 3
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
#[verifier::external_body]
pub proof fn edges_are_told(a: Edge, b: Edge)
    ensures a.place() == b.place() && a.orientation() == b.orientation() ==> a == b, 0 <= a.place() < 12
{}
#[verifier::external_body]
pub proof fn corners_are_told(a: Corner, b: Corner)
    ensures a.place() == b.place() && a.orientation() == b.orientation() ==> a == b, 0 <= a.place() < 8
{}
#[verifier::external_body]
pub fn solved_edges() -> (r: Array<Edge, 12>)
    ensures r@.len() == 12, forall|i: int| 0 <= i < 12 ==> (#[trigger] r@[i]).place() == i && r@[i].orientation() == 0
{ unimplemented!() }
#[verifier::external_body]
pub fn solved_corners() -> (r: Array<Corner, 8>)
    ensures r@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] r@[i]).place() == i && r@[i].orientation() == 0
{ unimplemented!() }

impl<T, const N: usize> Array<T, N> {
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Array<U, N>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
    { unimplemented!() }
}
impl<const N: usize> Array<Edge, N> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
impl<const N: usize> Array<Corner, N> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
}
/// `array[from..to].try_into().unwrap()`
#[verifier::external_body]
pub fn part<T, const N: usize, const M: usize>(a: &Array<T, N>, from: usize, to: usize) -> (r: &Array<T, M>)
    requires from <= to <= a@.len(), to - from == M
    ensures r@ == a@.subrange(from as int, to as int)
{ unimplemented!() }

pub struct CornerSet { pub pieces: Array<Corner, 8> }
impl CornerSet {
    #[verifier::external_body]
    pub fn pieces(&self) -> (r: &Array<Corner, 8>)
        ensures *r == self.pieces
    { unimplemented!() }
}
/// `CornerSet::new(pieces).expect(..)` (verus/sets.py: that no two are at the same place is what it takes)
#[verifier::external_body]
pub fn corner_set(pieces: Array<Corner, 8>) -> (r: CornerSet)
    requires places(pieces@).no_duplicates()
    ensures r.pieces == pieces
{ unimplemented!() }
pub open spec fn sum(s: Seq<int>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() } }
/// kani/src/laws.rs: `corner_twists_get_fixed`
#[verifier::external_body]
pub fn fix_corner_multiplicity(corners: &mut CornerSet)
    requires old(corners).pieces@.len() == 8, arrangement(places(old(corners).pieces@), 8)
    ensures
        final(corners).pieces@.len() == 8, forall|i: int| 0 <= i < 7 ==> #[trigger] final(corners).pieces@[i] == old(corners).pieces@[i],
        final(corners).pieces@[7].place() == old(corners).pieces@[7].place(), sum(orients(final(corners).pieces@)) % 3 == 0
{ unimplemented!() }

/// What corners of a cube are like
pub open spec fn proper_corners(c: Seq<Corner>) -> bool { c.len() == 8 && arrangement(places(c), 8) && sum(orients(c)) % 3 == 0 }
pub open spec fn proper_half(e: Seq<Edge>) -> bool { e.len() == 6 && arrangement(places(e), 12) }
pub open spec fn corners_number(c: Seq<Corner>) -> int { number(places(c), 8) * 2187 + digits(orients(c.take(7)), 3, 0) }
pub open spec fn half_number(e: Seq<Edge>) -> int { number(places(e), 12) * 64 + digits(orients(e), 2, 0) }

pub proof fn totals()
    ensures total(8, 8) == 40320, total(12, 6) == 665280, power(3, 7) == 2187, power(2, 6) == 64, factor(8, 8, -1) == 40320, factor(12, 6, -1) == 665280
{
    assert(total(8, 8) == 40320) by (compute);
    assert(total(12, 6) == 665280) by (compute);
    assert(power(3, 7) == 2187) by (compute);
    assert(power(2, 6) == 64) by (compute);
}
pub proof fn apart(a: int, b: int, c: int, d: int, n: int)
    requires a * n + b == c * n + d, 0 <= b < n, 0 <= d < n
    ensures a == c, b == d
{
    assert(a == c) by (nonlinear_arith) requires a * n + b == c * n + d, 0 <= b < n, 0 <= d < n;
}
/// No two arrangements of the corners have the same number, and all numbers are below how many there are
pub proof fn corners_are_numbered(a: Seq<Corner>, b: Seq<Corner>)
    requires proper_corners(a), proper_corners(b)
    ensures corners_number(a) == corners_number(b) <==> a == b, 0 <= corners_number(a) < 40320 * 2187
{
    totals();
    Corner::orientations();
    let (p, q, o, u) = (places(a), places(b), orients(a.take(7)), orients(b.take(7)));
    assert(below(o, 3) && below(u, 3));
    digits_below(o, 3, 0);
    digits_below(u, 3, 0);
    numbers_tell(p, q, 8);
    if corners_number(a) == corners_number(b) {
        apart(number(p, 8), digits(o, 3, 0), number(q, 8), digits(u, 3, 0), 2187);
        digits_tell(o, u, 3, 0);
        assert(o.skip(0) =~= o && u.skip(0) =~= u);
        assert(orients(a).drop_last() =~= o);
        assert(orients(b).drop_last() =~= u);
        assert(a[7].orientation() == b[7].orientation());
        assert forall|i: int| 0 <= i < 8 implies a[i] == b[i] by {
            assert(p[i] == q[i]);
            if i < 7 { assert(o[i] == u[i]); }
            corners_are_told(a[i], b[i]);
        }
        assert(a =~= b);
    }
}
/// Nor those of half of the edges
pub proof fn halves_are_numbered(a: Seq<Edge>, b: Seq<Edge>)
    requires proper_half(a), proper_half(b)
    ensures half_number(a) == half_number(b) <==> a == b, 0 <= half_number(a) < 665280 * 64
{
    totals();
    Edge::orientations();
    let (p, q, o, u) = (places(a), places(b), orients(a), orients(b));
    assert(below(o, 2) && below(u, 2));
    digits_below(o, 2, 0);
    digits_below(u, 2, 0);
    numbers_tell(p, q, 12);
    if half_number(a) == half_number(b) {
        apart(number(p, 12), digits(o, 2, 0), number(q, 12), digits(u, 2, 0), 64);
        digits_tell(o, u, 2, 0);
        assert(o.skip(0) =~= o && u.skip(0) =~= u);
        assert forall|i: int| 0 <= i < 6 implies a[i] == b[i] by {
            assert(p[i] == q[i] && o[i] == u[i]);
            edges_are_told(a[i], b[i]);
        }
        assert(a =~= b);
    }
}
/// The solved ones are number 0
pub proof fn solved_is_number_zero(c: Seq<Corner>, e: Seq<Edge>)
    requires
        c.len() == 8, places(c) =~= in_order(8), orients(c) =~= Seq::new(8, |i: int| 0),
        e.len() == 6, places(e) =~= in_order(6), orients(e) =~= Seq::new(6, |i: int| 0)
    ensures corners_number(c) == 0, half_number(e) == 0
{
    in_order_is_first(8, 8, 0);
    in_order_is_first(6, 12, 0);
    assert forall|i: int| 0 <= i < 7 implies orients(c.take(7))[i] == 0 by { assert(orients(c)[i] == 0); }
    zeros_are_first(orients(c.take(7)), 3, 0);
    zeros_are_first(orients(e), 2, 0);
}
"""

CUBES = """
// Whole cubes

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Axis { X, Y, Z }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Amount { Single, Double, Inverse }
pub struct AxisRotation { pub axis: Axis, pub amount: Amount }
impl AxisRotation {
    pub fn new(axis: Axis, amount: Amount) -> (r: Self)
        ensures r == (AxisRotation { axis, amount })
    { AxisRotation { axis, amount } }
}
/// Rotated by x2
pub uninterp spec fn turned(e: Edge) -> Edge;
impl Edge {
    #[verifier::external_body]
    pub fn rotate(&mut self, rotation: &AxisRotation)
        ensures rotation.axis == Axis::X && rotation.amount == Amount::Double ==> *final(self) == turned(*old(self))
    { unimplemented!() }
}
/// kani/src/indexing.rs: `half_turn_exchanges_the_halves`
#[verifier::external_body]
pub proof fn half_turns(a: Edge, b: Edge)
    ensures turned(turned(a)) == a, a.place() == b.place() ==> turned(a).place() == turned(b).place()
{}
pub struct EdgeSet { pub pieces: Array<Edge, 12> }
impl EdgeSet {
    #[verifier::external_body]
    pub fn pieces(&self) -> (r: &Array<Edge, 12>)
        ensures *r == self.pieces
    { unimplemented!() }
}
/// `EdgeSet::new(pieces).expect(..)` (verus/sets.py: that no two are at the same place is what it takes)
#[verifier::external_body]
pub fn edge_set(pieces: Array<Edge, 12>) -> (r: EdgeSet)
    requires places(pieces@).no_duplicates()
    ensures r.pieces == pieces
{ unimplemented!() }
pub struct Cube3 { pub edges: EdgeSet, pub corners: CornerSet }
pub struct CubeIndices { pub corners: usize, pub edges: [usize; 2] }
/// `[T; 2]::map`
#[verifier::external_body]
pub fn both<T, U, F: Fn(T) -> U>(a: [T; 2], f: F) -> (r: [U; 2])
    requires call_requires(f, (a@[0],)), call_requires(f, (a@[1],))
    ensures call_ensures(f, (a@[0],), r@[0]), call_ensures(f, (a@[1],), r@[1])
{ unimplemented!() }
#[verifier::external_body]
pub fn second_of<T>(a: &mut [T; 2]) -> (r: &mut T)
    ensures *r == old(a)@[1], final(a)@ == old(a)@.update(1, *final(r))
{ unimplemented!() }
/// `a.concat().try_into().expect(..)`
#[verifier::external_body]
pub fn halves_joined(a: [Array<Edge, 6>; 2]) -> (r: Array<Edge, 12>)
    ensures r@ == a@[0]@ + a@[1]@
{ unimplemented!() }

pub open spec fn all_turned(e: Seq<Edge>) -> Seq<Edge> { e.map_values(|x: Edge| turned(x)) }
pub open spec fn proper(c: Cube3) -> bool { proper_corners(c.corners.pieces@) && c.edges.pieces@.len() == 12 && arrangement(places(c.edges.pieces@), 12) }
pub open spec fn first_half(c: Cube3) -> Seq<Edge> { c.edges.pieces@.take(6) }
pub open spec fn second_half(c: Cube3) -> Seq<Edge> { all_turned(c.edges.pieces@.skip(6)) }
pub open spec fn cube_numbered(c: Cube3, i: CubeIndices) -> bool {
    i.corners == corners_number(c.corners.pieces@) && i.edges@[0] == half_number(first_half(c)) && i.edges@[1] == half_number(second_half(c))
}
pub proof fn halves_are_proper(c: Cube3)
    requires proper(c)
    ensures proper_half(first_half(c)), proper_half(second_half(c)), first_half(c) + all_turned(second_half(c)) =~= c.edges.pieces@,
{
    let e = c.edges.pieces@;
    let p = places(e);
    assert forall|i: int, j: int| 0 <= i < 6 && 0 <= j < 6 && i != j implies places(first_half(c))[i] != places(first_half(c))[j] by { assert(p[i] != p[j]); }
    assert forall|i: int| 0 <= i < 6 implies 0 <= #[trigger] places(first_half(c))[i] < 12 by { assert(0 <= p[i] < 12); }
    let s = second_half(c);
    assert forall|i: int| 0 <= i < 6 implies #[trigger] turned(s[i]) == e[i + 6] by { half_turns(e[i + 6], e[i + 6]); }
    assert forall|i: int, j: int| 0 <= i < 6 && 0 <= j < 6 && i != j implies places(s)[i] != places(s)[j] by {
        assert(p[i + 6] != p[j + 6]);
        half_turns(e[i + 6], e[i + 6]);
        half_turns(e[j + 6], e[j + 6]);
        half_turns(s[i], s[j]);
    }
    assert forall|i: int| 0 <= i < 6 implies 0 <= #[trigger] places(s)[i] < 12 by { edges_are_told(s[i], s[i]); }
}
"""

def loop_over(over):
    """What a loop goes over, from the normalized text: a list of (array, mutably, backwards), which are zipped"""
    m = re.fullmatch(r"(.*)\.zip\((.*)\)", over)
    if m:
        return loop_over(m.group(1)) + loop_over(m.group(2))
    m = re.fullmatch(r"(\w+)\.(iter|iter_mut)\(\)(\.rev\(\))?", over) or re.fullmatch(r"()()&mut (\w+)", over)
    if not m:
        raise LostAnchor(f"a loop over {over}")
    if m.group(1) == "":
        return [(m.group(3), True, False)]
    return [(m.group(1), m.group(2) == "iter_mut", bool(m.group(3)))]


def desugar_arrays(body, name, invariant, start="", end=""):
    """The first `for` loop, over arrays (zipped) or numbers, as one that takes their elements by number"""
    tokens = lex(body)
    for j, t in enumerate(tokens):
        if t.kind != "ident" or t.text != "for" or tokens[j + 1].text == "<":
            continue
        k, in_ = j, None
        while tokens[k].text != "{":
            if tokens[k].text in ("(", "["):
                k = matching(tokens, k)
            if tokens[k].text == "in" and in_ is None:
                in_ = k
            k += 1
        close = matching(tokens, k)
        pattern, over = norm(tokens[j + 1 : in_]), norm(tokens[in_ + 1 : k])
        m = re.fullmatch(r"(\w+)\.\.(\*?\w+)", over)
        if m and m.group(1) == "0":
            number, lets = m.group(2), f"let {pattern} = {name};"
            referred = []
        else:
            parts = loop_over(over)
            names = [pattern] if len(parts) == 1 else [norm(p) for p in split_at_commas(lex(pattern)[1:-1])]
            if len(names) != len(parts) or any(not re.fullmatch(r"&?\w+", n) for n in names):
                raise LostAnchor(f"a loop for {pattern}")
            lets, referred = "", []
            for n, (array, mutably, backwards) in zip(names, parts):
                at = f"{array}.count() - 1 - {name}" if backwards else name
                value = f"{array}.nth{'_mut' if mutably else ''}({at})"
                lets += f"let {n[1:]} = *{value};" if n.startswith("&") else f"let {n} = {value};"
                if not mutably and not n.startswith("&"):
                    referred.append(n)
            number = parts[0][0] + ".count()"
            for array, _, _ in parts[1:]:
                number = f"least({number}, {array}.count())"
        head = f"""{{
            let mut {name}: usize = 0;
            let {name}_end: usize = {number};
            while {name} < {name}_end
                invariant {invariant}
                decreases {name}_end - {name}
            {{
                {start}
                {lets}
                {name} = {name} + 1;
            """
        inside = body[tokens[k].end : tokens[close].start]
        for n in referred:  # Arithmetic with a reference is that with the value
            inside = re.sub(rf"(/|%|[-+*/%]=)(\s*){n}\b", rf"\1\2*{n}", inside)
        return body[: tokens[j].start] + head + inside + end + "} }" + body[tokens[close].end :]
    raise LostAnchor("no loop")


def zeros(body):
    return re.sub(r"\[0\s*;\s*N\]", "filled::<usize, N>(0usize)", re.sub(r"\[false\s*;\s*T_POSITION_SET_SIZE\]", "filled::<bool, T_POSITION_SET_SIZE>(false)", body))


def of_cubes(index, deindex):
    """`Cube3::indices` and `from_indices`, and what they call"""
    partition, whole_index, turning, turning_back, whole_back = (
        index.method(r"^impl Cube3$", "edge_partition"), index.method(r"^impl Cube3$", "indices"), index.fn("adjust_second_edges_for_indexing"),
        deindex.fn("adjust_second_edges_for_deindexing"), deindex.method(r"^impl Cube3$", "from_indices"))
    cube3 = Source("cube_n/cube3/mod.rs")
    if fields(cube3.item("struct", "Cube3")) != [("edges", "EdgeSet"), ("corners", "CornerSet")]:
        raise LostAnchor("cubes are made of something else")
    if fields(index.item("struct", "CubeIndices")) != [("corners", "usize"), ("edges", "[usize;2]")]:
        raise LostAnchor("indices are made of something else")
    checked = r"\s*\.\s*(?:unwrap\(\)|expect\([^()]*\))"

    def whole_cubes(body):
        body = re.sub(r'"(?:[^"\\]|\\.)*"', '""', body)
        body = re.sub(r"(self\.edges\s*\.\s*pieces\(\))\[(\d+)\.\.(\d+)\]\s*\.\s*try_into\(\)" + checked, r"part::<Edge, 12, 6>(\1, \2, \3)", body)
        body = re.sub(r"\b(edges)\s*\.\s*concat\(\)\s*\.\s*try_into\(\)" + checked, r"halves_joined(\1)", body)
        body = re.sub(r"\bCornerSet::new\((\w+)\)" + checked, r"corner_set(\1)", body)
        body = re.sub(r"\bEdgeSet::new\((\w+)\)" + checked, r"edge_set(\1)", body)
        body = re.sub(r"\bself\.corners\s*\.\s*pieces\(\)\s*\.\s*index\(\)", "corners_index(self.corners.pieces())", body)
        body = re.sub(r"\b(edges|half)\s*\.\s*index\(\)", r"edges_index(\1)", body)
        body = re.sub(r"\bCornersMUS::from_index\b", "corners_from_index", re.sub(r"\bHalfEdgesMUS::from_index\b", "edges_from_index", body))
        body = re.sub(r"\b((?:\w+\.)?edges)\s*\.\s*map\(", r"both(\1, ", body)
        return re.sub(r"&mut edges\[1\]", "second_of(&mut edges)", body)

    each_turned = """
            k <= k_end, k_end == 6, %s@.len() == 6, start.len() == 6,
            forall|i: int| 0 <= i < 6 ==> #[trigger] %s@[i] == if i < k { turned(start[i]) } else { start[i] }, """
    turning_body = desugar_arrays(turning.body, "k", each_turned % ("output", "output"))
    turning_body = re.sub(r"(let mut \w+ = [^;]*;)", r"\1 let ghost start = edges@;", turning_body, count=1)
    turning_back_body = desugar_arrays(turning_back.body, "k", each_turned % ("edges", "edges"))
    whole_index_body = with_closures(whole_cubes(whole_index.body), [("", ["&Array<Edge, 6>"], "-> (r: usize) requires proper_half($0@) ensures r == half_number($0@)")])
    text = f"""
// {turning.where()}
#[verifier::loop_isolation(false)]
fn adjust_second_edges_for_indexing(edges: &Array<Edge, 6>) -> (r: Array<Edge, 6>)
    requires edges@.len() == 6
    ensures r@ =~= all_turned(edges@)
{turning_body}
// {turning_back.where()}
#[verifier::loop_isolation(false)]
fn adjust_second_edges_for_deindexing(edges: &mut Array<Edge, 6>)
    requires old(edges)@.len() == 6
    ensures final(edges)@ =~= all_turned(old(edges)@)
{{
    let ghost start = edges@;
    {turning_back_body}
}}
impl Cube3 {{
    // {partition.where()}
    fn edge_partition(&self) -> (r: [&Array<Edge, 6>; 2])
        requires self.edges.pieces@.len() == 12
        ensures r@[0]@ =~= self.edges.pieces@.take(6), r@[1]@ =~= self.edges.pieces@.skip(6)
    {whole_cubes(partition.body)}
    // {whole_index.where()}
    pub fn indices(&self) -> (r: CubeIndices)
        requires proper(*self)
        ensures cube_numbered(*self, r)
    {{
        proof {{ halves_are_proper(*self); }}
        {whole_index_body}
    }}
    // {whole_back.where()}
    pub fn from_indices(indices: CubeIndices) -> (r: Self)
        requires exists|c: Cube3| proper(c) && #[trigger] cube_numbered(c, indices)
        ensures proper(r), cube_numbered(r, indices)
    {{
        let ghost c = choose|c: Cube3| proper(c) && #[trigger] cube_numbered(c, indices);
        proof {{
            totals();
            halves_are_proper(c);
            corners_are_numbered(c.corners.pieces@, c.corners.pieces@);
            halves_are_numbered(first_half(c), first_half(c));
            halves_are_numbered(second_half(c), second_half(c));
            assert forall|x: Seq<Edge>| proper_half(x) && #[trigger] half_number(x) == indices.edges@[0] implies x == first_half(c) by {{ halves_are_numbered(x, first_half(c)); }}
            assert forall|x: Seq<Edge>| proper_half(x) && #[trigger] half_number(x) == indices.edges@[1] implies x == second_half(c) by {{ halves_are_numbered(x, second_half(c)); }}
            assert forall|x: Seq<Corner>| proper_corners(x) && #[trigger] corners_number(x) == indices.corners implies x == c.corners.pieces@ by {{ corners_are_numbered(x, c.corners.pieces@); }}
        }}
        {whole_cubes(whole_back.body)}
    }}
}}
/// What is made from the indices of a cube is that cube
fn cubes_come_back(this: &Cube3) -> (r: Cube3)
    requires proper(*this)
    ensures r.corners.pieces@ == this.corners.pieces@, r.edges.pieces@ == this.edges.pieces@
{{
    let indices = this.indices();
    let r = Cube3::from_indices(indices);
    proof {{
        halves_are_proper(r);
        halves_are_proper(*this);
        corners_are_numbered(r.corners.pieces@, this.corners.pieces@);
        halves_are_numbered(first_half(r), first_half(*this));
        halves_are_numbered(second_half(r), second_half(*this));
    }}
    r
}}
"""
    return CUBES, text, [turning, turning_back, partition, whole_index, whole_back]


def unit(whole_cubes=False):
    index, deindex = Source("cube_n/cube3/mus/index/mod.rs"), Source("cube_n/cube3/mus/deindex/mod.rs")
    multipliers, choosing, whole = (index.fn(n) for n in ("disposition_multipliers", "disposition_choices", "position_disposition_index"))
    multipliers_body = desugar_arrays(zeros(multipliers.body), "k", """
            k <= k_end, k_end == N, output@.len() == N, iteration_index == T_POSITION_SET_SIZE - N + k,
            multiplier == factor(T_POSITION_SET_SIZE as nat, N as nat, N - 1 - k),
            forall|i: int| N - k <= i < N ==> #[trigger] output@[i] == factor(T_POSITION_SET_SIZE as nat, N as nat, i),
        """, "proof { factors(T_POSITION_SET_SIZE as nat, N as nat, N - 2 - k); }")
    choosing_body = re.sub(r"\bused\[0?\.\.([^\[\]]+)\]\s*\.iter\(\)", r"used.iter_between(0, \1)", zeros(choosing.body))
    choosing_body = arrays(with_closures(choosing_body, [("", ["&&bool"], "-> (r: bool) ensures r == **$0")]), ["used"])
    choosing_body = desugar_arrays(choosing_body, "k", """
            k <= k_end, k_end == N, output@.len() == N, used@ =~= marks(T_POSITION_SET_SIZE as nat, p.take(k as int)),
            forall|i: int| 0 <= i < k ==> #[trigger] output@[i] == choice_at(p, T_POSITION_SET_SIZE as nat, i),
        """, """proof {
                assert(p[k as int] == input@[k as int].place());
                assert(0 <= p[k as int] < T_POSITION_SET_SIZE);
                counted_below(used@, p[k as int]);
                free_and_taken(used@, p[k as int]);
                assert(p.take(k + 1) =~= p.take(k as int).push(p[k as int]));
                marks_pushed(T_POSITION_SET_SIZE as nat, p.take(k as int), p[k as int]);
            }""")
    whole_body = desugar_arrays(arrays(whole.body, ["choices", "multipliers"]), "k", """
            k <= k_end, k_end == N, output == partial(c, T_POSITION_SET_SIZE as nat, N as nat, k as int),
        """, """proof {
                partial_and_rest(c, T_POSITION_SET_SIZE as nat, k as int);
                partial_and_rest(c, T_POSITION_SET_SIZE as nat, k + 1);
                value_below(c, T_POSITION_SET_SIZE as nat, 0);
                value_below(c, T_POSITION_SET_SIZE as nat, k + 1);
                factors(T_POSITION_SET_SIZE as nat, N as nat, k as int);
                assert(c[k as int] == choices@[k as int]);
                let (x, f, y) = (choices@[k as int] as int, multipliers@[k as int] as int, value(c, T_POSITION_SET_SIZE as nat, k + 1));
                assert(0 <= x * f) by (nonlinear_arith) requires 0 <= x, 0 <= f;
            }""")
    m = re.search(r"let mut output\b", whole_body)
    if not m:
        raise LostAnchor("the index is summed up otherwise")
    whole_body = whole_body[: m.start()] + "let ghost c = ints(choices@); proof { choices_within(places(input@), T_POSITION_SET_SIZE as nat); assert(c =~= choices_of_places(input@, T_POSITION_SET_SIZE as nat)); partial_and_rest(c, T_POSITION_SET_SIZE as nat, N as int); value_below(c, T_POSITION_SET_SIZE as nat, 0); }" + whole_body[m.start():]

    digits, permuting, positions = (deindex.fn(n) for n in ("deindex_choices", "choices_to_permutations", "deindex_positions"))
    digits_body = desugar_arrays(zeros(digits.body), "k", """
            k <= k_end, k_end == N, choices@.len() == N,
            remaining_index < factor(T_POSITION_SET_SIZE as nat, N as nat, k - 1),
            index == partial(ints(choices@), T_POSITION_SET_SIZE as nat, N as nat, k as int) + remaining_index,
            forall|i: int| 0 <= i < k ==> #[trigger] choices@[i] < T_POSITION_SET_SIZE - i,
        """, """
            let ghost before = choices@;
            let ghost left = remaining_index as int;
            proof {
                assert(multipliers@[k as int] == factor(T_POSITION_SET_SIZE as nat, N as nat, k as int));
                factors(T_POSITION_SET_SIZE as nat, N as nat, k as int);
                let (f, s) = (factor(T_POSITION_SET_SIZE as nat, N as nat, k as int), T_POSITION_SET_SIZE - k);
                assert(factor(T_POSITION_SET_SIZE as nat, N as nat, k - 1) == f * s);
                assert(left / f < s && left % f < f && left == (left / f) * f + left % f && left / f >= 0) by (nonlinear_arith) requires f >= 1, 0 <= left, left < f * s;
            }""", """
            proof {
                partial_same(ints(before), ints(choices@), T_POSITION_SET_SIZE as nat, N as nat, k - 1);
            }""")
    permuting_body = zeros(permuting.body)
    permuting_body = arrays(with_closures(permuting_body, [("", ["&(usize, &bool)"], "-> (r: bool) ensures r == !*$0.1")]), ["used"])
    permuting_body = desugar_arrays(permuting_body, "k", """
            k <= k_end, k_end == N, permutations@.len() == N, used@ =~= marks(T_POSITION_SET_SIZE as nat, ints(permutations@).take(k as int)),
            arrangement(ints(permutations@).take(k as int), T_POSITION_SET_SIZE as nat),
            forall|i: int| 0 <= i < k ==> #[trigger] choice_at(ints(permutations@), T_POSITION_SET_SIZE as nat, i) == choices@[i],
        """, """
            let ghost before = ints(permutations@);
            proof {
                let size = T_POSITION_SET_SIZE as nat;
                assert(used@.take(used@.len() as int) =~= used@);
                free_and_taken(used@, size as int);
                marks_count(size, before.take(k as int));
                the_free_one(used@, choices@[k as int] as int);
            }""", """
            proof {
                let size = T_POSITION_SET_SIZE as nat;
                let now = ints(permutations@);
                assert(now.take(k - 1) =~= before.take(k - 1));
                assert(now.take(k as int) =~= before.take(k - 1).push(now[k - 1]));
                marks_pushed(size, before.take(k - 1), now[k - 1]);
                assert forall|i: int| 0 <= i < k implies #[trigger] choice_at(now, size, i) == choices@[i] by {
                    assert(now.take(i) =~= before.take(i));
                    if i < k - 1 { assert(choice_at(before, size, i) == choices@[i]); }
                }
                let s = now.take(k as int);
                assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < size by {
                    if i < k - 1 { assert(s[i] == before.take(k - 1)[i]); }
                }
                assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
                    if i < k - 1 && j < k - 1 { assert(s[i] == before.take(k - 1)[i] && s[j] == before.take(k - 1)[j]); }
                    if i == k - 1 { assert(before.take(k - 1)[j] == s[j]); assert(before.take(k - 1).contains(s[j])); }
                    if j == k - 1 { assert(before.take(k - 1)[i] == s[i]); assert(before.take(k - 1).contains(s[i])); }
                }
            }""")
    # The orientations
    numbering, undoing = index.fn("orientation_permutation_index"), deindex.fn("deindex_orientations")
    numbering_body = desugar_arrays(numbering.body, "k", """
            k <= k_end, k_end == N, output == digits(o, K as nat, N - k), multiplier == power(K as nat, k as nat),
            output < multiplier, K == T::ORIENTATION_SET_SIZE,
        """, """proof {
                digits_below(o, K as nat, N - k);
                digits_below(o, K as nat, N - k - 1);
                powers(K as nat, (k + 1) as nat, N as nat);
                assert(o[N - 1 - k] == input@[N - 1 - k].orientation());
                let (x, m) = (o[N - 1 - k], multiplier as int);
                assert(0 <= x * m) by (nonlinear_arith) requires 0 <= x, 1 <= m;
            }""")
    undoing_body = desugar_arrays(zeros(undoing.body), "k", """
            k <= k_end, k_end == N, output@.len() == N, K == T::ORIENTATION_SET_SIZE,
            remaining_index < power(K as nat, (N - k) as nat),
            index == digits(ints(output@), K as nat, N - k) + remaining_index * power(K as nat, k as nat),
            forall|i: int| N - k <= i < N ==> #[trigger] output@[i] < K,
        """, """
            let ghost before = output@;
            let ghost left = remaining_index as int;
            proof {
                powers(K as nat, (N - k - 1) as nat, N as nat);
                let (m, b, f) = (power(K as nat, k as nat), K as int, power(K as nat, (N - k - 1) as nat));
                assert(power(K as nat, (k + 1) as nat) == m * b);
                assert(power(K as nat, (N - k) as nat) == f * b);
                assert(left % b < b && left % b >= 0 && left / b >= 0 && left / b < f && left * m == (left % b) * m + (left / b) * (m * b)) by (nonlinear_arith)
                    requires b >= 1, 0 <= left, left < f * b;
            }""", """
            proof {
                digits_same(ints(before), ints(output@), K as nat, N - k + 1);
            }""")
    # Corners and halves of edges
    one, many = Source("cube_n/cube3/mus/index/implementations.rs"), Source("cube_n/cube3/mus/deindex/implementations.rs")
    sizes = {"CornersMUS": (8, 8, 7, 3, "Corner", "corners", 2187), "HalfEdgesMUS": (6, 12, 6, 2, "Edge", "edges", 64)}
    default = index.item("trait", "Indexable").fn("index")
    if norm(lex(index.impl(r"\bIndexable for T$").body)) != "{}":
        raise LostAnchor("`index` is not given by the trait")
    functions, text2 = [numbering, undoing, default], ""
    for name, (n, size, free_ones, k, piece, set_, orientations) in sizes.items():
        def numbers(body):
            body = re.sub(r"(\w+)\[(\d+)\.\.(\d+)\]\s*\.\s*try_into\(\)\s*\.\s*(?:unwrap\(\)|expect\([^()]*\))", rf"part::<{piece}, {n}, {free_ones}>(\1, \2, \3)", body)
            body = re.sub(r"&\[(\w+);\s*(\d+)\]", r"&Array<\1, \2>", body)
            body = re.sub(r"\bSelf::ORIENTATION_SET_SIZE\b", str(orientations), body)
            body = re.sub(r"\{\s*Edge::POSITION_SET_SIZE\s*\}", "12", re.sub(r"\{\s*Corner::POSITION_SET_SIZE\s*\}", "8", body))
            body = re.sub(r"\bself\s*\.\s*(position_index|orientation_index)\(\)", rf"{set_}_\1(this)", body)
            return re.sub(r"\bself\b", "this", body)
        place = one.impl(rf"PositionIndexable for {name}").fn("position_index")
        turn = one.impl(rf"OrientationIndexable for {name}").fn("orientation_index")
        back = many.impl(rf"Deindexable for {name}").fn("from_index")
        back_body = re.sub(r"\bCube3::SOLVED\s*\.\s*(corners|edges)\s*\.\s*pieces\(\)\[([^\[\]]+)\]", r"solved_\1().nth(\2)", back.body)
        back_body = re.sub(r"\bCornerSet::new\((\w+)\)\s*\.\s*(?:unwrap\(\)|expect\([^()]*\))", r"corner_set(\1)", numbers(back_body))
        back_body = re.sub(r"::<Self,", f"::<{piece},", back_body)
        back_body = with_closures(back_body, [("", ["usize"], f"-> (r: {piece}) requires $0 < {size} ensures r.place() == $0, r.orientation() == 0")])
        m = re.search(r"\blet mut (?:corners|edges)\b", back_body)
        if not m:
            raise LostAnchor("the pieces are made otherwise")
        back_body = back_body[: m.start()] + f"""
            proof {{
                let p = ints(position_indices@);
                assert forall|i: int| 0 <= i < {n} implies #[trigger] position_indices@[i] < {size} by {{ assert(p[i] == position_indices@[i]); }}
                assert forall|c: Seq<{piece}>| c.len() == {n} && (forall|i: int| 0 <= i < {n} ==> (#[trigger] c[i]).place() == position_indices@[i]) implies #[trigger] places(c) == p by {{ assert(places(c) =~= p); }}
                let o = ints(orientations@);
                assert forall|i: int| 0 <= i < {free_ones} implies #[trigger] orientations@[i] < {k} by {{ assert(o[i] == orientations@[i]); }}
                assert forall|c: Seq<{piece}>| c.len() == {n} && (forall|i: int| 0 <= i < {free_ones} ==> (#[trigger] c[i]).orientation() == orientations@[i])
                    implies orients(c.take({free_ones})) == o && ({n} == {free_ones} ==> #[trigger] orients(c) == o) by {{
                    assert(orients(c.take({free_ones})) =~= o);
                    assert({n} == {free_ones} ==> c.take({free_ones}) =~= c);
                }}
            }}
            """ + back_body[m.start():]
        proper = "proper_corners" if piece == "Corner" else "proper_half"
        back_body = desugar_arrays(back_body, "k", f"""
            k <= k_end, k_end == {free_ones}, {set_}@.len() == {n},
            forall|i: int| 0 <= i < {n} ==> (#[trigger] {set_}@[i]).place() == position_indices@[i],
            forall|i: int| 0 <= i < k ==> (#[trigger] {set_}@[i]).orientation() == orientations@[i],
            forall|i: int| k <= i < {n} ==> (#[trigger] {set_}@[i]).orientation() == 0,
        """, "proof { assert(ints(orientations@)[k as int] == orientations@[k as int]); }")
        if piece == "Corner":
            back_body = desugar_arrays(back_body, "j", """
            j <= j_end, j_end == *orientation, *orientation < 3, corner.place() == position_indices@[k - 1], corner.orientation() == j % 3,
        """)
        text2 += f"""
// {place.where()}
fn {set_}_position_index(this: &Array<{piece}, {n}>) -> (r: usize)
    requires this@.len() == {n}, arrangement(places(this@), {size})
    ensures r == number(places(this@), {size}), r < total({size}, {n})
{{
    proof {{ totals(); }}
    {numbers(place.body)}
}}
// {turn.where()}
fn {set_}_orientation_index(this: &Array<{piece}, {n}>) -> (r: usize)
    requires this@.len() == {n}
    ensures r == digits(orients(this@.take({free_ones})), {k}, 0), r < power({k}, {free_ones})
{{
    proof {{ totals(); {piece}::orientations(); assert(this@.subrange(0, {free_ones}) =~= this@.take({free_ones})); assert({n} == {free_ones} ==> this@.take({free_ones}) =~= this@); }}
    {numbers(turn.body)}
}}
// {default.where()}
fn {set_}_index(this: &Array<{piece}, {n}>) -> (r: usize)
    requires {proper}(this@)
    ensures r == {"corners" if piece == "Corner" else "half"}_number(this@)
{{
    proof {{ totals(); assert({n} == {free_ones} ==> this@.take({free_ones}) =~= this@); }}
    {numbers(default.body)}
}}
// {back.where()}
#[verifier::loop_isolation(false)]
fn {set_}_from_index(index: usize) -> (r: Array<{piece}, {n}>)
    requires index < total({size}, {n}) * {orientations}
    ensures {proper}(r@), {"corners" if piece == "Corner" else "half"}_number(r@) == index
{{
    proof {{ totals(); }}
    let r = {back_body};
    r
}}
/// What is made from the index of an arrangement is that arrangement
fn {set_}_come_back(this: &Array<{piece}, {n}>) -> (r: Array<{piece}, {n}>)
    requires {proper}(this@)
    ensures r@ == this@
{{
    proof {{ totals(); {"corners" if piece == "Corner" else "halves"}_are_numbered(this@, this@); }}
    let r = {set_}_from_index({set_}_index(this));
    proof {{ {"corners" if piece == "Corner" else "halves"}_are_numbered(this@, r@); }}
    r
}}
"""
        functions += [place, turn, back]
    contracts = ""
    if whole_cubes:
        contracts, more, others = of_cubes(index, deindex)
        text2 += more
        functions += others
    text = PRELUDE[: PRELUDE.index("// Pieces: opaque")] + PARITY[PARITY.index("pub open spec fn permutation"):PARITY.index("pub proof fn none_above")] + COUNTED + ITERATORS + LEMMAS + HINTS + DIGITS + PIECES.replace("EDGE_ORIENTATIONS", "2").replace("CORNER_ORIENTATIONS", "3") + contracts + f"""
pub fn least(a: usize, b: usize) -> (r: usize)
    ensures r == if a < b {{ a }} else {{ b }}
{{ if a < b {{ a }} else {{ b }} }}
pub open spec fn choices_of_places<T: PositionIndexable>(input: Seq<T>, size: nat) -> Seq<int> {{ choices_to(places(input), size) }}

// {multipliers.where()}
#[verifier::loop_isolation(false)]
pub fn disposition_multipliers<T: PositionIndexable, const N: usize, const T_POSITION_SET_SIZE: usize>() -> (r: Array<usize, N>)
    requires N <= T_POSITION_SET_SIZE, total(T_POSITION_SET_SIZE as nat, N as nat) <= usize::MAX
    ensures r@.len() == N, forall|i: int| 0 <= i < N ==> #[trigger] r@[i] == factor(T_POSITION_SET_SIZE as nat, N as nat, i)
{multipliers_body}

// {choosing.where()}
#[verifier::loop_isolation(false)]
fn disposition_choices<T: PositionIndexable, const N: usize, const T_POSITION_SET_SIZE: usize>(input: &Array<T, N>) -> (r: Array<usize, N>)
    requires input@.len() == N, arrangement(places(input@), T_POSITION_SET_SIZE as nat)
    ensures r@.len() == N, ints(r@) =~= choices_to(places(input@), T_POSITION_SET_SIZE as nat)
{{
    let ghost p = places(input@);
    proof {{ assert(marks(T_POSITION_SET_SIZE as nat, p.take(0)) =~= Seq::new(T_POSITION_SET_SIZE as nat, |i: int| false)); }}
    {choosing_body}
}}

// {whole.where()}
#[verifier::loop_isolation(false)]
pub fn position_disposition_index<T: PositionIndexable, const N: usize, const T_POSITION_SET_SIZE: usize>(input: &Array<T, N>) -> (r: usize)
    requires input@.len() == N, arrangement(places(input@), T_POSITION_SET_SIZE as nat), total(T_POSITION_SET_SIZE as nat, N as nat) <= usize::MAX
    ensures r == number(places(input@), T_POSITION_SET_SIZE as nat), r < total(T_POSITION_SET_SIZE as nat, N as nat)
{whole_body}

// {digits.where()}
#[verifier::loop_isolation(false)]
fn deindex_choices<T: PositionIndexable, const N: usize, const T_POSITION_SET_SIZE: usize>(index: usize) -> (r: Array<usize, N>)
    requires N <= T_POSITION_SET_SIZE, total(T_POSITION_SET_SIZE as nat, N as nat) <= usize::MAX, index < total(T_POSITION_SET_SIZE as nat, N as nat)
    ensures r@.len() == N, within(ints(r@), T_POSITION_SET_SIZE as nat), value(ints(r@), T_POSITION_SET_SIZE as nat, 0) == index
{{
    proof {{
        assert forall|c: Seq<int>| c.len() == N implies #[trigger] partial(c, T_POSITION_SET_SIZE as nat, N as nat, N as int) == value(c, T_POSITION_SET_SIZE as nat, 0) by {{
            partial_and_rest(c, T_POSITION_SET_SIZE as nat, N as int);
        }}
    }}
    {digits_body}
}}

// {permuting.where()}
#[verifier::loop_isolation(false)]
fn choices_to_permutations<const N: usize, const T_POSITION_SET_SIZE: usize>(choices: Array<usize, N>) -> (r: Array<usize, N>)
    requires choices@.len() == N, within(ints(choices@), T_POSITION_SET_SIZE as nat)
    ensures r@.len() == N, arrangement(ints(r@), T_POSITION_SET_SIZE as nat), choices_to(ints(r@), T_POSITION_SET_SIZE as nat) =~= ints(choices@)
{{
    proof {{
        assert forall|p: Seq<int>| #[trigger] p.take(0) == Seq::<int>::empty() by {{ assert(p.take(0) =~= Seq::empty()); }}
        assert(marks(T_POSITION_SET_SIZE as nat, Seq::empty()) =~= Seq::new(T_POSITION_SET_SIZE as nat, |i: int| false));
        assert forall|p: Seq<int>| p.len() == N implies #[trigger] p.take(N as int) == p by {{ assert(p.take(N as int) =~= p); }}
        assert forall|i: int| 0 <= i < N implies #[trigger] choices@[i] < T_POSITION_SET_SIZE - i by {{ assert(ints(choices@)[i] == choices@[i]); }}
    }}
    {permuting_body}
}}

// {positions.where()}
fn deindex_positions<T: PositionIndexable, const N: usize, const T_POSITION_SET_SIZE: usize>(index: usize) -> (r: Array<usize, N>)
    requires N <= T_POSITION_SET_SIZE, total(T_POSITION_SET_SIZE as nat, N as nat) <= usize::MAX, index < total(T_POSITION_SET_SIZE as nat, N as nat)
    ensures r@.len() == N, arrangement(ints(r@), T_POSITION_SET_SIZE as nat), number(ints(r@), T_POSITION_SET_SIZE as nat) == index
{positions.body}
"""
    text += f"""
// {numbering.where()}
#[verifier::loop_isolation(false)]
pub fn orientation_permutation_index<T: OrientationIndexable, const N: usize>(input: &Array<T, N>) -> (r: usize)
    requires input@.len() == N, power(T::ORIENTATION_SET_SIZE as nat, N as nat) <= usize::MAX
    ensures r == digits(orients(input@), T::ORIENTATION_SET_SIZE as nat, 0), r < power(T::ORIENTATION_SET_SIZE as nat, N as nat)
{{
    let ghost o = orients(input@);
    let ghost K = T::ORIENTATION_SET_SIZE;
    proof {{ T::orientations(); assert(below(o, K as nat)); digits_below(o, K as nat, 0); }}
    {numbering_body}
}}

// {undoing.where()}
#[verifier::loop_isolation(false)]
fn deindex_orientations<T: OrientationIndexable, const N: usize>(index: usize) -> (r: Array<usize, N>)
    requires index < power(T::ORIENTATION_SET_SIZE as nat, N as nat) <= usize::MAX
    ensures r@.len() == N, below(ints(r@), T::ORIENTATION_SET_SIZE as nat), digits(ints(r@), T::ORIENTATION_SET_SIZE as nat, 0) == index
{{
    let ghost K = T::ORIENTATION_SET_SIZE;
    proof {{ T::orientations(); }}
    {undoing_body}
}}
""" + text2
    return text + END, functions + [multipliers, choosing, whole, digits, permuting, positions]


def cubes():
    return unit(whole_cubes=True)

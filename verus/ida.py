"""Searches: whatever is found is a solution, and a shortest one if the heuristic is admissible. For all graphs.

What the extraction changes: costs are exact fixed-point numbers, in units of 1/UNIT for an arbitrary UNIT (`f32` becomes `i64`, `1.0`
becomes `UNIT` and `0.0` becomes 0); successors come as a `Vec` (and not as any type that iterates over them)."""
from lib.rustsrc import LostAnchor, Source, desugar_for, fields, lex, matching, with_closures, with_invariants

PRELUDE = """
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::*;
use core::marker::PhantomData;
verus! {

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);

pub assume_specification<T, A: std::alloc::Allocator> [<std::vec::IntoIter<T, A> as std::iter::Iterator>::last]
    (it: std::vec::IntoIter<T, A>) -> (r: std::option::Option<T>)
    ensures IteratorSpec::remaining(&it).len() > 0 ==> r == Some(IteratorSpec::remaining(&it).last());

/// Costs are multiples of 1 / UNIT
pub uninterp spec fn unit() -> int;

#[verifier::external_body]
pub const fn UNIT() -> (r: i64) ensures r == unit(), 0 < r < 0x100000 { unimplemented!() }

pub struct Alg<M> { pub moves: Vec<M> }

/// What is searched: the target, the successors of each state, and the heuristic
#[verifier::reject_recursive_types(C)]
pub ghost struct Problem<C, M> {
    pub target: spec_fn(C) -> bool,
    pub succ: spec_fn(C) -> Seq<(C, M)>,
    pub h: spec_fn(C) -> int,
}

pub open spec fn decides<C, M, T: Fn(&C) -> bool>(is_target: T, p: Problem<C, M>) -> bool {
    &&& forall|c: C| #[trigger] is_target.requires((&c,))
    &&& forall|c: C, r: bool| #[trigger] is_target.ensures((&c,), r) ==> r == (p.target)(c)
}

/// No route from the cube to a target costs less
pub open spec fn none_cheaper<C, M>(p: Problem<C, M>, cube: C, cost: int) -> bool {
    forall|states: Seq<C>, moves: Seq<M>|
        #[trigger] to_target(p.succ, p.target, states, moves) && states[0] == cube ==> cost <= moves.len() * unit()
}

/// The moves lead from the cube to a target
pub open spec fn solves<C, M>(p: Problem<C, M>, cube: C, moves: Seq<M>) -> bool {
    exists|states: Seq<C>| #[trigger] to_target(p.succ, p.target, states, moves) && states[0] == cube
}

/// No route from the cube to a target has less moves
pub open spec fn shortest<C, M>(p: Problem<C, M>, cube: C, alg: Seq<M>) -> bool {
    forall|states: Seq<C>, moves: Seq<M>|
        #[trigger] to_target(p.succ, p.target, states, moves) && states[0] == cube ==> alg.len() <= moves.len()
}

/// A sequence of states, and the moves that lead from each to the next
pub open spec fn route<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, states: Seq<C>, moves: Seq<M>) -> bool {
    states.len() == moves.len() + 1
        && forall|i: int| 0 <= i < moves.len() ==> #[trigger] succ(states[i]).contains((states[i + 1], moves[i]))
}

pub open spec fn to_target<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, states: Seq<C>, moves: Seq<M>) -> bool {
    route(succ, states, moves) && target(states.last())
}

/// The heuristic never overestimates how many moves it takes to a target
pub open spec fn admissible<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, h: spec_fn(C) -> int) -> bool {
    forall|states: Seq<C>, moves: Seq<M>| #[trigger] to_target(succ, target, states, moves) ==> h(states[0]) <= moves.len() * unit()
}

/// The values of the heuristic are whole numbers
pub open spec fn whole<C>(h: spec_fn(C) -> int) -> bool {
    forall|c: C| #[trigger] h(c) % unit() == 0
}

/// The routes to a target from the last state of the path that do not come to a state of the path (or of themselves) again
pub open spec fn avoiding<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, path: Seq<C>, states: Seq<C>, moves: Seq<M>) -> bool {
    to_target(succ, target, states, moves) && states[0] == path.last() && (path + states.drop_first()).no_duplicates()
}

/// Such routes whose first step is one of the first `n` successors cost at least `cost`
pub open spec fn dearer<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, path: Seq<C>, from: int, cost: int, n: int) -> bool {
    forall|states: Seq<C>, moves: Seq<M>, j: int|
        #[trigger] avoiding(succ, target, path, states, moves) && moves.len() > 0 && 0 <= j < n
            && #[trigger] succ(path.last())[j] == (states[1], moves[0])
        ==> cost <= from + moves.len() * unit()
}

/// All such routes do
pub open spec fn all_dearer<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, path: Seq<C>, from: int, cost: int) -> bool {
    forall|states: Seq<C>, moves: Seq<M>|
        #[trigger] avoiding(succ, target, path, states, moves) ==> cost <= from + moves.len() * unit()
}

/// The moves (last one first) lead from the end of `before` to the end of `path`, which is a target, within the bound
pub open spec fn found<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, before: Seq<C>, path: Seq<C>, moves: Seq<M>, from: int, bound: int) -> bool {
    &&& path.len() > 0 && from + moves.len() * unit() <= bound
    &&& exists|states: Seq<C>| #[trigger] to_target(succ, target, states, moves.reverse()) && states[0] == before.last() && states.last() == path.last()
}

pub proof fn units_add(n: int, k: int) ensures (n + k) * unit() == n * unit() + k * unit() {
    assert((n + k) * unit() == n * unit() + k * unit()) by (nonlinear_arith);
}

pub proof fn no_negative_units(n: int) requires n >= 0, unit() > 0 ensures n * unit() >= 0 {
    assert(n * unit() >= 0) by (nonlinear_arith) requires n >= 0, unit() > 0;
}

/// The state that was reached is a target
pub proof fn found_here<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, path: Seq<C>, from: int, bound: int)
    requires path.len() > 0
    ensures from <= bound && target(path.last()) ==> forall|moves: Seq<M>| moves.len() == 0 ==> #[trigger] found(succ, target, path, path, moves, from, bound)
{
    if from <= bound && target(path.last()) {
        assert forall|moves: Seq<M>| moves.len() == 0 implies #[trigger] found(succ, target, path, path, moves, from, bound) by {
            let states = seq![path.last()];
            assert(moves.reverse().len() == 0);
            assert(to_target(succ, target, states, moves.reverse()));
        }
    }
}

/// What is found from a successor is found from the state itself with one more move
pub proof fn found_there<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, before: Seq<C>, next: C, mov: M, from: int, bound: int)
    requires before.len() > 0, succ(before.last()).contains((next, mov))
    ensures forall|path: Seq<C>, moves: Seq<M>| #[trigger] found(succ, target, before.push(next), path, moves, from + unit(), bound)
        ==> found(succ, target, before, path, moves.push(mov), from, bound)
{
    assert forall|path: Seq<C>, moves: Seq<M>| #[trigger] found(succ, target, before.push(next), path, moves, from + unit(), bound)
        implies found(succ, target, before, path, moves.push(mov), from, bound) by {
        let s = choose|states: Seq<C>| #[trigger] to_target(succ, target, states, moves.reverse()) && states[0] == before.push(next).last() && states.last() == path.last();
        let states = seq![before.last()] + s;
        let all = moves.push(mov).reverse();
        assert(all =~= seq![mov] + moves.reverse());
        assert forall|i: int| 0 <= i < all.len() implies #[trigger] succ(states[i]).contains((states[i + 1], all[i])) by {
            if i > 0 {
                assert(succ(s[i - 1]).contains((s[i - 1 + 1], moves.reverse()[i - 1])));
            }
        }
        assert(to_target(succ, target, states, all));
        units_add(moves.len() as int, 1);
    }
}

/// A successor that is on the path already is on no route that avoids the path
pub proof fn avoided<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, before: Seq<C>, from: int, index: int)
    requires before.len() > 0, 0 <= index < succ(before.last()).len(), before.contains(succ(before.last())[index].0)
    ensures forall|a: int, b: int, n: int| n == index + 1 && b <= a && #[trigger] dearer(succ, target, before, from, a, index)
        ==> #[trigger] dearer(succ, target, before, from, b, n)
{
    let key = succ(before.last())[index].0;
    assert forall|states: Seq<C>, moves: Seq<M>| #[trigger] avoiding(succ, target, before, states, moves) && moves.len() > 0 implies states[1] != key by {
        if states[1] == key {
            let p = before + states.drop_first();
            let at = choose|at: int| 0 <= at < before.len() && before[at] == key;
            assert(p[at] == key && p[before.len() as int] == key);
        }
    }
}

/// What is known of the routes from a successor is known of those that go there first
pub proof fn followed<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, before: Seq<C>, from: int, index: int)
    requires before.len() > 0, before.no_duplicates(), 0 <= index < succ(before.last()).len(), !before.contains(succ(before.last())[index].0)
    ensures
        before.push(succ(before.last())[index].0).no_duplicates(),
        forall|a: int, b: int, n: int| n == index + 1 && b <= a && #[trigger] dearer(succ, target, before, from, a, index)
            && all_dearer(succ, target, before.push(succ(before.last())[index].0), from + unit(), b)
            ==> #[trigger] dearer(succ, target, before, from, b, n)
{
    let (key, mov) = succ(before.last())[index];
    let next = before.push(key);
    assert forall|a: int, b: int, n: int| n == index + 1 && b <= a && #[trigger] dearer(succ, target, before, from, a, index)
        && all_dearer(succ, target, next, from + unit(), b) implies #[trigger] dearer(succ, target, before, from, b, n) by {
        assert forall|states: Seq<C>, moves: Seq<M>, j: int|
            #[trigger] avoiding(succ, target, before, states, moves) && moves.len() > 0 && 0 <= j < n
                && #[trigger] succ(before.last())[j] == (states[1], moves[0])
            implies b <= from + moves.len() * unit() by {
            if j == index {
                let s = states.drop_first();
                let m = moves.drop_first();
                assert forall|i: int| 0 <= i < m.len() implies #[trigger] succ(s[i]).contains((s[i + 1], m[i])) by {
                    assert(succ(states[i + 1]).contains((states[i + 1 + 1], moves[i + 1])));
                }
                assert(next + s.drop_first() =~= before + states.drop_first());
                assert(s.last() == states.last());
                assert(avoiding(succ, target, next, s, m));
                units_add(m.len() as int, 1);
            } else {
                assert(a <= from + moves.len() * unit());
            }
        }
    }
}

/// After all successors nothing is left
pub proof fn exhausted<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, path: Seq<C>, from: int)
    requires path.len() > 0, !target(path.last())
    ensures forall|a: int| #[trigger] dearer(succ, target, path, from, a, succ(path.last()).len() as int) ==> all_dearer(succ, target, path, from, a)
{
    assert forall|a: int| #[trigger] dearer(succ, target, path, from, a, succ(path.last()).len() as int) implies all_dearer(succ, target, path, from, a) by {
        assert forall|states: Seq<C>, moves: Seq<M>| #[trigger] avoiding(succ, target, path, states, moves) implies a <= from + moves.len() * unit() by {
            if moves.len() > 0 {
                assert(succ(states[0]).contains((states[0int + 1], moves[0])));
                let j = choose|j: int| 0 <= j < succ(path.last()).len() && #[trigger] succ(path.last())[j] == (states[1], moves[0]);
                assert(succ(path.last())[j] == (states[1], moves[0]));
            } else {
                assert(states.last() == states[0]);
            }
        }
    }
}

/// What is too dear is too dear for every route, as the heuristic never overestimates
pub proof fn pruned<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, h: spec_fn(C) -> int, path: Seq<C>, from: int)
    ensures admissible(succ, target, h) ==> forall|a: int| a <= from + h(path.last()) ==> #[trigger] all_dearer(succ, target, path, from, a)
{
}

pub proof fn multiples(a: int, b: int)
    requires unit() > 0, a % unit() == 0, b % unit() == 0
    ensures (a + b) % unit() == 0, a > b ==> a >= b + unit()
{
    let u = unit();
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, u);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, u);
    let (p, q) = (a / u, b / u);
    assert(a == u * p && b == u * q);
    assert(a + b == u * (p + q)) by (nonlinear_arith) requires a == u * p, b == u * q;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(p + q, u);
    assert((p + q) * u == u * (p + q)) by (nonlinear_arith);
    if a > b {
        assert(p > q) by (nonlinear_arith) requires u * p > u * q, u > 0;
        assert(u * p >= u * q + u) by (nonlinear_arith) requires p >= q + 1, u > 0;
    }
}

/// Whole numbers above the bound are above it by one at least
pub proof fn whole_sum<C>(h: spec_fn(C) -> int, from: int, c: C, bound: int)
    requires unit() > 0
    ensures whole(h) && from % unit() == 0 && bound % unit() == 0 ==> from + h(c) > bound ==> from + h(c) >= bound + unit()
{
    if whole(h) && from % unit() == 0 && bound % unit() == 0 {
        assert(h(c) % unit() == 0);
        multiples(from, h(c));
        multiples(from + h(c), bound);
    }
}

pub proof fn next_unit(a: int)
    requires unit() > 0
    ensures a % unit() == 0 ==> (a + unit()) % unit() == 0, 0int % unit() == 0
{
    vstd::arithmetic::div_mod::lemma_mod_self_0(unit());
    vstd::arithmetic::div_mod::lemma_small_mod(0, unit() as nat);
    if a % unit() == 0 { multiples(a, unit()); }
}

/// Every route is at least as long as some route that avoids the path of its first state
pub proof fn one_round<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, cube: C)
    requires unit() > 0
    ensures forall|a: int| #[trigger] all_dearer(succ, target, seq![cube], 0, a) ==> forall|states: Seq<C>, moves: Seq<M>|
        #[trigger] to_target(succ, target, states, moves) && states[0] == cube ==> a <= moves.len() * unit()
{
    assert forall|a: int| #[trigger] all_dearer(succ, target, seq![cube], 0, a) implies forall|states: Seq<C>, moves: Seq<M>|
        #[trigger] to_target(succ, target, states, moves) && states[0] == cube ==> a <= moves.len() * unit() by {
        assert forall|states: Seq<C>, moves: Seq<M>| #[trigger] to_target(succ, target, states, moves) && states[0] == cube
            implies a <= moves.len() * unit() by {
            let (s, m) = without_loops(succ, target, states, moves);
            assert(seq![cube] + s.drop_first() =~= s);
            assert(avoiding(succ, target, seq![cube], s, m));
            units_add(moves.len() - m.len(), m.len() as int);
            no_negative_units(moves.len() - m.len());
        }
    }
}

/// Within the bound is not longer than any route
pub proof fn not_longer(n: int, bound: int)
    requires unit() > 0, n * unit() <= bound
    ensures forall|k: int| bound <= #[trigger] (k * unit()) ==> n <= k
{
    assert forall|k: int| bound <= #[trigger] (k * unit()) implies n <= k by {
        assert(n <= k) by (nonlinear_arith) requires n * unit() <= k * unit(), unit() > 0;
    }
}

/// What is found is a solution
pub open spec fn solution<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, cube: C, moves: Seq<M>, end: C) -> bool {
    target(end) && exists|states: Seq<C>| #[trigger] to_target(succ, target, states, moves) && states[0] == cube && states.last() == end
}

pub proof fn found_solution<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, cube: C, bound: int)
    ensures forall|path: Seq<C>, moves: Seq<M>| #[trigger] found(succ, target, seq![cube], path, moves, 0, bound)
        ==> solution(succ, target, cube, moves.reverse(), path.last())
{
}

pub proof fn short_enough<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, cube: C, bound: int)
    requires unit() > 0
    ensures forall|path: Seq<C>, moves: Seq<M>, k: int| #[trigger] found(succ, target, seq![cube], path, moves, 0, bound) && bound <= #[trigger] (k * unit())
        ==> moves.len() <= k
{
    assert forall|path: Seq<C>, moves: Seq<M>, k: int| #[trigger] found(succ, target, seq![cube], path, moves, 0, bound) && bound <= #[trigger] (k * unit())
        implies moves.len() <= k by {
        not_longer(moves.len() as int, bound);
    }
}

/// If the successors are what moves lead to, then the last state of a route is the first one moved by all of its moves
pub open spec fn moved_by_all<C, M>(by: spec_fn(C, M) -> C, c: C, moves: Seq<M>) -> C
    decreases moves.len()
{
    if moves.len() == 0 { c } else { moved_by_all(by, by(c, moves[0]), moves.drop_first()) }
}

pub proof fn routes_follow_moves<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, by: spec_fn(C, M) -> C, states: Seq<C>, moves: Seq<M>)
    requires
        route(succ, states, moves),
        forall|c: C, s: C, m: M| #[trigger] succ(c).contains((s, m)) ==> s == by(c, m),
    ensures states.last() == moved_by_all(by, states[0], moves)
    decreases moves.len()
{
    if moves.len() > 0 {
        assert(succ(states[0]).contains((states[0int + 1], moves[0])));
        let s = states.drop_first();
        let m = moves.drop_first();
        assert forall|i: int| 0 <= i < m.len() implies #[trigger] succ(s[i]).contains((s[i + 1], m[i])) by {
            assert(succ(states[i + 1]).contains((states[i + 1 + 1], moves[i + 1])));
        }
        routes_follow_moves(succ, by, s, m);
        assert(s.last() == states.last());
    }
}

/// A route that comes twice to a state is not shorter than one that does not
pub proof fn without_loops<C, M>(succ: spec_fn(C) -> Seq<(C, M)>, target: spec_fn(C) -> bool, states: Seq<C>, moves: Seq<M>) -> (r: (Seq<C>, Seq<M>))
    requires to_target(succ, target, states, moves)
    ensures
        to_target(succ, target, r.0, r.1), r.0[0] == states[0], r.1.len() <= moves.len(), r.0.no_duplicates()
    decreases moves.len()
{
    if states.no_duplicates() {
        (states, moves)
    } else {
        let (i, j) = choose|i: int, j: int| 0 <= i < states.len() && 0 <= j < states.len() && i != j && states[i] == states[j];
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        let s = states.take(a + 1) + states.skip(b + 1);
        let m = moves.take(a) + moves.skip(b);
        assert forall|k: int| 0 <= k < m.len() implies #[trigger] succ(s[k]).contains((s[k + 1], m[k])) by {
            if k < a {
                assert(succ(states[k]).contains((states[k + 1], moves[k])));
            } else {
                let o = k - a + b;
                assert(succ(states[o]).contains((states[o + 1], moves[o])));
            }
        }
        assert(s.last() == states.last());
        without_loops(succ, target, s, m)
    }
}

"""


def costs(text):
    """`f32` as fixed-point numbers"""
    out, last = "", 0
    for t in lex(text):
        new = None
        if t.kind == "ident" and t.text == "f32":
            new = "i64"
        elif t.kind == "num" and "." in t.text:
            number = t.text.replace("_", "").removesuffix("f32")
            if float(number) != int(float(number)):
                raise LostAnchor(f"a cost of {number}")
            new = {0: "0", 1: "UNIT()"}.get(int(float(number)), f"({int(float(number))} * UNIT())")
        if new is not None:
            out += text[last : t.start] + new
            last = t.end
    return out + text[last:]


def unit():
    ida, alg = Source("generic/search/ida.rs"), Source("generic/alg.rs")
    if [name for name, _ in fields(ida.item("struct", "IDASearcher"))] != ["heuristic", "successors", "max_depth", "_cube_marker"]:
        raise LostAnchor("the fields of IDASearcher")
    empty = alg.impl(r"^impl<T:AsMove>Alg<T>$").fn("empty")
    inherent = ida.impl(r"^impl<.*>IDASearcher<[^{]*$")
    new, search_impl = inherent.fn("new"), inherent.fn("search_impl")
    search = ida.impl(r"Searcher<C,M>for IDASearcher").fn("search")
    if "is_target:&impl Fn(&C)->bool" not in search_impl.head:
        raise LostAnchor("the parameters of search_impl")

    impl_text, search_text = costs(search_impl.body), costs(search.body)
    impl_text = add_argument(impl_text, "search_impl", "Ghost(p)")
    search_text = add_argument(search_text, "search_impl", "Ghost(p)")
    impl_body = desugar_for(
        impl_text,
        "it",
        """
            self.sane(p), decides(*is_target, p),
            path@ == before, before.len() > 0, before.no_duplicates(), before.last() == cube0, !(p.target)(cube0),
            it_all == (p.succ)(cube0), 0 <= it_n <= it_all.len(),
            0 <= current_cost <= bound, bound <= 0x10_0000_0000_0000,
            *min_exceeded <= min0, min0 > bound ==> *min_exceeded > bound,
            whole(p.h) && current_cost as int % unit() == 0 && bound as int % unit() == 0 && min0 >= bound + unit()
                ==> *min_exceeded >= bound + unit(),
            admissible(p.succ, p.target, p.h) ==> dearer(p.succ, p.target, before, current_cost as int, *min_exceeded as int, it_n),""",
        """
            proof {
                let index = it_n - 1;
                assert((p.succ)(cube0)[index] == (successor, mov));
                assert((p.succ)(cube0).contains((successor, mov)));
                assert(before.push(successor).drop_last() =~= before);
                next_unit(current_cost as int);
                found_there(p.succ, p.target, before, successor, mov, current_cost as int, bound as int);
                if before.contains(successor) {
                    avoided(p.succ, p.target, before, current_cost as int, index);
                } else {
                    followed(p.succ, p.target, before, current_cost as int, index);
                }
            }
        """,
    )
    search_body = with_invariants(
        search_text,
        [("for", """invariant
            self.sane(p), decides(is_target, p), 0 <= self.max_depth < 0x7fff_ffff,
            0 <= bound, bound <= 0x100_0000_0000 + it.index@ * unit(), 0 <= it.index@ <= it.seq().len(),
            it.seq().len() == self.max_depth + 1,
            it.index@ == 0 ==> bound == (p.h)(*cube),
            it.index@ > 0 ==> !(p.target)(*cube),
            whole(p.h) ==> bound as int == (p.h)(*cube) + it.index@ * unit() && bound as int % unit() == 0,
            admissible(p.succ, p.target, p.h) ==> none_cheaper(p, *cube, bound as int),""")],
        iterators=["it"],
        loop_start=["""
            proof {
                let index = it.index@ as int;
                units_add(index, 1);
                next_unit(bound as int);
                assert(index * unit() <= 0x8000_0000 * 0x100000) by (nonlinear_arith) requires 0 <= index <= 0x8000_0000, 0 < unit() <= 0x100000;
                one_round(p.succ, p.target, *cube);
                found_solution(p.succ, p.target, *cube, bound as int);
                short_enough(p.succ, p.target, *cube, bound as int);
                assert(seq![*cube].no_duplicates());
                assert(seq![*cube].last() == *cube);
                assert(Seq::<C>::empty().push(*cube) =~= seq![*cube]);
            }
        """],
    )
    solve = Source("generic/search/mod.rs").impl(r"Solver<C,M>for S$").fn("solve")
    solve_body = asserted(add_argument(solve.body, "search", "Ghost(p)"))
    solve_text = f"""
pub trait Cube: Sized {{
    spec fn solved(self) -> bool;
    fn is_solved(&self) -> (r: bool) ensures r == self.solved();
}}

impl<C, M, Heuristic, Successors> IDASearcher<C, M, Heuristic, Successors>
where
    C: Clone + PartialEq + Cube,
    Heuristic: Fn(&C) -> i64,
    Successors: Fn(&C) -> Vec<(C, M)>,
{{
    // {solve.where()}
    pub fn solve(&self, cube: &C, Ghost(p): Ghost<Problem<C, M>>) -> (r: Option<Alg<M>>)
        requires self.sane(p), 0 <= self.max_depth < 0x7fff_ffff, forall|c: C| #[trigger] (p.target)(c) == c.solved()
        ensures
            r is Some ==> solves(p, *cube, r.unwrap().moves@),
            cube.solved() ==> r is Some && r.unwrap().moves@.len() == 0,
            r is Some && admissible(p.succ, p.target, p.h) ==> shortest(p, *cube, r.unwrap().moves@),
            r is None && admissible(p.succ, p.target, p.h) && whole(p.h)
                ==> none_cheaper(p, *cube, (p.h)(*cube) + (self.max_depth + 1) * unit()),
    {solve_body}
}}
"""
    text = PRELUDE + f"""
impl<M> Alg<M> {{
    // {empty.where()}
    pub fn empty() -> (r: Self)
        ensures r.moves@.len() == 0
    {empty.body}
}}

#[verifier::reject_recursive_types(C)]
#[verifier::reject_recursive_types(M)]
#[verifier::reject_recursive_types(Heuristic)]
#[verifier::reject_recursive_types(Successors)]
pub struct IDASearcher<C, M, Heuristic, Successors>
where
    C: Clone + PartialEq,
    Heuristic: Fn(&C) -> i64,
    Successors: Fn(&C) -> Vec<(C, M)>,
{{
    pub heuristic: Heuristic,
    pub successors: Successors,
    pub max_depth: i32,
    pub _cube_marker: PhantomData<(C, M)>,
}}

impl<C, M, Heuristic, Successors> IDASearcher<C, M, Heuristic, Successors>
where
    C: Clone + PartialEq,
    Heuristic: Fn(&C) -> i64,
    Successors: Fn(&C) -> Vec<(C, M)>,
{{
    /// The heuristic and the successors are those of the problem, and clones are the same
    pub open spec fn sane(self, p: Problem<C, M>) -> bool {{
        &&& forall|c: C| #[trigger] self.heuristic.requires((&c,))
        &&& forall|c: C, r: i64| #[trigger] self.heuristic.ensures((&c,), r) ==> r == (p.h)(c) && 0 <= r <= 0x100_0000_0000
        &&& forall|c: C| #[trigger] self.successors.requires((&c,))
        &&& forall|c: C, r: Vec<(C, M)>| #[trigger] self.successors.ensures((&c,), r) ==> r@ == (p.succ)(c)
        &&& forall|a: C, b: C| #[trigger] call_ensures(C::clone, (&a,), b) ==> a == b
        &&& 0 < unit() < 0x100000
    }}

    // {new.where()}
    pub fn new(heuristic: Heuristic, successors: Successors, max_depth: i32) -> (r: Self)
        ensures r.heuristic == heuristic, r.successors == successors, r.max_depth == max_depth
    {new.body}

    // {search_impl.where()}
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    fn search_impl<T: Fn(&C) -> bool>(
        &self,
        path: &mut Vec<C>,
        is_target: &T,
        current_cost: i64,
        bound: i64,
        min_exceeded: &mut i64,
        Ghost(p): Ghost<Problem<C, M>>,
    ) -> (r: Option<Alg<M>>)
        requires
            self.sane(p), decides(*is_target, p),
            old(path).len() > 0, old(path)@.no_duplicates(),
            0 <= current_cost, 0 <= bound <= 0x10_0000_0000_0000, current_cost <= bound + unit(),
        ensures
            *final(min_exceeded) <= *old(min_exceeded),
            *old(min_exceeded) > bound ==> *final(min_exceeded) > bound,
            r is Some ==> found(p.succ, p.target, old(path)@, final(path)@, r.unwrap().moves@, current_cost as int, bound as int),
            (p.target)(old(path)@.last()) && current_cost + (p.h)(old(path)@.last()) <= bound ==> r is Some && r.unwrap().moves@.len() == 0,
            r is None ==> final(path)@ == old(path)@,
            r is None && admissible(p.succ, p.target, p.h)
                ==> all_dearer(p.succ, p.target, old(path)@, current_cost as int, *final(min_exceeded) as int),
            whole(p.h) && current_cost as int % unit() == 0 && bound as int % unit() == 0 && *old(min_exceeded) >= bound + unit()
                ==> *final(min_exceeded) >= bound + unit(),
        decreases bound + unit() - current_cost
    {{
        let ghost before = path@;
        let ghost cube0 = before.last();
        let ghost min0 = *min_exceeded;
        proof {{
            whole_sum(p.h, current_cost as int, cube0, bound as int);
            pruned(p.succ, p.target, p.h, before, current_cost as int);
            found_here(p.succ, p.target, before, current_cost as int, bound as int);
            if !(p.target)(cube0) {{ exhausted(p.succ, p.target, before, current_cost as int); }}
        }}
        {impl_body}
    }}

    // {search.where()}
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
    pub fn search<T: Fn(&C) -> bool>(&self, cube: &C, is_target: T, Ghost(p): Ghost<Problem<C, M>>) -> (r: Option<(Alg<M>, C)>)
        requires self.sane(p), decides(is_target, p), 0 <= self.max_depth < 0x7fff_ffff
        ensures
            // What is found is a solution
            r is Some ==> solution(p.succ, p.target, *cube, r.unwrap().0.moves@, r.unwrap().1),
            // A target needs no moves
            (p.target)(*cube) ==> r is Some && r.unwrap().0.moves@.len() == 0,
            // There is no shorter one
            r is Some && admissible(p.succ, p.target, p.h) ==> shortest(p, *cube, r.unwrap().0.moves@),
            // There is none within the bound, if none is found
            r is None && admissible(p.succ, p.target, p.h) && whole(p.h)
                ==> none_cheaper(p, *cube, (p.h)(*cube) + (self.max_depth + 1) * unit()),
    {search_body}
}}
}} // verus!
fn main() {{}}
"""
    cubes, functions = searches_of_cubes()
    return text.replace(END, solve_text + cubes + END), [empty, new, search_impl, search, solve] + functions


END = """} // verus!
fn main() {}
"""


def add_argument(text, function, argument):
    """With one more argument in the calls of a function"""
    tokens = lex(text)
    at = [matching(tokens, i + 1) for i, t in enumerate(tokens[:-1]) if t.text == function and tokens[i + 1].text == "("]
    if not at:
        raise LostAnchor(f"no call of {function}")
    for k in reversed(at):
        comma = "" if tokens[k - 1].text == "," else ", "
        text = text[: tokens[k].start] + comma + argument + text[tokens[k].start :]
    return text


def asserted(text):
    """`debug_assert!` as an obligation"""
    tokens = lex(text)
    for j in reversed([j for j, t in enumerate(tokens) if t.text == "debug_assert" and tokens[j + 1].text == "!"]):
        close = matching(tokens, j + 2)
        condition = text[tokens[j + 2].end : tokens[close].start]
        text = text[: tokens[j].start] + f"{{ let holds = {condition}; assert(holds); }}" + text[tokens[close].end :]
    return text


CUBES = """
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct AxisMove { m: u8 }

pub uninterp spec fn all_moves() -> Seq<AxisMove>;

impl AxisMove {
    #[verifier::external_body]
    pub fn all() -> (r: [AxisMove; 18])
        ensures r@ == all_moves(), all_moves().len() == 18, forall|m: AxisMove| #[trigger] all_moves().contains(m)
    { unimplemented!() }
}

#[verifier::external_body]
pub struct Face { f: u8 }

#[verifier::external_body]
#[derive(PartialEq)]
pub struct Cube3 { c: u8 }

pub uninterp spec fn cube_by(c: Cube3, m: AxisMove) -> Cube3;
pub uninterp spec fn cube_solved(c: Cube3) -> bool;
pub uninterp spec fn cross_pieces(c: Cube3, face: Face) -> int;
pub uninterp spec fn cross_distance(c: Cube3, face: Face, i: int) -> int;
pub uninterp spec fn good_heuristic(c: Cube3, face: Face) -> int;
pub uninterp spec fn admissible_heuristic(c: Cube3, face: Face) -> int;

impl Clone for Cube3 {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Cube for Cube3 {
    open spec fn solved(self) -> bool { cube_solved(self) }
    #[verifier::external_body]
    fn is_solved(&self) -> bool { unimplemented!() }
}
impl Cube3 {
    #[verifier::external_body]
    pub fn moved(self, m: &AxisMove) -> (r: Self) ensures r == cube_by(self, *m) { unimplemented!() }
}

#[verifier::external_body]
pub fn count_cross_pieces(cube: &Cube3, bottom_face: &Face) -> (r: i32) ensures r == cross_pieces(*cube, *bottom_face) { unimplemented!() }

#[verifier::external_body]
pub fn good_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> (r: i64)
    ensures r == good_heuristic(*cube, *bottom_face), 0 <= r <= 0x100_0000_0000
{ unimplemented!() }

#[verifier::external_body]
pub fn worse_but_admissable_cross_heuristic(cube: &Cube3, bottom_face: &Face) -> (r: i64)
    ensures r == admissible_heuristic(*cube, *bottom_face), 0 <= r <= 0x100_0000_0000
{ unimplemented!() }

/// `map` of arrays
#[verifier::external_body]
pub fn mapped<T, U, F: Fn(T) -> U, const N: usize>(array: [T; N], f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < N ==> #[trigger] f.requires((array@[i],))
    ensures r@.len() == N, forall|i: int| 0 <= i < N ==> f.ensures((array@[i],), #[trigger] r@[i])
{ unimplemented!() }

pub open spec fn successors_of(c: Cube3) -> Seq<(Cube3, AxisMove)> {
    all_moves().map_values(|m: AxisMove| (cube_by(c, m), m))
}

/// The state that a sequence of moves leads to
pub open spec fn cube_by_all(c: Cube3, alg: Seq<AxisMove>) -> Cube3 {
    moved_by_all(|c: Cube3, m: AxisMove| cube_by(c, m), c, alg)
}

pub open spec fn problem(target: spec_fn(Cube3) -> bool, h: spec_fn(Cube3) -> int) -> Problem<Cube3, AxisMove> {
    Problem { target, succ: |c: Cube3| successors_of(c), h }
}

/// The heuristic never overestimates how many moves it takes to a target
pub open spec fn never_overestimates(target: spec_fn(Cube3) -> bool, h: spec_fn(Cube3) -> int) -> bool {
    forall|c: Cube3, alg: Seq<AxisMove>| target(#[trigger] cube_by_all(c, alg)) ==> h(c) <= alg.len() * unit()
}

/// No alg with less moves leads to a target
pub open spec fn no_shorter(target: spec_fn(Cube3) -> bool, cube: Cube3, alg: Seq<AxisMove>) -> bool {
    forall|other: Seq<AxisMove>| target(#[trigger] cube_by_all(cube, other)) ==> alg.len() <= other.len()
}

/// Routes are sequences of moves
pub proof fn routes_are_algs(target: spec_fn(Cube3) -> bool, h: spec_fn(Cube3) -> int)
    requires forall|m: AxisMove| #[trigger] all_moves().contains(m)
    ensures
        forall|c: Cube3, moves: Seq<AxisMove>, end: Cube3| #[trigger] solution(problem(target, h).succ, target, c, moves, end)
            ==> end == cube_by_all(c, moves) && target(end),
        forall|c: Cube3, moves: Seq<AxisMove>| #[trigger] solves(problem(target, h), c, moves) ==> target(cube_by_all(c, moves)),
        forall|c: Cube3, alg: Seq<AxisMove>| #[trigger] shortest(problem(target, h), c, alg) ==> no_shorter(target, c, alg),
        never_overestimates(target, h) ==> admissible(problem(target, h).succ, target, h),
        forall|c: Cube3, cost: int| #[trigger] none_cheaper(problem(target, h), c, cost)
            ==> forall|alg: Seq<AxisMove>| target(#[trigger] cube_by_all(c, alg)) ==> cost <= alg.len() * unit(),
{
    let p = problem(target, h);
    let by = |c: Cube3, m: AxisMove| cube_by(c, m);
    assert forall|c: Cube3, s: Cube3, m: AxisMove| #[trigger] (p.succ)(c).contains((s, m)) implies s == by(c, m) by {
        let i = choose|i: int| 0 <= i < successors_of(c).len() && successors_of(c)[i] == (s, m);
        assert(successors_of(c)[i] == (cube_by(c, all_moves()[i]), all_moves()[i]));
    }
    assert forall|states: Seq<Cube3>, moves: Seq<AxisMove>| #[trigger] to_target(p.succ, target, states, moves)
        implies states.last() == cube_by_all(states[0], moves) by {
        routes_follow_moves(p.succ, by, states, moves);
    }
    assert forall|c: Cube3, alg: Seq<AxisMove>| #[trigger] shortest(p, c, alg) implies no_shorter(target, c, alg) by {
        assert forall|other: Seq<AxisMove>| target(#[trigger] cube_by_all(c, other)) implies alg.len() <= other.len() by {
            let states = alg_route(p, c, other);
            assert(to_target(p.succ, p.target, states, other));
        }
    }
    assert forall|c: Cube3, cost: int| #[trigger] none_cheaper(p, c, cost)
        implies forall|alg: Seq<AxisMove>| target(#[trigger] cube_by_all(c, alg)) ==> cost <= alg.len() * unit() by {
        assert forall|alg: Seq<AxisMove>| target(#[trigger] cube_by_all(c, alg)) implies cost <= alg.len() * unit() by {
            let states = alg_route(p, c, alg);
            assert(to_target(p.succ, p.target, states, alg));
        }
    }
}

/// The bound is more than any cube needs
pub proof fn enough()
    requires unit() > 0
    ensures
        forall|n: int| 21 * unit() <= #[trigger] (n * unit()) ==> 21 <= n,
        forall|n: int| 21 <= n ==> 21 * unit() <= #[trigger] (n * unit()),
{
    assert forall|n: int| 21 * unit() <= #[trigger] (n * unit()) implies 21 <= n by {
        assert(21 <= n) by (nonlinear_arith) requires 21 * unit() <= n * unit(), unit() > 0;
    }
    assert forall|n: int| 21 <= n implies 21 * unit() <= #[trigger] (n * unit()) by {
        assert(21 * unit() <= n * unit()) by (nonlinear_arith) requires 21 <= n, unit() > 0;
    }
}

/// What no move lowers by more than one, and is zero at the targets, never overestimates
pub proof fn potentials_never_overestimate(target: spec_fn(Cube3) -> bool, h: spec_fn(Cube3) -> int)
    requires
        unit() > 0,
        forall|c: Cube3| target(c) ==> #[trigger] h(c) == 0,
        forall|c: Cube3, m: AxisMove| h(c) <= h(#[trigger] cube_by(c, m)) + unit(),
    ensures never_overestimates(target, h)
{
    assert forall|c: Cube3, alg: Seq<AxisMove>| target(#[trigger] cube_by_all(c, alg)) implies h(c) <= alg.len() * unit() by {
        drops(h, c, alg);
    }
}

pub proof fn drops(h: spec_fn(Cube3) -> int, c: Cube3, alg: Seq<AxisMove>)
    requires forall|c: Cube3, m: AxisMove| h(c) <= h(#[trigger] cube_by(c, m)) + unit()
    ensures h(c) <= h(cube_by_all(c, alg)) + alg.len() * unit()
    decreases alg.len()
{
    if alg.len() > 0 {
        drops(h, cube_by(c, alg[0]), alg.drop_first());
        units_add(alg.len() - 1, 1);
    }
}

/// The largest of the distances of the four edges of a cross
pub open spec fn largest(c: Cube3, face: Face) -> int {
    let (p, q) = (cross_distance(c, face, 0), cross_distance(c, face, 1));
    let (r, s) = (cross_distance(c, face, 2), cross_distance(c, face, 3));
    let a = if p > q { p } else { q };
    let b = if r > s { r } else { s };
    if a > b { a } else { b }
}

/// The contracts of the edges of crosses (kani/src/distance.rs: `distance_drops_by_one_at_most`, `distance_zero_is_home`,
/// `cross_heuristic_is_the_largest_distance`, `cross_count_is_that_of_edges_at_home`)
pub open spec fn edges_of_crosses(face: Face) -> bool {
    &&& forall|c: Cube3, m: AxisMove, i: int| 0 <= i < 4 ==> #[trigger] cross_distance(c, face, i) <= cross_distance(#[trigger] cube_by(c, m), face, i) + 1
    &&& forall|c: Cube3, i: int| 0 <= i < 4 ==> #[trigger] cross_distance(c, face, i) >= 0
    &&& forall|c: Cube3| #[trigger] cross_pieces(c, face) == 4 ==> forall|i: int| 0 <= i < 4 ==> #[trigger] cross_distance(c, face, i) == 0
    &&& forall|c: Cube3| #[trigger] admissible_heuristic(c, face) == largest(c, face) * unit()
}

pub proof fn cross_heuristic_never_overestimates(face: Face)
    requires unit() > 0, edges_of_crosses(face)
    ensures never_overestimates(crossed(face), |c: Cube3| admissible_heuristic(c, face))
{
    let h = |c: Cube3| admissible_heuristic(c, face);
    assert forall|c: Cube3| (crossed(face))(c) implies #[trigger] h(c) == 0 by {
        assert(cross_pieces(c, face) == 4);
        assert(cross_distance(c, face, 0) == 0 && cross_distance(c, face, 1) == 0);
        assert(cross_distance(c, face, 2) == 0 && cross_distance(c, face, 3) == 0);
        assert(admissible_heuristic(c, face) == largest(c, face) * unit());
        assert(0 * unit() == 0);
    }
    assert forall|c: Cube3, m: AxisMove| h(c) <= h(#[trigger] cube_by(c, m)) + unit() by {
        let d = cube_by(c, m);
        assert(cross_distance(c, face, 0) <= cross_distance(d, face, 0) + 1);
        assert(cross_distance(c, face, 1) <= cross_distance(d, face, 1) + 1);
        assert(cross_distance(c, face, 2) <= cross_distance(d, face, 2) + 1);
        assert(cross_distance(c, face, 3) <= cross_distance(d, face, 3) + 1);
        assert(largest(c, face) <= largest(d, face) + 1);
        let (a, b) = (largest(c, face), largest(d, face));
        assert(a * unit() <= b * unit() + unit()) by (nonlinear_arith) requires a <= b + 1, unit() > 0;
    }
    potentials_never_overestimate(crossed(face), h);
}

/// Any sequence of moves is a route
pub proof fn alg_route(p: Problem<Cube3, AxisMove>, c: Cube3, alg: Seq<AxisMove>) -> (states: Seq<Cube3>)
    requires forall|m: AxisMove| #[trigger] all_moves().contains(m), p.succ == (|c: Cube3| successors_of(c))
    ensures route(p.succ, states, alg), states[0] == c, states.last() == cube_by_all(c, alg)
    decreases alg.len()
{
    if alg.len() == 0 {
        seq![c]
    } else {
        let rest = alg_route(p, cube_by(c, alg[0]), alg.drop_first());
        let states = seq![c] + rest;
        assert forall|i: int| 0 <= i < alg.len() implies #[trigger] (p.succ)(states[i]).contains((states[i + 1], alg[i])) by {
            if i == 0 {
                assert(all_moves().contains(alg[0]));
                let k = choose|k: int| 0 <= k < all_moves().len() && all_moves()[k] == alg[0];
                assert(successors_of(c)[k] == (states[1], alg[0]));
            } else {
                assert((p.succ)(rest[i - 1]).contains((rest[i - 1 + 1], alg.drop_first()[i - 1])));
            }
        }
        states
    }
}
"""


def searches_of_cubes():
    text = CUBES
    successors = Source("cube_n/cube3/mod.rs").impl(r"^impl Cube3$").fn("successors")
    with_heuristic = Source("cube_n/search.rs").impl(r"^impl Cube3$").fn("solve_with_heuristic")
    cross = Source("cube_n/cube3/cfop/cross.rs")
    directly, fast, best = cross.fn("solve_cross_directly"), cross.fn("solve_cross_fast"), cross.fn("solve_cross")
    successors_body = with_closures(as_function(successors.body, "map", "mapped"), [
        ("", ["AxisMove"], "-> (r: (Cube3, AxisMove)) ensures r == (cube_by(*self, $0), $0)")])
    heuristic = lambda name: ("", ["&Cube3"], f"-> (r: i64) ensures r == {name}(*$0, *bottom_face), 0 <= r <= 0x100_0000_0000")
    directly_body = with_closures(add_argument(directly.body, "search", "Ghost(problem(crossed(*bottom_face), h))"), [
        ("", ["&Cube3"], "-> (r: bool) ensures r == (crossed(*bottom_face))(*$0)")])
    fast_body = add_argument(with_closures(fast.body, [heuristic("good_heuristic")]), "solve_cross_directly", "Ghost(|c: Cube3| good_heuristic(c, *bottom_face))")
    best_body = add_argument(with_closures(best.body, [heuristic("admissible_heuristic")]), "solve_cross_directly", "Ghost(|c: Cube3| admissible_heuristic(c, *bottom_face))")
    text += f"""
impl Cube3 {{
    // {successors.where()}
    pub fn successors(&self) -> (r: Vec<(Self, AxisMove)>)
        ensures r@ =~= successors_of(*self)
    {successors_body}

    // {with_heuristic.where()}
    pub fn solve_with_heuristic<F: Fn(&Self) -> i64>(&self, heuristic: F, Ghost(h): Ghost<spec_fn(Cube3) -> int>) -> (r: Option<Alg<AxisMove>>)
        requires
            0 < unit() < 0x100000,
            forall|c: Cube3| #[trigger] heuristic.requires((&c,)),
            forall|c: Cube3, r: i64| #[trigger] heuristic.ensures((&c,), r) ==> r == h(c) && 0 <= r <= 0x100_0000_0000,
            forall|m: AxisMove| #[trigger] all_moves().contains(m),
            forall|c: Cube3| #[trigger] h(c) >= 0,
        ensures
            r is Some ==> cube_by_all(*self, r.unwrap().moves@).solved(),
            self.solved() ==> r is Some && r.unwrap().moves@.len() == 0,
            r is Some && never_overestimates(solved_cubes(), h) ==> no_shorter(solved_cubes(), *self, r.unwrap().moves@),
            r is None && never_overestimates(solved_cubes(), h) && whole(h)
                ==> forall|alg: Seq<AxisMove>| #[trigger] cube_by_all(*self, alg).solved() ==> 21 <= alg.len(),
    {{
        proof {{ routes_are_algs(solved_cubes(), h); enough(); }}
        {add_argument(with_heuristic.body, "solve", "Ghost(problem(solved_cubes(), h))")}
    }}
}}

pub open spec fn solved_cubes() -> spec_fn(Cube3) -> bool {{ |c: Cube3| c.solved() }}

/// The crosses that are solved
pub open spec fn crossed(face: Face) -> spec_fn(Cube3) -> bool {{ |c: Cube3| cross_pieces(c, face) == 4 }}

// {directly.where()}
fn solve_cross_directly<F: Fn(&Cube3) -> i64>(cube: &Cube3, bottom_face: &Face, heuristic: F, Ghost(h): Ghost<spec_fn(Cube3) -> int>) -> (r: Option<(Alg<AxisMove>, Cube3)>)
    requires
        0 < unit() < 0x100000,
        forall|c: Cube3| #[trigger] heuristic.requires((&c,)),
        forall|c: Cube3, r: i64| #[trigger] heuristic.ensures((&c,), r) ==> r == h(c) && 0 <= r <= 0x100_0000_0000,
        forall|m: AxisMove| #[trigger] all_moves().contains(m),
    ensures
        r is Some ==> r.unwrap().1 == cube_by_all(*cube, r.unwrap().0.moves@) && cross_pieces(r.unwrap().1, *bottom_face) == 4,
        cross_pieces(*cube, *bottom_face) == 4 ==> r is Some && r.unwrap().0.moves@.len() == 0,
        r is Some && never_overestimates(crossed(*bottom_face), h) ==> no_shorter(crossed(*bottom_face), *cube, r.unwrap().0.moves@),
{{
    proof {{ routes_are_algs(crossed(*bottom_face), h); }}
    {directly_body}
}}

// {fast.where()}
pub fn solve_cross_fast(cube: &Cube3, bottom_face: &Face) -> (r: Option<(Alg<AxisMove>, Cube3)>)
    requires 0 < unit() < 0x100000, forall|m: AxisMove| #[trigger] all_moves().contains(m)
    ensures
        r is Some ==> r.unwrap().1 == cube_by_all(*cube, r.unwrap().0.moves@) && cross_pieces(r.unwrap().1, *bottom_face) == 4,
        cross_pieces(*cube, *bottom_face) == 4 ==> r is Some && r.unwrap().0.moves@.len() == 0,
{fast_body}

// {best.where()}
pub fn solve_cross(cube: &Cube3, bottom_face: &Face) -> (r: Option<(Alg<AxisMove>, Cube3)>)
    requires 0 < unit() < 0x100000, forall|m: AxisMove| #[trigger] all_moves().contains(m)
    ensures
        r is Some ==> r.unwrap().1 == cube_by_all(*cube, r.unwrap().0.moves@) && cross_pieces(r.unwrap().1, *bottom_face) == 4,
        cross_pieces(*cube, *bottom_face) == 4 ==> r is Some && r.unwrap().0.moves@.len() == 0,
        r is Some && edges_of_crosses(*bottom_face) ==> no_shorter(crossed(*bottom_face), *cube, r.unwrap().0.moves@),
{{
    proof {{ if edges_of_crosses(*bottom_face) {{ cross_heuristic_never_overestimates(*bottom_face); }} }}
    {best_body}
}}
"""
    return text, [successors, with_heuristic, directly, fast, best]


def as_function(text, method, function):
    """`a.method(b)` as `function(a, b)`, if that is all there is"""
    tokens = lex(text)
    at = [j for j, t in enumerate(tokens) if t.text == method and tokens[j - 1].text == "." and tokens[j + 1].text == "("]
    if len(at) != 1 or matching(tokens, at[0] + 1) != len(tokens) - 2:
        raise LostAnchor(f"not one call of {method}")
    start, j = tokens[0].end, at[0]
    return (text[:start] + f" {function}(" + text[start : tokens[j - 1].start].strip() + ", " + text[tokens[j + 1].end : tokens[-2].end]
            + " " + text[tokens[-1].start :])

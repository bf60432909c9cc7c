"""Tables of patterns: what is built holds, for each pattern, the least number of moves that solves it. For all kinds of patterns that are
numbered (C12) and whose moves can be undone (C01).

What the extraction drops: what is printed while a table is built, and of the statistics all but the number of entries."""
import re

from lib.rustsrc import LostAnchor, Source, desugar_for, fields, lex, matching, norm, with_closures

TRAITS = {"Clone", "Deindexable", "DiskCacheable", "Indexable", "Movable<AxisMove>"}

PRELUDE = """
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {

// The standard library

#[derive(Clone, Copy)]
pub struct Local;
#[derive(Clone, Copy)]
pub struct DateTime<T> { pub zone: T, pub time: u64 }
impl Local {
    #[verifier::external_body]
    pub fn now() -> (r: DateTime<Local>) { unimplemented!() }
}

#[derive(PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, Other }

pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    #[verifier::external_body]
    pub struct Error { e: u8 }
    impl Error {
        pub uninterp spec fn of(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind)
            ensures r == self.of()
        { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
}

/// Whether there is a file, when it is first looked for, and what it then holds
pub uninterp spec fn there(path: &str) -> bool;
pub uninterp spec fn contents(path: &str) -> Seq<u8>;
/// These bytes, and nothing else, were written to the file
pub uninterp spec fn stored(path: &str, bytes: Seq<u8>) -> bool;

pub mod fs {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub fn read(path: &str) -> (r: super::io::Result<Vec<u8>>)
        ensures
            r matches Ok(bytes) ==> super::there(path) && bytes@ == super::contents(path),
            r matches Err(e) ==> (e.of() == super::io::ErrorKind::NotFound <==> !super::there(path))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(path: &str, bytes: &[u8]) -> (r: super::io::Result<()>)
        ensures r is Ok ==> super::stored(path, bytes@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all(path: &super::Path) -> (r: super::io::Result<()>) { unimplemented!() }
}

#[verifier::external_body]
pub struct Path { p: u8 }
impl Path {
    #[verifier::external_body]
    pub fn new(path: &str) -> (r: &Path) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>) { unimplemented!() }
}

/// `panic!`
#[verifier::external_body]
pub fn refuse() -> (r: ()) ensures false { unimplemented!() }

/// What is there if a value is read as one of another type
pub trait Reads<B> {
    spec fn reads(&self, b: &B) -> bool;
}

pub mod mem {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub unsafe fn transmute<A: super::Reads<B>, B>(a: A) -> (r: B)
        ensures a.reads(&r)
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }

/// `f` tells of each of the items whether it is kept
pub open spec fn tells<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, keeps: spec_fn(T) -> bool) -> bool {
    forall|i: int, r: bool| 0 <= i < s.len() && #[trigger] f.ensures((&s[i],), r) ==> r == keeps(s[i])
}

impl<T> It<T> {
    pub uninterp spec fn items(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.items().len() ==> #[trigger] f.requires((&self.items()[i],))
        ensures r.items().len() <= self.items().len(),
            forall|keeps: spec_fn(T) -> bool| tells(self.items(), f, keeps) ==> r.items() == #[trigger] self.items().filter(keeps)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self.items().len()
    { unimplemented!() }
}

#[verifier::external_body]
pub fn items_of<T>(s: &[T]) -> (r: It<&T>)
    ensures r.items() == references(s@)
{ unimplemented!() }

pub open spec fn references<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }

/// `vec![x; n]`
#[verifier::external_body]
pub fn repeated(x: PartialEntry, n: usize) -> (r: Vec<PartialEntry>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x
{ unimplemented!() }

// Patterns and moves

#[verifier::external_body]
pub struct AxisMove { m: u8 }

impl AxisMove {
    // kani/src/moves.rs: `all_axis_moves_are_listed_once`
    #[verifier::external_body]
    pub fn all() -> (r: Vec<AxisMove>)
        ensures forall|m: AxisMove| #[trigger] r@.contains(m)
    { unimplemented!() }
}

/// A kind of pattern: C12 is what is said about indices, C01 about moves (in `numbered`)
pub trait Pattern: Sized {
    const TOTAL_SET_SIZE: usize;
    const PATH: &'static str;

    spec fn valid(&self) -> bool;
    spec fn number(&self) -> int;
    spec fn by(&self, m: AxisMove) -> Self;

    fn index(&self) -> (r: usize)
        requires self.valid()
        ensures r == self.number(), r < Self::TOTAL_SET_SIZE;
    fn from_index(index: usize) -> (r: Self)
        requires index < Self::TOTAL_SET_SIZE
        ensures r.valid(), r.number() == index;
    fn clone(&self) -> (r: Self)
        ensures r == *self;
    fn moved(self, m: &AxisMove) -> (r: Self)
        ensures r == self.by(*m);
}

/// Moves are made of valid patterns, they can be undone, and patterns are told apart by their numbers
pub open spec fn numbered<T: Pattern>() -> bool {
    &&& T::TOTAL_SET_SIZE > 0
    &&& forall|t: T| #[trigger] t.valid() ==> 0 <= t.number() < T::TOTAL_SET_SIZE
    &&& forall|a: T, b: T| #![trigger a.number(), b.number()] a.valid() && b.valid() && a.number() == b.number() ==> a == b
    &&& forall|t: T, m: AxisMove| t.valid() ==> (#[trigger] t.by(m)).valid()
    &&& forall|t: T, m: AxisMove| t.valid() ==> #[trigger] undone(t, m)
    &&& forall|i: int| 0 <= i < T::TOTAL_SET_SIZE ==> #[trigger] taken::<T>(i)
}

pub open spec fn undone<T: Pattern>(t: T, m: AxisMove) -> bool {
    exists|n: AxisMove| #[trigger] t.by(m).by(n) == t
}

pub open spec fn taken<T: Pattern>(i: int) -> bool {
    exists|t: T| #[trigger] t.valid() && t.number() == i
}

/// No pattern is as many moves away from the solved one as the number that stands for no entry
pub open spec fn all_near<T: Pattern>() -> bool {
    forall|t: T| #[trigger] t.valid() ==> near(t, 254)
}

// What a table has to hold

pub open spec fn by_all<T: Pattern>(t: T, moves: Seq<AxisMove>) -> T
    decreases moves.len()
{
    if moves.len() == 0 { t } else { by_all(t.by(moves[0]), moves.drop_first()) }
}

/// The moves solve the pattern: its number is then 0
pub open spec fn solve<T: Pattern>(t: T, moves: Seq<AxisMove>) -> bool {
    by_all(t, moves).number() == 0
}

pub open spec fn least<T: Pattern>(t: T, n: int) -> bool {
    &&& exists|moves: Seq<AxisMove>| #[trigger] solve(t, moves) && moves.len() == n
    &&& forall|moves: Seq<AxisMove>| #[trigger] solve(t, moves) ==> n <= moves.len()
}

/// The solved pattern is at most `n` moves away
pub open spec fn near<T: Pattern>(t: T, n: nat) -> bool
    decreases n
{
    t.number() == 0 || (n > 0 && exists|m: AxisMove| near(#[trigger] t.by(m), (n - 1) as nat))
}

/// Entries of all patterns that are at most `n` moves away, and of no other ones
pub open spec fn layers<T: Pattern>(cache: Seq<PartialEntry>, n: int) -> bool {
    &&& cache.len() == T::TOTAL_SET_SIZE
    &&& forall|t: T| #[trigger] t.valid() ==> layer(t, cache[t.number()].0 as int, n)
}

pub open spec fn layer<T: Pattern>(t: T, entry: int, n: int) -> bool {
    if near(t, n as nat) {
        entry <= n && entry < 255 && near(t, entry as nat) && (entry > 0 ==> !near(t, (entry - 1) as nat))
    } else {
        entry == 255
    }
}

pub proof fn nearer<T: Pattern>(t: T, a: nat, b: nat)
    requires near(t, a), a <= b
    ensures near(t, b)
    decreases a
{
    if t.number() != 0 {
        let m = choose|m: AxisMove| near(#[trigger] t.by(m), (a - 1) as nat);
        nearer(t.by(m), (a - 1) as nat, (b - 1) as nat);
    }
}

/// What is a move away from what is near
pub proof fn next_to<T: Pattern>(t: T, m: AxisMove, n: nat)
    requires numbered::<T>(), t.valid(), near(t, n)
    ensures near(t.by(m), n + 1)
{
    assert(undone(t, m));
    let u = choose|u: AxisMove| #[trigger] t.by(m).by(u) == t;
    assert(near(t.by(m).by(u), n));
}

pub proof fn near_is_solved<T: Pattern>(t: T, n: nat) -> (moves: Seq<AxisMove>)
    requires near(t, n)
    ensures solve(t, moves), moves.len() <= n
    decreases n
{
    if t.number() == 0 {
        assert(by_all(t, Seq::<AxisMove>::empty()) == t);
        Seq::empty()
    } else {
        let m = choose|m: AxisMove| near(#[trigger] t.by(m), (n - 1) as nat);
        let rest = near_is_solved(t.by(m), (n - 1) as nat);
        let moves = seq![m] + rest;
        assert(moves.drop_first() =~= rest);
        moves
    }
}

pub proof fn solved_is_near<T: Pattern>(t: T, moves: Seq<AxisMove>)
    requires solve(t, moves)
    ensures near(t, moves.len())
    decreases moves.len()
{
    if moves.len() > 0 {
        solved_is_near(t.by(moves[0]), moves.drop_first());
        assert(near(t.by(moves[0]), (moves.len() - 1) as nat));
    }
}

pub proof fn layer_is_least<T: Pattern>(t: T, n: int)
    requires n >= 0, near(t, n as nat), n > 0 ==> !near(t, (n - 1) as nat)
    ensures least(t, n)
{
    let moves = near_is_solved(t, n as nat);
    assert forall|moves: Seq<AxisMove>| #[trigger] solve(t, moves) implies n <= moves.len() by {
        solved_is_near(t, moves);
        if moves.len() < n { nearer(t, moves.len(), (n - 1) as nat); }
    }
    assert(solve(t, moves) && moves.len() == n);
}

/// The first entry: of the solved pattern
pub proof fn first_layer<T: Pattern>(cache: Seq<PartialEntry>)
    requires numbered::<T>(), cache.len() == T::TOTAL_SET_SIZE, cache[0].0 == 0,
        forall|i: int| 0 < i < cache.len() ==> (#[trigger] cache[i]).0 == 255
    ensures layers::<T>(cache, 0)
{
    assert forall|t: T| #[trigger] t.valid() implies layer(t, cache[t.number()].0 as int, 0) by {
        assert(0 <= t.number() < cache.len());
    }
}

/// While the patterns that are a move away from those with `depth - 1` get entries
pub open spec fn growing<T: Pattern>(was: Seq<PartialEntry>, cache: Seq<PartialEntry>, depth: int) -> bool {
    &&& cache.len() == was.len() == T::TOTAL_SET_SIZE
    &&& forall|t: T| #[trigger] t.valid() ==> grows(t, was[t.number()].0 as int, cache[t.number()].0 as int, depth)
}

pub open spec fn grows<T: Pattern>(t: T, was: int, entry: int, depth: int) -> bool {
    &&& was != 255 ==> entry == was
    &&& was == 255 ==> entry == 255 || (entry == depth && near(t, depth as nat))
}

/// All that are a move away from those whose numbers are less than `n`
pub open spec fn grown<T: Pattern>(was: Seq<PartialEntry>, cache: Seq<PartialEntry>, depth: int, n: int) -> bool {
    forall|t: T, m: AxisMove| t.valid() && t.number() < n && was[t.number()].0 == depth - 1 ==> cache[(#[trigger] t.by(m)).number()].0 != 255
}

/// All that are a move away from one pattern, by one of the first `n` moves
pub open spec fn grown_by<T: Pattern>(cache: Seq<PartialEntry>, t: T, moves: Seq<AxisMove>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (cache[t.by(#[trigger] moves[k]).number()]).0 != 255
}

pub proof fn next_layer<T: Pattern>(was: Seq<PartialEntry>, cache: Seq<PartialEntry>, depth: int)
    requires numbered::<T>(), 1 <= depth < 255, layers::<T>(was, depth - 1), growing::<T>(was, cache, depth),
        grown::<T>(was, cache, depth, T::TOTAL_SET_SIZE as int)
    ensures layers::<T>(cache, depth)
{
    assert forall|t: T| #[trigger] t.valid() implies layer(t, cache[t.number()].0 as int, depth) by {
        let entry = cache[t.number()].0 as int;
        let before = was[t.number()].0 as int;
        assert(layer(t, before, depth - 1));
        assert(grows(t, before, entry, depth));
        if near(t, (depth - 1) as nat) {
            nearer(t, (depth - 1) as nat, depth as nat);
        } else if near(t, depth as nat) {
            let m = choose|m: AxisMove| near(#[trigger] t.by(m), (depth - 1) as nat);
            let s = t.by(m);
            assert(s.valid());
            let there = was[s.number()].0 as int;
            assert(layer(s, there, depth - 1));
            if there < depth - 1 {
                assert(near(t.by(m), there as nat));
                assert(near(t, (there + 1) as nat));
                nearer(t, (there + 1) as nat, (depth - 1) as nat);
            }
            assert(undone(t, m));
            let u = choose|u: AxisMove| #[trigger] t.by(m).by(u) == t;
            assert(cache[s.by(u).number()].0 != 255);
        }
    }
}

pub open spec fn given(entry: &PartialEntry) -> bool { entry.0 != 255 }
pub open spec fn are_given<'a>() -> spec_fn(&'a PartialEntry) -> bool { |e: &'a PartialEntry| given(e) }

pub proof fn none_is_left_out(s: Seq<&PartialEntry>, keeps: spec_fn(&PartialEntry) -> bool)
    ensures s.filter(keeps).len() <= s.len(),
        s.filter(keeps).len() == s.len() <==> forall|i: int| 0 <= i < s.len() ==> keeps(#[trigger] s[i])
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        none_is_left_out(s.drop_last(), keeps);
        assert forall|i: int| 0 <= i < s.len() - 1 implies s.drop_last()[i] == #[trigger] s[i] by {}
        if forall|i: int| 0 <= i < s.len() ==> keeps(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < s.drop_last().len() implies keeps(#[trigger] s.drop_last()[i]) by { assert(keeps(s[i])); }
        }
        if s.filter(keeps).len() == s.len() {
            assert(keeps(s.last()));
            assert forall|i: int| 0 <= i < s.len() implies keeps(#[trigger] s[i]) by {
                if i < s.len() - 1 { assert(keeps(s.drop_last()[i])); }
            }
        }
    }
}

pub open spec fn entries_given(cache: Seq<PartialEntry>) -> int {
    references(cache).filter(are_given()).len() as int
}

/// If as many entries are given as there are entries, all are
pub proof fn all_given(cache: Seq<PartialEntry>)
    ensures entries_given(cache) <= cache.len(),
        entries_given(cache) == cache.len() <==> forall|i: int| 0 <= i < cache.len() ==> (#[trigger] cache[i]).0 != 255
{
    let s = references(cache);
    let keeps = are_given();
    none_is_left_out(s, keeps);
    if forall|i: int| 0 <= i < s.len() ==> keeps(#[trigger] s[i]) {
        assert forall|i: int| 0 <= i < cache.len() implies (#[trigger] cache[i]).0 != 255 by { assert(keeps(s[i])); }
    }
    if forall|i: int| 0 <= i < cache.len() ==> (#[trigger] cache[i]).0 != 255 {
        assert forall|i: int| 0 <= i < s.len() implies keeps(#[trigger] s[i]) by { assert(cache[i].0 != 255); }
    }
}

/// If all are near enough, all have entries
pub proof fn layers_are_complete<T: Pattern>(cache: Seq<PartialEntry>)
    requires numbered::<T>(), all_near::<T>(), layers::<T>(cache, 254)
    ensures entries_given(cache) == cache.len()
{
    all_given(cache);
    assert forall|i: int| 0 <= i < cache.len() implies (#[trigger] cache[i]).0 != 255 by {
        assert(taken::<T>(i));
        let t = choose|t: T| #[trigger] t.valid() && t.number() == i;
        assert(layer(t, cache[t.number()].0 as int, 254));
    }
}

/// What a complete table holds
pub open spec fn exact<T: Pattern>(table: Seq<u8>) -> bool {
    &&& table.len() == T::TOTAL_SET_SIZE
    &&& forall|t: T| #[trigger] t.valid() ==> least(t, table[t.number()] as int)
}

pub proof fn complete_layers_are_exact<T: Pattern>(cache: Seq<PartialEntry>, n: int, table: Seq<u8>)
    requires numbered::<T>(), 0 <= n < 255, layers::<T>(cache, n), entries_given(cache) == T::TOTAL_SET_SIZE, table.len() == cache.len(),
        forall|i: int| 0 <= i < table.len() ==> #[trigger] table[i] == cache[i].0
    ensures exact::<T>(table)
{
    all_given(cache);
    assert forall|t: T| #[trigger] t.valid() implies least(t, table[t.number()] as int) by {
        let i = t.number();
        assert(cache[i].0 != 255);
        assert(table[i] == cache[i].0);
        assert(layer(t, cache[i].0 as int, n));
        layer_is_least(t, table[i] as int);
    }
}

impl Reads<Vec<u8>> for Vec<PartialEntry> {
    open spec fn reads(&self, b: &Vec<u8>) -> bool {
        b@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> #[trigger] b@[i] == self@[i].0
    }
}

"""

GENERATION = "cube_n/cube3/mus/cache/generation.rs"
STORAGE = "cube_n/cube3/mus/cache/disk_storage.rs"


WRITE = """
#[verifier::external_body]
pub fn write_partial<T: Pattern>(bytes: &[u8]) -> (r: io::Result<()>)
    requires bytes@.len() == T::TOTAL_SET_SIZE
    ensures r is Ok ==> stored(T::PATH, bytes@)
{ unimplemented!() }
"""

BUILD = """
pub fn build_partial<T: Pattern>() -> (r: io::Result<Vec<u8>>)
    requires numbered::<T>(), all_near::<T>()
    ensures r matches Ok(table) ==> exact::<T>(table@) && stored(T::PATH, table@)
"""


def signature(item, types):
    """Checks that a function has these parameters (and bounds on its type, if any) and gives their names"""
    bounds = re.search(r"fn \w+<T:(.*?)>\((.*?)\)(?:->|$)", item.head)
    if bounds:
        if not {norm(lex(b)) for b in bounds.group(1).rstrip(",").split("+")} <= TRAITS:
            raise LostAnchor(f"the bounds of {item.head}")
        parameters = bounds.group(2)
    else:
        parameters = re.search(r"fn \w+\((.*?)\)(?:->|$)", item.head).group(1)
    parts = [p.split(":", 1) for p in parameters.rstrip(",").split(",")] if parameters else []
    if [p[1] for p in parts] != types:
        raise LostAnchor(f"the parameters of {item.head}")
    return [p[0] for p in parts]


def without_printing(body):
    """Drops the statements that print"""
    tokens, out, last, j = lex(body), "", 0, 0
    while j < len(tokens):
        if tokens[j].text == "print_with_timestamp" and tokens[j - 1].text in (";", "{", "}"):
            k = j
            while tokens[k].text != ";":
                k = matching(tokens, k) if tokens[k].text in "([{" else k
                k += 1
            out += body[last : tokens[j].start]
            last = tokens[k].end
            j = k
        j += 1
    return out + body[last:]


def only(body, names, struct, others):
    """Drops the statements that give other variables than these; the other fields of what is made are anything"""
    tokens, out, j = lex(body), "{", 1
    while j < len(tokens) - 1:
        if tokens[j].text == "let":
            k = j
            while tokens[k].text != ";":
                k = matching(tokens, k) if tokens[k].text in "([{" else k
                k += 1
            name = tokens[j + 1].text
            if tokens[j + 2].text not in ("=", ":"):
                raise LostAnchor("a pattern")
            if name in names:
                out += body[tokens[j].start : tokens[k].end] + "\n"
            j = k + 1
            continue
        break
    rest = tokens[j:-1]
    if not rest or rest[0].text not in ("Self", struct) or rest[1].text != "{" or matching(rest, 1) != len(rest) - 1:
        raise LostAnchor(f"what makes {struct}")
    kept = []
    for part in _parts(rest[2:-1]):
        if part[0].text in names:
            kept.append(body[part[0].start : part[-1].end])
    return out + f"{struct} {{ " + ", ".join(kept + [f"{name}: anything()" for name in others]) + " } }"


def _parts(tokens):
    parts, j, now = [], 0, []
    while j < len(tokens):
        t = tokens[j]
        if t.text in "([{":
            k = matching(tokens, j)
            now += tokens[j : k + 1]
            j = k + 1
            continue
        if t.text == ",":
            parts.append(now)
            now = []
        else:
            now.append(t)
        j += 1
    return [p for p in parts + [now] if p]


def desugar_range(body, name, n, specification, start, after=""):
    """The `n`th `for` loop, over `a..b` or `a..`, as what it stands for: a loop that takes the next number, and counts on"""
    tokens = lex(body)
    loops = [j for j, t in enumerate(tokens) if t.kind == "ident" and t.text == "for" and tokens[j + 1].text != "<"]
    if len(loops) <= n:
        raise LostAnchor("no such loop")
    j = loops[n]
    k = j
    while tokens[k].text != "{":
        k = matching(tokens, k) if tokens[k].text in ("(", "[") else k
        k += 1
    close = matching(tokens, k)
    dots = [i for i in range(j, k) if tokens[i].text == ".."]
    if len(dots) != 1 or tokens[j + 2].text != "in":
        raise LostAnchor("a loop over a range")
    d = dots[0]
    pattern, first = tokens[j + 1].text, body[tokens[j + 2].end : tokens[d].start].strip()
    last = body[tokens[d].end : tokens[k].start].strip()
    if last:
        head = f"{{ let {name}_end = {last}; let mut {name} = {first}; while {name} < {name}_end"
    else:
        head = f"{{ let mut {name} = {first}; loop"
    count = f"let {pattern} = {name}; {start} {name} = {name} + 1;" if last else f"let {pattern} = {name}; {start}"
    # Without an end, the next number is made when it is needed
    tail = f"}} {after} }}" if last else f" {name} = {name} + 1; }} {after} }}"
    if not last and any(t.text == "continue" for t in tokens[k:close]):
        raise LostAnchor("continue in a loop without an end")
    return (body[: tokens[j].start] + head + "\n" + specification + f"\n{{ {count} " + body[tokens[k].end : tokens[close].start] + tail
            + body[tokens[close].end :])


def unit():
    source = Source(GENERATION)
    functions = []

    def take(item):
        functions.append(item)
        return item

    text = PRELUDE + WRITE
    # The entries
    m = re.search(r"struct PartialEntry\((\w+)\);", source.text)
    if not m or m.group(1) != "u8":
        raise LostAnchor("PartialEntry")
    entry = source.impl(r"^impl PartialEntry$")
    none, get = take(entry.fn("none")), take(entry.fn("get"))
    if none.head != "fn none()->Self" or get.head != "fn get(&self)->Option<u8>":
        raise LostAnchor("the entries")
    text += f"""
#[derive(PartialEq, Eq, Structural)]
pub struct PartialEntry(pub u8);

impl PartialEntry {{
    fn none() -> (r: Self)
        ensures r.0 == 255
    {none.body}

    fn get(&self) -> (r: Option<u8>)
        ensures r == if self.0 == 255 {{ None }} else {{ Some(self.0) }}
    {get.body}
}}
"""
    # How many there are
    amount = take(source.fn("amount_cached"))
    (cache,) = signature(amount, ["&[PartialEntry]"])
    body = amount.body
    body = re.sub(rf"\b{cache}\s*\.\s*iter\(\)", f"items_of({cache})", body)
    body = with_closures(body, [("", ["&&PartialEntry"], "-> (kept: bool) ensures kept == given(*$0)")])
    text += f"""
fn amount_cached({cache}: &[PartialEntry]) -> (r: usize)
    ensures r == entries_given({cache}@)
{{
    assert(references({cache}@).filter(are_given()).len() == entries_given({cache}@));
    let r = {body};
    r
}}
"""
    stats = source.item("struct", "Stats")
    kinds = dict(fields(stats))
    if kinds.get("amount_cached") != "usize":
        raise LostAnchor("the statistics")
    others = {name: kind for name, kind in kinds.items() if kind in ("f64", "f32", "Duration")}
    new = take(source.impl(r"^impl Stats$").fn("new"))
    names = signature(new, ["&Vec<PartialEntry>", "DateTime<Local>"])
    text += f"""
pub struct Stats {{ pub amount_cached: usize, {", ".join(f"pub {name}: {kind}" for name, kind in others.items())} }}

#[verifier::external_body]
fn anything<V>() -> V {{ unimplemented!() }}

pub struct Duration {{ pub milliseconds: i64 }}

impl Stats {{
    fn new({names[0]}: &Vec<PartialEntry>, {names[1]}: DateTime<Local>) -> (r: Self)
        ensures r.amount_cached == entries_given({names[0]}@)
    {only(new.body, ["amount_cached"], "Stats", others)}
}}
"""
    # The next layer
    layer = take(source.fn("cache_neighbours_at_depth"))
    cache, depth = signature(layer, ["&mut[PartialEntry]", "u8"])
    holds = f"""numbered::<T>(), 1 <= {depth} < 255, was.len() == T::TOTAL_SET_SIZE, layers::<T>(was, {depth} - 1),
            growing::<T>(was, {cache}@, {depth} as int),"""
    body = desugar_range(layer.body, "next", 0, f"""
        invariant next_end == T::TOTAL_SET_SIZE, 0 <= next <= next_end, {holds}
            grown::<T>(was, {cache}@, {depth} as int, next as int),
        decreases next_end - next
    """, f"""
        let ghost number = next as int;
        proof {{
            assert(taken::<T>(number));
            let t = choose|t: T| #[trigger] t.valid() && t.number() == number;
            assert(grows(t, was[number].0 as int, {cache}@[number].0 as int, {depth} as int));
        }}""")
    body = desugar_for(body, "each", f"""{holds} next_end == T::TOTAL_SET_SIZE, number == next - 1, 0 <= number < T::TOTAL_SET_SIZE,
            state.valid(), state.number() == number, was[number].0 == {depth} - 1,
            forall|m: AxisMove| #[trigger] each_all.contains(m),
            grown::<T>(was, {cache}@, {depth} as int, number),
            grown_by({cache}@, state, each_all, each_n),""", """
            proof {
                assert(layer(state, was[number].0 as int, """ + depth + """ - 1));
                next_to(state, each_all[each_n - 1], (""" + depth + """ - 1) as nat);
            }""", n=0, after=f"""
            proof {{
                assert forall|m: AxisMove| {cache}@[(#[trigger] state.by(m)).number()].0 != 255 by {{
                    assert(each_all.contains(m));
                    let k = choose|k: int| 0 <= k < each_all.len() && each_all[k] == m;
                    assert({cache}@[state.by(each_all[k]).number()].0 != 255);
                }}
            }}""")
    text += f"""
fn cache_neighbours_at_depth<T: Pattern>({cache}: &mut [PartialEntry], {depth}: u8)
    requires numbered::<T>(), 1 <= {depth} < 255, layers::<T>(old({cache})@, {depth} - 1)
    ensures layers::<T>(final({cache})@, {depth} as int)
{{
    let ghost was = {cache}@;
    {body}
    proof {{ next_layer::<T>(was, {cache}@, {depth} as int); }}
}}
"""
    build = take(source.fn("build_partial"))
    signature(build, [])
    body = without_printing(build.body)
    body = re.sub(r"vec!\[(.*?);(.*?)\]", r"repeated(\1, \2)", body)
    body = desugar_range(body, "next", 0, f"""
        invariant 1 <= next <= 255, numbered::<T>(), all_near::<T>(), layers::<T>(cache@, next - 1),
        ensures numbered::<T>(), 1 <= next <= 255, layers::<T>(cache@, next - 1), entries_given(cache@) == T::TOTAL_SET_SIZE,
        decreases 255 - next
    """, "proof { if next == 255 { layers_are_complete::<T>(cache@); } }", """
        proof {
            assert forall|table: Vec<u8>| cache.reads(&table) implies #[trigger] exact::<T>(table@) by {
                complete_layers_are_exact::<T>(cache@, next - 1, table@);
            }
        }""")
    body = body.replace("{", "{ " + """
    proof {
        assert forall|cache: Seq<PartialEntry>| cache.len() == T::TOTAL_SET_SIZE && cache[0].0 == 0
            && (forall|i: int| 0 < i < cache.len() ==> (#[trigger] cache[i]).0 == 255) implies #[trigger] layers::<T>(cache, 0) by {
            first_layer::<T>(cache);
        }
    }""", 1)
    text += BUILD + body
    return text + "\n} // verus!\nfn main() {}\n", functions


def refusing(body):
    """A panic as a call of what does not return"""
    tokens, out, last = lex(body), "", 0
    for j, t in enumerate(tokens):
        if t.text == "panic" and tokens[j + 1].text == "!":
            out += body[last : t.start] + "refuse()"
            last = tokens[matching(tokens, j + 2)].end
    return out + body[last:]


def loading():
    """Tables are loaded, or built and stored: with all of their entries, and each from the file of its kind"""
    source = Source(STORAGE)
    functions = []

    def take(name, head):
        item = source.fn(name)
        signature(item, [t for _, t in head])
        functions.append(item)
        return refusing(without_printing(item.body)), signature(item, [t for _, t in head])

    paths = {}
    for kind in ("CornersMUS", "HalfEdgesMUS"):
        found = re.search(r'const PATH:&\'static str=("[^"]*");', norm(lex(source.impl(rf"^impl DiskCacheable for {kind}$").body)))
        if not found:
            raise LostAnchor(f"the file of {kind}")
        paths[kind] = found.group(1)
    cache = dict(fields(Source("cube_n/cube3/mus/cache/mod.rs").item("struct", "Cache")))
    if cache != {"edges": "Vec<u8>", "corners": "Vec<u8>"}:
        raise LostAnchor("Cache")
    text = PRELUDE + "pub struct PartialEntry(pub u8);\n#[verifier::external_body]" + BUILD + "{ unimplemented!() }\n"
    for kind, size in (("CornersMUS", 88179840), ("HalfEdgesMUS", 42577920)):
        text += f"""
#[verifier::external_body]
pub struct {kind} {{ s: u8 }}
impl Pattern for {kind} {{
    const TOTAL_SET_SIZE: usize = {size};
    const PATH: &'static str = {paths[kind]};
    uninterp spec fn valid(&self) -> bool;
    uninterp spec fn number(&self) -> int;
    uninterp spec fn by(&self, m: AxisMove) -> Self;
    #[verifier::external_body]
    fn index(&self) -> (r: usize) {{ unimplemented!() }}
    #[verifier::external_body]
    fn from_index(index: usize) -> (r: Self) {{ unimplemented!() }}
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) {{ unimplemented!() }}
    #[verifier::external_body]
    fn moved(self, m: &AxisMove) -> (r: Self) {{ unimplemented!() }}
}}
"""
    text += """
pub struct Cache { pub edges: Vec<u8>, pub corners: Vec<u8> }

pub proof fn each_kind_has_a_file()
    ensures CornersMUS::PATH@ != HalfEdgesMUS::PATH@
{
    reveal_strlit(%s);
    reveal_strlit(%s);
    assert(CornersMUS::PATH@.len() != HalfEdgesMUS::PATH@.len() || exists|i: int| 0 <= i < CornersMUS::PATH@.len() && CornersMUS::PATH@[i] != HalfEdgesMUS::PATH@[i]);
}

/// A table as it was stored
pub open spec fn loaded<T: Pattern>(table: Seq<u8>) -> bool {
    table.len() == T::TOTAL_SET_SIZE && there(T::PATH) && table == contents(T::PATH)
}

/// A table as it was stored if there is one, and a new one otherwise
pub open spec fn usable<T: Pattern>(table: Seq<u8>) -> bool {
    if there(T::PATH) { loaded::<T>(table) } else { exact::<T>(table) && stored(T::PATH, table) }
}
""" % (paths["CornersMUS"], paths["HalfEdgesMUS"])
    body, (given,) = take("assert_correct_cache_size", [("given", "usize")])
    text += f"""
fn assert_correct_cache_size<T: Pattern>({given}: usize)
    ensures {given} == T::TOTAL_SET_SIZE
{body}
"""
    body, _ = take("load_partial", [])
    text += f"""
pub fn load_partial<T: Pattern>() -> (r: io::Result<Vec<u8>>)
    ensures r matches Ok(table) ==> loaded::<T>(table@),
        r matches Err(e) ==> (e.of() == io::ErrorKind::NotFound <==> !there(T::PATH)),
{body}
"""
    body, (table,) = take("write_partial", [("bytes", "&[u8]")])
    text += f"""
pub fn write_partial<T: Pattern>({table}: &[u8]) -> (r: io::Result<()>)
    ensures r is Ok ==> stored(T::PATH, {table}@)
{body}
"""
    body, _ = take("load_or_build_partial", [])
    text += f"""
fn load_or_build_partial<T: Pattern>() -> (r: io::Result<Vec<u8>>)
    requires numbered::<T>(), all_near::<T>()
    ensures r matches Ok(table) ==> usable::<T>(table@)
{body}
"""
    body, _ = take("load", [])
    text += f"""
pub fn load() -> (r: io::Result<Cache>)
    ensures r matches Ok(c) ==> loaded::<HalfEdgesMUS>(c.edges@) && loaded::<CornersMUS>(c.corners@)
{body}
"""
    body, _ = take("load_or_build", [])
    text += f"""
pub fn load_or_build() -> (r: io::Result<Cache>)
    requires numbered::<HalfEdgesMUS>(), all_near::<HalfEdgesMUS>(), numbered::<CornersMUS>(), all_near::<CornersMUS>()
    ensures r matches Ok(c) ==> usable::<HalfEdgesMUS>(c.edges@) && usable::<CornersMUS>(c.corners@)
{body}
"""
    return text + "\n} // verus!\nfn main() {}\n", functions

"""Printing and parsing: what is printed for a move or an alg is read as that move or alg, and of all other texts exactly those that are
notations are read (as what they are notations of), the rest is refused. For all texts.

The grammar (grammar/cube_n.pest) is translated into specifications as it is on each run, by what pest says of its operators. What the extraction
changes: `write!` becomes what it writes in order; a `match` with texts or constants as patterns becomes a chain of `if`; a text that is parsed
as a number is one character; the blocks of the macro `impl_with_current_rule!` become functions."""
import os
import re

from lib.rustsrc import SRC, LostAnchor, Source, closures, lex, matching, norm, split_at_commas, with_closures
from verus.sets import END, PRELUDE

CONTRACTS = """
// The standard library

#[verifier::external_body]
pub struct FormatError { e: u8 }
/// What has been written (to a text, so that it never fails)
#[verifier::external_body]
pub struct Formatter { f: u8 }
impl Formatter {
    pub uninterp spec fn text(self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FormatError>)
        ensures r is Ok, final(self).text() == old(self).text() + s@
    { unimplemented!() }
}
pub trait Display: Sized {
    spec fn shown(self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FormatError>)
        ensures r is Ok, final(f).text() =~= old(f).text() + self.shown();
}
#[verifier::external_body]
pub fn text_of<T: Display>(x: &T) -> (r: String)
    ensures r@ == x.shown()
{ unimplemented!() }
impl Display for String {
    open spec fn shown(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FormatError>) { unimplemented!() }
}
/// Digits
pub uninterp spec fn decimal(n: nat) -> Seq<char>;
impl Display for u64 {
    open spec fn shown(self) -> Seq<char> { decimal(self as nat) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FormatError>) { unimplemented!() }
}
#[verifier::external_body]
pub fn same_text(a: &str, b: &str) -> (r: bool)
    ensures r == (a@ =~= b@)
{ unimplemented!() }
/// `char::is_whitespace`
pub uninterp spec fn other_space(c: char) -> bool;
pub open spec fn is_space(c: char) -> bool { c == ' ' || other_space(c) }
pub open spec fn graphic(c: char) -> bool { '!' <= c && c <= '~' }
#[verifier::external_body]
pub proof fn graphic_is_no_space()
    ensures forall|c: char| graphic(c) ==> !#[trigger] other_space(c)
{ }
/// Characters at the start that are no space
pub open spec fn run(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 || is_space(s[0]) { 0 } else { 1 + run(s.drop_first()) } }
pub proof fn run_fits(s: Seq<char>)
    ensures run(s) <= s.len()
    decreases s.len()
{ if s.len() > 0 && !is_space(s[0]) { run_fits(s.drop_first()); } }
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via words_end
{
    if s.len() == 0 { Seq::empty() }
    else if is_space(s[0]) { words(s.drop_first()) }
    else { seq![s.take(run(s) as int)] + words(s.skip(run(s) as int)) }
}
#[via_fn]
proof fn words_end(s: Seq<char>) { if s.len() > 0 && !is_space(s[0]) { run_fits(s); assert(run(s) >= 1); } }
pub open spec fn joined(parts: Seq<Seq<char>>, between: Seq<char>) -> Seq<char>
    decreases parts.len()
{
    if parts.len() == 0 { Seq::empty() }
    else if parts.len() == 1 { parts[0] }
    else { parts[0] + between + joined(parts.drop_first(), between) }
}
pub open spec fn is_word(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !is_space(#[trigger] s[i]) }
pub proof fn run_of_word(s: Seq<char>, w: Seq<char>, rest: Seq<char>)
    requires s == w + rest, forall|i: int| 0 <= i < w.len() ==> !is_space(#[trigger] w[i]), rest.len() == 0 || is_space(rest[0])
    ensures run(s) == w.len()
    decreases w.len()
{
    if w.len() == 0 {
        assert(s =~= rest);
    } else {
        assert(s[0] == w[0]);
        assert(s.drop_first() =~= w.drop_first() + rest);
        assert forall|i: int| 0 <= i < w.drop_first().len() implies !is_space(#[trigger] w.drop_first()[i]) by { assert(w.drop_first()[i] == w[i + 1]); }
        run_of_word(s.drop_first(), w.drop_first(), rest);
    }
}
/// Words that are joined by a space are taken apart again
pub proof fn words_come_back(parts: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < parts.len() ==> is_word(#[trigger] parts[i])
    ensures words(joined(parts, seq![' '])) =~= parts
    decreases parts.len()
{
    let s = joined(parts, seq![' ']);
    if parts.len() == 0 {
    } else if parts.len() == 1 {
        assert(is_word(parts[0]));
        assert(s =~= parts[0] + Seq::<char>::empty());
        run_of_word(s, parts[0], Seq::empty());
        assert(s.take(run(s) as int) =~= parts[0]);
        assert(s.skip(run(s) as int) =~= Seq::<char>::empty());
        assert(words(s.skip(run(s) as int)) =~= Seq::<Seq<char>>::empty());
        assert(words(s) =~= parts);
    } else {
        let rest = joined(parts.drop_first(), seq![' ']);
        assert(is_word(parts[0]));
        assert forall|i: int| 0 <= i < parts.drop_first().len() implies is_word(#[trigger] parts.drop_first()[i]) by { assert(parts.drop_first()[i] == parts[i + 1]); }
        words_come_back(parts.drop_first());
        let tail = seq![' '] + rest;
        assert(s =~= parts[0] + tail);
        run_of_word(s, parts[0], tail);
        assert(s.take(run(s) as int) =~= parts[0]);
        assert(s.skip(run(s) as int) =~= tail);
        assert(tail.drop_first() =~= rest);
        assert(words(tail) == words(rest));
        assert(seq![parts[0]] + parts.drop_first() =~= parts);
    }
}
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
#[verifier::external_body]
pub fn words_of<'a>(s: &'a str) -> (r: It<&'a str>)
    ensures texts(r.items()) == words(s@)
{ unimplemented!() }
impl It<String> {
    #[verifier::external_body]
    pub fn join(self, between: &str) -> (r: String)
        ensures r@ == joined(views(self.items()), between@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn moves_of<'a, T>(v: &'a Vec<T>) -> (r: It<&'a T>)
    ensures r.items() == references(v@)
{ unimplemented!() }
impl<A, E> It<Result<A, E>> {
    /// All, if none is an error
    #[verifier::external_body]
    pub fn collect_results(self) -> (r: Result<Vec<A>, E>)
        ensures
            r is Ok ==> r->Ok_0@.len() == self.items().len() && forall|i: int| 0 <= i < self.items().len() ==> self.items()[i] == Ok::<A, E>(#[trigger] r->Ok_0@[i]),
            r is Err ==> exists|i: int| 0 <= i < self.items().len() && (#[trigger] self.items()[i]) is Err
    { unimplemented!() }
}
/// Of UTF-8
pub uninterp spec fn bytes(s: Seq<char>) -> usize;
#[verifier::external_body]
pub proof fn bytes_tell(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures bytes(s.take(n)) == bytes(s) <==> n == s.len()
{ }
#[verifier::external_body]
pub fn length_of(s: &str) -> (r: usize)
    ensures r == bytes(s@)
{ unimplemented!() }
pub uninterp spec fn other_upper(c: char) -> char;
pub open spec fn upper(c: char) -> char {
    if c == 'r' { 'R' } else if c == 'u' { 'U' } else if c == 'f' { 'F' } else if c == 'l' { 'L' } else if c == 'd' { 'D' } else if c == 'b' { 'B' }
    else if 'a' <= c && c <= 'z' { other_upper(c) } else { c }
}
#[verifier::external_body]
pub fn uppercase_of(s: &str) -> (r: String)
    ensures r@ == s@.map_values(|c: char| upper(c))
{ unimplemented!() }
/// The characters that Unicode calls numbers, and those of them that `u32::from_str` takes
pub uninterp spec fn is_number(c: char) -> bool;
pub open spec fn digit(c: char) -> Option<u32> {
    if c == '0' { Some(0) } else if c == '1' { Some(1) } else if c == '2' { Some(2) } else if c == '3' { Some(3) } else if c == '4' { Some(4) }
    else if c == '5' { Some(5) } else if c == '6' { Some(6) } else if c == '7' { Some(7) } else if c == '8' { Some(8) } else if c == '9' { Some(9) } else { None }
}
#[verifier::external_body]
pub proof fn numbers_of_ascii()
    ensures forall|c: char| 0 <= c as u32 && (c as u32) < 128 ==> #[trigger] is_number(c) == (digit(c) is Some)
{ }
#[verifier::external_body]
pub fn parse_u32(s: &str) -> (r: Result<u32, ParseError>)
    requires s@.len() == 1
    ensures same_as(r, digit(s@[0]))
{ unimplemented!() }

// pest

pub mod pest {
    pub mod error {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Error { e: u8 }
        pub enum ErrorVariant { CustomError { message: String } }
        impl Error {
            #[verifier::external_body]
            pub fn new_from_span(variant: ErrorVariant, span: super::super::Span) -> (r: Error) { unimplemented!() }
        }
    }
}
pub enum WideMoveCreationError { ExcededDepth(u32, u32) }
pub enum ParseError { Pest(Box<pest::error::Error>), Unreachable(String), NumParseError(u8), UnexpectedEndOfTokens, Uknown(u8) }
impl ParseError {
    #[verifier::external_body]
    pub fn uknown(e: WideMoveCreationError) -> (r: ParseError) { unimplemented!() }
}
pub open spec fn same_as<T, E>(r: Result<T, E>, is: Option<T>) -> bool {
    match r { Ok(x) => is == Some(x), Err(_) => is is None }
}

/// What a rule gives: the characters that it takes, and what they are made of
pub ghost struct Node { pub rule: Rule, pub text: Seq<char>, pub inner: Seq<Node> }
pub type Parsed = Option<(int, Seq<Node>)>;
pub open spec fn literal(s: Seq<char>, c: char) -> Parsed { if s.len() > 0 && s[0] == c { Some((1, Seq::empty())) } else { None } }
pub open spec fn nothing() -> Parsed { Some((0, Seq::empty())) }
pub open spec fn number(s: Seq<char>) -> Parsed { if s.len() > 0 && is_number(s[0]) { Some((1, Seq::empty())) } else { None } }
pub open spec fn node(rule: Rule, s: Seq<char>, p: Parsed) -> Parsed {
    match p { Some((n, inner)) => Some((n, seq![Node { rule, text: s.take(n), inner }])), None => None }
}
pub open spec fn made(p: Parsed, n: Node) -> bool { p matches Some((_, nodes)) && nodes.len() == 1 && nodes[0] == n }

#[verifier::external_body]
pub struct Span { s: u8 }
impl Span {
    pub uninterp spec fn to(self) -> usize;
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.to() { unimplemented!() }
}
#[verifier::external_body]
pub struct Pair { p: u8 }
impl Pair {
    pub uninterp spec fn node(self) -> Node;
    pub uninterp spec fn to(self) -> usize;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.node().text { unimplemented!() }
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: Rule) ensures r == self.node().rule { unimplemented!() }
    #[verifier::external_body]
    pub fn as_span(&self) -> (r: Span) ensures r.to() == self.to() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: Pairs) ensures r.rest() == self.node().inner { unimplemented!() }
}
#[verifier::external_body]
pub struct Pairs { p: u8 }
impl Pairs {
    pub uninterp spec fn rest(self) -> Seq<Node>;
    /// Where the first one ends
    pub uninterp spec fn to(self) -> usize;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Pair>)
        ensures match r {
            Some(p) => old(self).rest().len() > 0 && p.node() == old(self).rest()[0] && p.to() == old(self).to() && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        }
    { unimplemented!() }
}
/// `CubeNParser::parse`
#[verifier::external_body]
pub fn pest_parse(rule: Rule, s: &str) -> (r: Result<Pairs, ParseError>)
    ensures match r {
        Ok(pairs) => by_rule(rule, s@) matches Some((n, nodes)) && pairs.rest() == nodes && pairs.to() == bytes(s@.take(n)),
        Err(_) => by_rule(rule, s@) is None,
    }
{ unimplemented!() }

// Moves

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Axis { X, Y, Z }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Direction { Positive, Negative }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Amount { Single, Double, Inverse }
#[derive(PartialEq, Eq, Structural)]
pub struct Face { pub axis: Axis, pub direction: Direction }
#[derive(PartialEq, Eq, Structural)]
pub struct AxisMove { pub face: Face, pub amount: Amount }
#[derive(PartialEq, Eq, Structural)]
pub struct AxisRotation { pub axis: Axis, pub amount: Amount }
pub struct WideAxisMove<const N: u32> { pub depth: u32, pub axis_move: AxisMove }
pub enum ExtendedAxisMove { Regular(AxisMove), Rotation(AxisRotation), Wide(WideAxisMove<4294967295>), Slice { rot: AxisRotation, wide: bool } }
#[verifier::external_body]
pub struct NonRedundantAxisMove { m: u8 }
pub struct Alg<M> { pub moves: Vec<M> }
impl NonRedundantAxisMove {
    pub uninterp spec fn turns(self) -> Seq<AxisMove>;
    /// kani/src/moves.rs: `non_redundant_moves_are_its_moves`
    #[verifier::external_body]
    pub fn moves(&self) -> (r: It<AxisMove>) ensures r.items() == self.turns() { unimplemented!() }
}
impl Amount {
    /// `self * direction` (kani/src/space.rs: `amounts_are_quarter_turns`)
    #[verifier::external_body]
    pub fn times(self, d: Direction) -> (r: Amount) ensures r == match d { Direction::Positive => self, Direction::Negative => opposite(self) } { unimplemented!() }
}
pub open spec fn opposite(a: Amount) -> Amount {
    match a { Amount::Single => Amount::Inverse, Amount::Double => Amount::Double, Amount::Inverse => Amount::Single }
}

// The notation

pub open spec fn face(axis: Axis, direction: Direction) -> Face { Face { axis, direction } }
pub open spec fn face_of(c: char) -> Option<Face> {
    if c == 'R' { Some(face(Axis::X, Direction::Positive)) } else if c == 'L' { Some(face(Axis::X, Direction::Negative)) }
    else if c == 'U' { Some(face(Axis::Y, Direction::Positive)) } else if c == 'D' { Some(face(Axis::Y, Direction::Negative)) }
    else if c == 'F' { Some(face(Axis::Z, Direction::Positive)) } else if c == 'B' { Some(face(Axis::Z, Direction::Negative)) } else { None }
}
pub open spec fn letter(f: Face) -> char {
    match (f.axis, f.direction) {
        (Axis::X, Direction::Positive) => 'R', (Axis::X, Direction::Negative) => 'L', (Axis::Y, Direction::Positive) => 'U',
        (Axis::Y, Direction::Negative) => 'D', (Axis::Z, Direction::Positive) => 'F', (Axis::Z, Direction::Negative) => 'B',
    }
}
pub open spec fn mark(a: Amount) -> Seq<char> {
    match a { Amount::Single => Seq::empty(), Amount::Double => seq!['2'], Amount::Inverse => seq!['\\''] }
}
pub open spec fn small_face_of(c: char) -> Option<Face> {
    if c == 'r' || c == 'l' || c == 'u' || c == 'd' || c == 'f' || c == 'b' { face_of(upper(c)) } else { None }
}
pub open spec fn face_text(t: Seq<char>) -> Option<Face> { if t.len() == 1 { face_of(t[0]) } else { None } }
pub open spec fn amount_text(t: Seq<char>) -> Option<Amount> {
    if t.len() == 0 { Some(Amount::Single) } else if t.len() == 1 && t[0] == '2' { Some(Amount::Double) }
    else if t.len() == 1 && t[0] == '\\'' { Some(Amount::Inverse) } else { None }
}
pub open spec fn axis_of(c: char) -> Option<Axis> { if c == 'x' { Some(Axis::X) } else if c == 'y' { Some(Axis::Y) } else if c == 'z' { Some(Axis::Z) } else { None } }
/// One character, and how much
pub open spec fn with_amount<A, B>(a: Option<A>, t: Seq<char>, make: spec_fn(A, Amount) -> B) -> Option<B> {
    match (a, amount_text(t)) { (Some(a), Some(amount)) => Some(make(a, amount)), _ => None }
}
pub open spec fn axis_move_text(t: Seq<char>) -> Option<AxisMove> {
    if t.len() == 0 { None } else { with_amount(face_of(t[0]), t.skip(1), |face: Face, amount: Amount| AxisMove { face, amount }) }
}
pub open spec fn rotation_text(t: Seq<char>) -> Option<AxisRotation> {
    if t.len() == 0 { None } else { with_amount(axis_of(t[0]), t.skip(1), |axis: Axis, amount: Amount| AxisRotation { axis, amount }) }
}
/// A face that is named wide, and the number of characters of that
pub open spec fn wide_face(t: Seq<char>) -> Option<(Face, int)> {
    if t.len() >= 2 && t[1] == 'w' && face_of(t[0]) is Some { Some((face_of(t[0])->Some_0, 2)) }
    else if t.len() >= 1 && small_face_of(t[0]) is Some { Some((small_face_of(t[0])->Some_0, 1)) }
    else { None }
}
pub open spec fn wide_face_text(t: Seq<char>) -> Option<Face> { match wide_face(t) { Some((f, n)) => if n == t.len() { Some(f) } else { None }, None => None } }
/// After the depth
pub open spec fn wide_text<const N: u32>(t: Seq<char>, depth: u32) -> Option<WideAxisMove<N>> {
    match wide_face(t) {
        Some((face, n)) => match amount_text(t.skip(n)) {
            Some(amount) => if depth <= N { Some(WideAxisMove { depth, axis_move: AxisMove { face, amount } }) } else { None },
            None => None,
        },
        None => None,
    }
}
pub open spec fn wide_move_text<const N: u32>(t: Seq<char>) -> Option<WideAxisMove<N>> {
    match axis_move_text(t) {
        Some(axis_move) => Some(WideAxisMove { depth: 0, axis_move }),
        None => if t.len() == 0 { None } else {
            match digit(t[0]) { Some(d) => wide_text::<N>(t.skip(1), if d > 1 { d } else { 1 }), None => wide_text::<N>(t, 1) }
        },
    }
}
pub open spec fn slice_of(c: char) -> Option<(Axis, bool)> {
    if c == 'M' { Some((Axis::X, false)) } else if c == 'm' { Some((Axis::X, true)) } else if c == 'E' { Some((Axis::Y, false)) }
    else if c == 'e' { Some((Axis::Y, true)) } else if c == 'S' { Some((Axis::Z, false)) } else if c == 's' { Some((Axis::Z, true)) } else { None }
}
pub open spec fn slice_text(t: Seq<char>) -> Option<(Axis, bool)> { if t.len() == 1 { slice_of(t[0]) } else { None } }
/// M turns as L does, E as D, and S as F
pub open spec fn slice_move_text(t: Seq<char>) -> Option<(AxisRotation, bool)> {
    if t.len() == 0 { None } else {
        with_amount(slice_of(t[0]), t.skip(1), |s: (Axis, bool), amount: Amount| (AxisRotation { axis: s.0, amount: if s.0 == Axis::Z { amount } else { opposite(amount) } }, s.1))
    }
}
pub open spec fn extended_text(t: Seq<char>) -> Option<ExtendedAxisMove> {
    match wide_move_text::<4294967295>(t) {
        Some(m) => Some(if m.depth == 0 { ExtendedAxisMove::Regular(m.axis_move) } else { ExtendedAxisMove::Wide(m) }),
        None => match rotation_text(t) {
            Some(r) => Some(ExtendedAxisMove::Rotation(r)),
            None => match slice_move_text(t) { Some((rot, wide)) => Some(ExtendedAxisMove::Slice { rot, wide }), None => None },
        },
    }
}

// Parsing

pub trait Parsable: Sized {
    /// What a text says
    spec fn said(t: Seq<char>) -> Option<Self>;
    fn parse(s: &str) -> (r: Result<Self, ParseError>)
        ensures same_as(r, Self::said(s@));
}
pub trait Notation: Sized {
    spec fn notation(t: Seq<char>) -> Option<Self>;
    spec fn grammar(s: Seq<char>) -> Parsed;
    proof fn texts_fit(s: Seq<char>)
        ensures
            Self::notation(s) is Some ==> Self::grammar(s) is Some && Self::grammar(s)->Some_0.0 == s.len(),
            Self::grammar(s) matches Some((n, nodes)) ==> 0 <= n <= s.len() && nodes.len() == 1 && nodes[0].text == s.take(n);
}
pub trait FromPest: Notation {
    fn rule() -> (r: Rule)
        ensures forall|s: Seq<char>| by_rule(r, s) == #[trigger] Self::grammar(s);
    fn from_pest(pair: Pair) -> (r: Result<Self, ParseError>)
        requires fits::<Self>(pair.node())
        ensures same_as(r, Self::notation(pair.node().text));
}
/// The node is one of that kind
pub open spec fn fits<T: Notation>(n: Node) -> bool { exists|s: Seq<char>| made(#[trigger] T::grammar(s), n) }
pub trait IntoParseErr: Sized {
    spec fn pair(self) -> Option<Pair>;
    fn into_err(self) -> (r: Result<Pair, ParseError>)
        ensures same_as(r, self.pair());
}
"""

# The children of nodes, as the grammar gives them
CHILDREN = """
pub proof fn tokens()
    ensures
        !is_number('R') && !is_number('U') && !is_number('F') && !is_number('L') && !is_number('D') && !is_number('B'),
        !is_number('r') && !is_number('u') && !is_number('f') && !is_number('l') && !is_number('d') && !is_number('b'),
        !is_number('x') && !is_number('y') && !is_number('z') && !is_number('M') && !is_number('E') && !is_number('S') && !is_number('m')
            && !is_number('e') && !is_number('s'),
        forall|c: char| #[trigger] digit(c) is Some ==> is_number(c)
{
    numbers_of_ascii();
}
/// Two parts, of which the first has one character
pub open spec fn two<A: Notation, B: Notation>(n: Node) -> bool {
    &&& n.inner.len() == 2
    &&& fits::<A>(n.inner[0]) && fits::<B>(n.inner[1])
    &&& n.inner[0].text.len() == 1 && n.text =~= n.inner[0].text + n.inner[1].text
    &&& n.text.skip(1) =~= n.inner[1].text
}
pub proof fn axis_move_is_of_two(n: Node)
    requires fits::<AxisMove>(n)
    ensures two::<Face, Amount>(n)
{
    let s = choose|s: Seq<char>| made(#[trigger] <AxisMove as Notation>::grammar(s), n);
    assert(made(<Face as Notation>::grammar(s), n.inner[0]));
    assert(made(<Amount as Notation>::grammar(s.skip(1)), n.inner[1]));
}
pub proof fn rotation_is_of_two(n: Node)
    requires fits::<AxisRotation>(n)
    ensures two::<Axis, Amount>(n)
{
    let s = choose|s: Seq<char>| made(#[trigger] <AxisRotation as Notation>::grammar(s), n);
    assert(made(<Axis as Notation>::grammar(s), n.inner[0]));
    assert(made(<Amount as Notation>::grammar(s.skip(1)), n.inner[1]));
}
pub open spec fn is_slice_move(n: Node) -> bool { exists|s: Seq<char>| made(#[trigger] g_slice_move(s), n) }
pub proof fn slice_move_is_of_two(n: Node)
    requires is_slice_move(n)
    ensures
        n.inner.len() == 2, fits::<Amount>(n.inner[1]), n.inner[0].text.len() == 1, n.text =~= n.inner[0].text + n.inner[1].text,
        n.text.skip(1) =~= n.inner[1].text
{
    let s = choose|s: Seq<char>| made(#[trigger] g_slice_move(s), n);
    assert(made(<Amount as Notation>::grammar(s.skip(1)), n.inner[1]));
}
pub open spec fn is_wide_face(n: Node) -> bool { exists|s: Seq<char>| made(#[trigger] g_wide_face(s), n) }
pub proof fn wide_face_is_of_one(n: Node)
    requires is_wide_face(n)
    ensures
        n.inner.len() == 1, n.inner[0].text =~= n.text.take(1),
        wide_face(n.text) is Some && wide_face(n.text)->Some_0.1 == n.text.len(),
        face_text(n.inner[0].text.map_values(|c: char| upper(c))) == wide_face_text(n.text)
{
    let s = choose|s: Seq<char>| made(#[trigger] g_wide_face(s), n);
    assert(n.inner[0].text[0] == n.text[0]);
}
pub open spec fn is_wide_move(n: Node) -> bool { exists|s: Seq<char>| made(#[trigger] g_wide_move(s), n) }
pub proof fn faces_are_characters(s: Seq<char>)
    ensures match g_face(s) {
        Some((n, nodes)) => n == 1 && s.len() > 0 && face_of(s[0]) is Some && nodes.len() == 1 && nodes[0].text == s.take(1) && nodes[0].rule == Rule::face,
        None => s.len() == 0 || face_of(s[0]) is None,
    }
{ }
pub proof fn depths_are_characters(s: Seq<char>)
    ensures g_depth(s) matches Some((n, nodes)) && n == (if s.len() > 0 && is_number(s[0]) { 1int } else { 0 }) && nodes.len() == 1 && nodes[0].text == s.take(n)
        && nodes[0].rule == Rule::depth
{ }
pub proof fn amounts_are_characters(s: Seq<char>)
    ensures g_amount(s) matches Some((n, nodes)) && 0 <= n <= s.len() && nodes.len() == 1 && nodes[0].text == s.take(n) && amount_text(s.take(n)) is Some
{ }
pub proof fn wide_faces_are_characters(s: Seq<char>)
    ensures match g_wide_face(s) {
        Some((n, nodes)) => 0 < n <= 2 && n <= s.len() && nodes.len() == 1 && nodes[0].text == s.take(n) && wide_face(s) == Some((wide_face(s)->Some_0.0, n)),
        None => wide_face(s) is None,
    }
{ }
/// Only the start counts
pub proof fn wide_faces_are_at_the_start(t: Seq<char>, rest: Seq<char>)
    requires wide_face(t) is Some, wide_face(t)->Some_0.1 == t.len(), t.len() == 1 ==> rest.len() == 0 || rest[0] != 'w'
    ensures wide_face(t + rest) == wide_face(t)
{
    assert((t + rest)[0] == t[0]);
    if t.len() == 2 { assert((t + rest)[1] == t[1]); } else if rest.len() > 0 { assert((t + rest)[1] == rest[0]); }
}
pub proof fn faces_are_letters(c: char)
    ensures face_of(c) is Some ==> !is_number(c) && digit(c) is None && small_face_of(c) is None, small_face_of(c) is Some ==> !is_number(c) && digit(c) is None && face_of(c) is None
{ tokens(); }
pub proof fn wide_move_is_of_two_or_three(n: Node)
    requires is_wide_move(n)
    ensures
        n.inner.len() == 2 ==> n.inner[0].rule == Rule::face && two::<Face, Amount>(n) && n.inner[0].text.len() == 1 && n.text.len() > 0
            && n.text[0] == n.inner[0].text[0] && face_of(n.text[0]) is Some && amount_text(n.inner[1].text) is Some,
        n.inner.len() == 3 ==> n.inner[0].rule == Rule::depth && fits::<u32>(n.inner[0]) && is_wide_face(n.inner[1]) && fits::<Amount>(n.inner[2])
            && n.text.len() > 0 && axis_move_text(n.text) is None
            && n.inner[0].text.len() <= 1
            && (n.inner[0].text.len() == 0 ==> digit(n.text[0]) is None && n.text == n.inner[1].text + n.inner[2].text)
            && (n.inner[0].text.len() == 1 ==> is_number(n.text[0]) && face_of(n.text[0]) is None && small_face_of(n.text[0]) is None
                && n.inner[0].text[0] == n.text[0] && n.text.skip(1) == n.inner[1].text + n.inner[2].text)
            && wide_face(n.inner[1].text + n.inner[2].text) == wide_face(n.inner[1].text)
            && (n.inner[1].text + n.inner[2].text).skip(n.inner[1].text.len() as int) == n.inner[2].text,
        n.inner.len() == 2 || n.inner.len() == 3
{
    hide(g_face); hide(g_depth); hide(g_wide_face); hide(g_amount); hide(face_of); hide(small_face_of); hide(wide_face); hide(digit); hide(amount_text);
    tokens();
    let s = choose|s: Seq<char>| made(#[trigger] g_wide_move(s), n);
    depths_are_characters(s);
    faces_are_characters(s);
    let d = g_depth(s)->Some_0.0;
    let rest = s.skip(d);
    wide_faces_are_characters(rest);
    if g_wide_face(rest) is Some {
        let f = g_wide_face(rest)->Some_0.0;
        let end = rest.skip(f);
        amounts_are_characters(end);
        let m = g_amount(end)->Some_0.0;
        assert(s.skip(d + f) =~= end);
        assert(n.inner.len() == 3);
        assert(n.inner[0] == g_depth(s)->Some_0.1[0]);
        assert(n.inner[1] == g_wide_face(rest)->Some_0.1[0]);
        assert(n.inner[2] == g_amount(end)->Some_0.1[0]);
        assert(made(<u32 as Notation>::grammar(s), n.inner[0]));
        assert(made(g_wide_face(rest), n.inner[1]));
        assert(is_wide_face(n.inner[1]));
        wide_face_is_of_one(n.inner[1]);
        assert(made(<Amount as Notation>::grammar(end), n.inner[2]));
        let t = n.inner[1].text + n.inner[2].text;
        assert(n.text == s.take(d + f + m));
        assert(n.inner[1].text =~= rest.take(f));
        assert(n.inner[2].text =~= end.take(m));
        assert(t =~= rest.take(f + m));
        assert(wide_face(t) == wide_face(n.inner[1].text)) by { reveal(wide_face); assert(t[0] == rest[0]); }
        assert(t.skip(f) =~= n.inner[2].text);
        assert(t.len() > 0 && t[0] == rest[0]);
        wide_face_starts(t);
        if d == 0 {
            assert(n.text =~= t);
            faces_are_letters(n.text[0]);
            assert(axis_move_text(n.text) is None) by {
                if face_of(n.text[0]) is Some {
                    // followed by a `w`
                    assert(f == 2 && t[1] == 'w');
                    assert(n.text.skip(1)[0] == 'w');
                    reveal(amount_text);
                }
            }
        } else {
            assert(n.text[0] == s[0]);
            assert(n.text.skip(1) =~= t);
            faces_are_letters(n.text[0]);
            assert(n.inner[0].text[0] == s[0]);
        }
    } else {
        let end = s.skip(1);
        amounts_are_characters(end);
        assert(n.inner.len() == 2);
        assert(n.inner[0] == g_face(s)->Some_0.1[0]);
        assert(n.inner[1] == g_amount(end)->Some_0.1[0]);
        assert(made(<Face as Notation>::grammar(s), n.inner[0]));
        assert(made(<Amount as Notation>::grammar(end), n.inner[1]));
        assert(n.text =~= n.inner[0].text + n.inner[1].text);
        assert(n.text.skip(1) =~= n.inner[1].text);
        assert(n.text[0] == s[0]);
    }
}
pub proof fn wide_face_starts(t: Seq<char>)
    requires wide_face(t) is Some
    ensures
        face_of(t[0]) is Some ==> wide_face(t)->Some_0.1 == 2 && t.len() >= 2 && t[1] == 'w',
        face_of(t[0]) is None ==> small_face_of(t[0]) is Some
{ faces_are_letters(t[0]); }
pub open spec fn one_character(t: Seq<char>) -> Option<u32> { if t.len() == 0 { Some(0u32) } else if t.len() == 1 { digit(t[0]) } else { None } }
pub open spec fn wide_of<const N: u32>(depth: u32, face: Option<Face>, amount: Option<Amount>) -> Option<WideAxisMove<N>> {
    match (face, amount) {
        (Some(face), Some(amount)) => if depth <= N { Some(WideAxisMove { depth, axis_move: AxisMove { face, amount } }) } else { None },
        _ => None,
    }
}
pub proof fn wide_moves_say<const N: u32>(n: Node)
    requires fits::<WideAxisMove<N>>(n)
    ensures
        n.inner.len() == 2 ==> n.inner[0].rule == Rule::face && fits::<Face>(n.inner[0]) && fits::<Amount>(n.inner[1])
            && wide_move_text::<N>(n.text) == wide_of::<N>(0, face_text(n.inner[0].text), amount_text(n.inner[1].text)),
        n.inner.len() == 3 ==> n.inner[0].rule == Rule::depth && fits::<u32>(n.inner[0]) && is_wide_face(n.inner[1]) && fits::<Amount>(n.inner[2])
            && wide_move_text::<N>(n.text) == match one_character(n.inner[0].text) {
                Some(d) => wide_of::<N>(if d > 1 { d } else { 1 }, wide_face_text(n.inner[1].text), amount_text(n.inner[2].text)),
                None => None,
            },
        n.inner.len() == 2 || n.inner.len() == 3
{
    hide(g_face); hide(g_depth); hide(g_wide_face); hide(g_amount); hide(g_wide_move); hide(face_of); hide(small_face_of); hide(digit); hide(amount_text);
    assert(is_wide_move(n)) by {
        let s = choose|s: Seq<char>| made(#[trigger] <WideAxisMove<N> as Notation>::grammar(s), n);
        assert(made(g_wide_move(s), n));
    }
    wide_move_is_of_two_or_three(n);
    if n.inner.len() == 3 {
        wide_face_is_of_one(n.inner[1]);
        faces_are_letters(n.text[0]);
        let t = n.inner[1].text + n.inner[2].text;
        assert(wide_text::<N>(t, 1) == wide_of::<N>(1, wide_face_text(n.inner[1].text), amount_text(n.inner[2].text)));
        if n.inner[0].text.len() == 1 {
            assert(n.text.skip(1) == t);
            if digit(n.text[0]) is None {
                assert(wide_face(n.text) is None);
            }
        }
    }
}
pub proof fn starts_tell(t: Seq<char>)
    ensures
        wide_move_text::<4294967295>(t) is Some ==> rotation_text(t) is None && slice_move_text(t) is None,
        rotation_text(t) is Some ==> slice_move_text(t) is None,
{ }
pub proof fn extended_starts(s: Seq<char>)
    ensures
        g_wide_move(s) is Some ==> rotation_text(s.take(g_wide_move(s)->Some_0.0)) is None && slice_move_text(s.take(g_wide_move(s)->Some_0.0)) is None,
        g_wide_move(s) is None ==> g_axis_move(s) is None,
        g_rotation(s) is Some ==> wide_move_text::<4294967295>(s.take(g_rotation(s)->Some_0.0)) is None && slice_move_text(s.take(g_rotation(s)->Some_0.0)) is None,
        g_slice_move(s) is Some ==> wide_move_text::<4294967295>(s.take(g_slice_move(s)->Some_0.0)) is None && rotation_text(s.take(g_slice_move(s)->Some_0.0)) is None,
{
    tokens();
    <WideAxisMove<4294967295> as Notation>::texts_fit(s);
    <AxisRotation as Notation>::texts_fit(s);
}
pub proof fn extended_moves_say(n: Node)
    requires fits::<ExtendedAxisMove>(n)
    ensures
        n.inner.len() == 1,
        ({
            let t = n.inner[0].text;
            match n.inner[0].rule {
                Rule::wide_move => fits::<WideAxisMove<4294967295>>(n.inner[0]) && extended_text(n.text) == match wide_move_text::<4294967295>(t) {
                    Some(m) => Some(if m.depth == 0 { ExtendedAxisMove::Regular(m.axis_move) } else { ExtendedAxisMove::Wide(m) }),
                    None => None,
                },
                Rule::rotation => fits::<AxisRotation>(n.inner[0]) && extended_text(n.text) == match rotation_text(t) {
                    Some(r) => Some(ExtendedAxisMove::Rotation(r)), None => None,
                },
                Rule::slice_move => is_slice_move(n.inner[0]) && extended_text(n.text) == match slice_move_text(t) {
                    Some((rot, wide)) => Some(ExtendedAxisMove::Slice { rot, wide }), None => None,
                },
                _ => false,
            }
        })
{
    hide(g_axis_move); hide(g_wide_move); hide(g_rotation); hide(g_slice_move); hide(wide_move_text); hide(rotation_text); hide(slice_move_text);
    let s = choose|s: Seq<char>| made(#[trigger] <ExtendedAxisMove as Notation>::grammar(s), n);
    extended_starts(s);
    <WideAxisMove<4294967295> as Notation>::texts_fit(s);
    <AxisRotation as Notation>::texts_fit(s);
    let inner = n.inner[0];
    slice_rules(s);
    assert(inner.text =~= n.text);
    if inner.rule == Rule::wide_move { assert(made(<WideAxisMove<4294967295> as Notation>::grammar(s), inner)); }
    if inner.rule == Rule::rotation { assert(made(<AxisRotation as Notation>::grammar(s), inner)); }
    if inner.rule == Rule::slice_move { assert(made(g_slice_move(s), inner)); }
}
pub proof fn slice_rules(s: Seq<char>)
    ensures
        g_wide_move(s) matches Some((n, nodes)) ==> nodes.len() == 1 && nodes[0].rule == Rule::wide_move && nodes[0].text == s.take(n),
        g_rotation(s) matches Some((n, nodes)) ==> nodes.len() == 1 && nodes[0].rule == Rule::rotation && nodes[0].text == s.take(n),
        g_slice_move(s) matches Some((n, nodes)) ==> nodes.len() == 1 && nodes[0].rule == Rule::slice_move && nodes[0].text == s.take(n)
{ }
"""


# The grammar

class Grammar:
    def __init__(self):
        path = os.path.join(os.path.dirname(SRC), "grammar/cube_n.pest")
        if not os.path.exists(path):
            path = os.path.join(SRC, "grammar/cube_n.pest")
        try:
            self.text = open(path).read()
        except OSError as e:
            raise LostAnchor(str(e))
        self.where = os.path.relpath(path, os.path.dirname(os.path.dirname(SRC)))
        tokens = re.findall(r'"(?:\\.|[^"\\])*"|\'[^\']*\'|[A-Za-z_]\w*|//[^\n]*|\s+|.', self.text)
        self.tokens = [t for t in tokens if t.strip() and not t.startswith("//")]
        self.rules, i = {}, 0
        while i < len(self.tokens):
            name, i = self.tokens[i], i + 1
            if self.tokens[i] != "=":
                raise LostAnchor("the grammar is written otherwise")
            kind, i = "", i + 1
            while self.tokens[i] != "{":
                kind, i = kind + self.tokens[i], i + 1
            end = i
            depth = 1
            while depth:
                end += 1
                depth += {"{": 1, "}": -1}.get(self.tokens[end], 0)
            self.rules[name] = (kind, self.tokens[i + 1 : end])
            i = end + 1

    def used(self, name, out):
        if name in self.rules and name not in out:
            out.append(name)
            for t in self.rules[name][1]:
                self.used(t, out)
        return out

    def rule(self, name, atomic):
        """The specification of a rule. Blanks may be anywhere between the parts of rules that are not atomic: not supported"""
        kind, tokens = self.rules[name]
        if kind not in ("", "$", "@"):
            raise LostAnchor(f"rule {name} is {kind}")
        self.tokens_, self.i, self.atomic = tokens, 0, kind != "" or atomic
        body = self.choice("s")
        if self.i != len(tokens):
            raise LostAnchor(f"rule {name} is written otherwise")
        if kind == "@":
            body = f"match {body} {{ Some((n, _)) => Some((n, Seq::empty())), None => None }}"
        return f"pub open spec fn g_{name}(s: Seq<char>) -> Parsed {{ node(Rule::{name}, s, {body}) }}\n"

    def peek(self):
        return self.tokens_[self.i] if self.i < len(self.tokens_) else None

    def choice(self, s):
        parts = [self.sequence(s)]
        while self.peek() == "|":
            self.i += 1
            parts.append(self.sequence(s))
        out = parts.pop()
        while parts:
            out = f"match {parts.pop()} {{ Some(p) => Some(p), None => {out} }}"
        return out if out.startswith("match") is False else f"({out})"

    def sequence(self, s):
        start = self.i
        first = self.postfix(s)
        if self.peek() != "~":
            return first
        if not self.atomic:
            raise LostAnchor("blanks between the parts of a rule")
        self.i += 1
        n = f"n{start}_{self.i}"
        rest = self.sequence(f"{s}.skip({n})")
        return (f"(match {first} {{ None => None, Some(({n}, a{n})) => match {rest} {{ None => None, Some((m{n}, b{n})) => "
                f"Some(({n} + m{n}, a{n} + b{n})) }} }})")

    def postfix(self, s):
        out = self.atom(s)
        if self.peek() == "?":
            self.i += 1
            out = f"(match {out} {{ Some(p) => Some(p), None => nothing() }})"
        if self.peek() in ("*", "+"):
            raise LostAnchor("repetition in the grammar")
        return out

    def atom(self, s):
        t = self.peek()
        self.i += 1
        if t == "(":
            out = self.choice(s)
            if self.peek() != ")":
                raise LostAnchor("the grammar is written otherwise")
            self.i += 1
            return out
        if t and t.startswith('"'):
            t = t[1:-1]
            if "\\" in t or len(t) > 1:
                raise LostAnchor("long literals in the grammar")
            if not t:
                return "nothing()"
            return f"literal({s}, {char(t)})"
        if t == "NUMBER":
            return f"number({s})"
        if t in self.rules:
            return f"g_{t}({s})"
        raise LostAnchor(f"{t} in the grammar")


def char(c):
    return "'\\''" if c == "'" else f"'{c}'"


# The code

def arms_of(tokens, j):
    """Of the `match` at j: (first token of its block, arms as (pattern tokens, tokens of what it gives), last token)"""
    k = j + 1
    while tokens[k].text != "{":
        k = matching(tokens, k) + 1 if tokens[k].text in "([" else k + 1
    end, arms, i = matching(tokens, k), [], k + 1
    while i < end:
        a = i
        while tokens[a].text != "=>":
            a = matching(tokens, a) + 1 if tokens[a].text in ("(", "[", "{") else a + 1
        b = a + 1
        if tokens[b].text == "{":
            b = matching(tokens, b) + 1
        else:
            while b < end and tokens[b].text != ",":
                b = matching(tokens, b) + 1 if tokens[b].text in ("(", "[", "{") else b + 1
        arms.append((tokens[i:a], tokens[a + 1 : b]))
        i = b + 1 if b < end and tokens[b].text == "," else b
    return k, arms, end


def matches_of_texts(body):
    """`match` with texts, or constants, as patterns, as a chain of `if`"""
    for _ in range(20):
        tokens = lex(body)
        for j in reversed(range(len(tokens))):
            if tokens[j].text != "match":
                continue
            k, arms, end = arms_of(tokens, j)
            texts = any(t.kind == "string" for p, _ in arms for t in p)
            faces = any(re.fullmatch(r"(Face|Self) ?:: ?[A-Z]", norm(p).replace(" ", "")) or norm(p).startswith(("Face::", "Self::")) for p, _ in arms) and \
                all(re.fullmatch(r"((Face|Self)::[A-Z]\|?)+|_", norm(p).replace(" ", "")) for p, _ in arms)
            if not texts and not faces:
                continue
            of = body[tokens[j + 1].start : tokens[k - 1].end]
            out, closed = "", False
            for pattern, gives in arms:
                given = body[gives[0].start : gives[-1].end]
                words = norm(pattern).replace(" ", "") if not texts else None
                if any(t.text == "if" for t in pattern):
                    raise LostAnchor("a guard in a match of texts")
                if len(pattern) == 1 and pattern[0].kind == "ident":
                    name = pattern[0].text
                    bind = "" if name == "_" else f"let {name} = matched; "
                    out += f"{{ {bind}{given} }}"
                    closed = True
                    break
                alternatives = [t.text for t in pattern if t.kind == "string"] if texts else words.split("|")
                if texts and len(alternatives) * 2 - 1 != len(pattern):
                    raise LostAnchor("other patterns in a match of texts")
                test = " || ".join(f"same_text(matched, {a})" if texts else f"*matched == {a}" for a in alternatives)
                out += f"if {test} {{ {given} }} else "
            if not closed:
                out += "{ proof { assert(false); } vstd::pervasive::unreached() }"
            body = body[: tokens[j].start] + f"{{ let matched = {of if texts else '&(' + of + ')'}; {out} }}" + body[tokens[end].end :]
            break
        else:
            return body
    raise LostAnchor("matches of texts")


def writes(body):
    """`write!(f, "..", ..)` as what it writes, in order"""
    while True:
        tokens = lex(body)
        for j, t in enumerate(tokens):
            if t.text == "write" and tokens[j + 1].text == "!":
                end = matching(tokens, j + 2)
                parts = [p for p in split_at_commas(tokens[j + 3 : end]) if p]
                to, form = norm(parts[0]), parts[1][0].text
                args = [body[p[0].start : p[-1].end] for p in parts[2:]]
                if parts[1][0].kind != "string" or "\\" in form:
                    raise LostAnchor("another kind of format")
                out, used = "", 0
                for piece in re.findall(r"\{\{|\}\}|\{[^{}]*\}|[^{}]+", form[1:-1]):
                    if piece in ("{{", "}}"):
                        out += f'{to}.write_str("{piece[0]}")?; '
                    elif piece == "{}":
                        out += f"({args[used]}).fmt({to})?; "
                        used += 1
                    elif re.fullmatch(r"\{[a-z_]\w*\}", piece):
                        out += f"({piece[1:-1]}).fmt({to})?; "
                    elif piece.startswith("{"):
                        raise LostAnchor("another kind of format")
                    else:
                        out += f'{to}.write_str("{piece}")?; '
                if used != len(args):
                    raise LostAnchor("named arguments")
                body = body[: t.start] + f"({{ {out}Ok(()) }})" + body[tokens[end].end :]
                break
        else:
            return body


def begun(body, proof, hidden=""):
    return "{" + hidden + f"\n    proof {{ {proof} }}" + body[body.index("{") + 1 :]


def literals(body):
    """What texts in the code are"""
    seen = sorted({t.text for t in lex(body) if t.kind == "string"})
    return " ".join(f"reveal_strlit({t});" for t in seen)


class Macro:
    """A function that a macro makes"""

    def __init__(self, where, head):
        self.where, self.head = (lambda: where), head


class Code:
    def __init__(self):
        self.parser, self.faces = Source("cube_n/parser/mod.rs"), Source("cube_n/space/face.rs")
        self.consts = {}
        for m in re.finditer(r"pub const (\w+): (?:Face|Self) =\s*(?:Face|Self)::new\(([^()]*)\);", self.faces.text):
            self.consts[m.group(1)] = m.group(2)
        if len(self.consts) != 6:
            raise LostAnchor("the constants of faces")

    def plain(self, body):
        """What all functions have in common"""
        body = writes(matches_of_texts(body))
        body = re.sub(r"\bFace\s*::\s*([A-Z])\b(?!\w)", lambda m: f"Face::new({self.consts[m.group(1)]})" if m.group(1) in self.consts else m.group(0), body)
        body = re.sub(r"([\w.()?]+)\.parse::<u32>\(\)", r"parse_u32(\1)", body)
        body = re.sub(r"([\w.()?]+?)\.to_ascii_uppercase\(\)", r"uppercase_of(\1)", body)
        body = re.sub(r"\b(\w+) \* (Direction::\w+|\w*dir\w*)", r"\1.times(\2)", body)
        body = re.sub(r"debug_assert!\(((?:[^()]|\([^()]*\))*)\);", r"{ let holds = \1; proof { assert(holds); } }", body)
        return body

    def from_pest(self, kind):
        """(rule, parameter, body, where): from the macro, or written out"""
        source, short = self.parser, kind.split("<")[0]
        tokens = source.tokens
        found = []
        for j, t in enumerate(tokens):
            if t.text == "impl_with_current_rule" and tokens[j + 1].text == "!" and tokens[j + 2].text in "({":
                end = matching(tokens, j + 2)
                if tokens[j + 3].text == short and tokens[j + 4].text == ";":
                    k = j + 5
                    while tokens[k].text != ";":
                        k += 1
                    rule = norm(tokens[j + 5 : k])
                    if tokens[k + 1].text != "|" or tokens[k + 3].text != "|":
                        raise LostAnchor("the macro is called otherwise")
                    body = source.text[tokens[k + 4].start : tokens[end - 1].end]
                    line = source.text.count("\n", 0, t.start) + 1
                    where = f"{os.path.relpath(source.path, os.path.dirname(os.path.dirname(SRC)))}:{line}"
                    found.append((rule, tokens[k + 2].text, body if tokens[k + 4].text == "{" else "{ " + body + " }", where))
        if not found:
            block = source.impl(rf"FromPest for {short}(<[^>]*>)?$")
            fn, rule = block.fn("from_pest"), block.fn("rule")
            parameter = re.search(r"\((?:mut )?(\w+):", fn.head).group(1)
            found.append((norm(lex(rule.body)[1:-1]), parameter, fn.body, fn.where()))
        if len(found) != 1:
            raise LostAnchor(f"{len(found)} readings of {kind}")
        return found[0]


KINDS = {
    # kind: (rule of the grammar, notation, hints)
    "Amount": ("amount", "amount_text(t)", "", "if s.len() > 0 { assert(s =~= seq![s[0]] + s.skip(1)); }"),
    "Face": ("face", "face_text(t)", "", ""),
    "u32": ("depth", "one_character(t)", "", ""),
    "Axis": ("axis", "if t.len() == 1 { axis_of(t[0]) } else { None }", "", ""),
    "AxisMove": ("axis_move", "axis_move_text(t)", "axis_move_is_of_two($.node()); assert($.node().text[0] == $.node().inner[0].text[0]);", ""),
    "AxisRotation": ("rotation", "rotation_text(t)", "rotation_is_of_two($.node()); assert($.node().text[0] == $.node().inner[0].text[0]);", ""),
    "WideAxisMove<N>": ("wide_move", "wide_move_text::<N>(t)", """
        wide_moves_say::<N>($.node());
        """, """
        if wide_move_text::<N>(s) is Some {
            let t = if digit(s[0]) is Some { s.skip(1) } else { s };
            if axis_move_text(s) is None {
                assert(g_depth(s) is Some && s.skip(g_depth(s)->Some_0.0) =~= t);
                assert(g_wide_face(t) is Some);
                let f = g_wide_face(t)->Some_0.0;
                assert(f == wide_face(t)->Some_0.1);
                assert(s.skip(s.len() - t.len() + f) =~= t.skip(f));
            } else {
                assert(s.skip(0) =~= s);
                assert(g_wide_face(s) is None);
            }
        }
        """),
    "ExtendedAxisMove": ("extended_move", "extended_text(t)", """
        extended_moves_say($.node());
        """, """
        <WideAxisMove<4294967295> as Notation>::texts_fit(s);
        <AxisRotation as Notation>::texts_fit(s);
        """),
}


def unit():
    code, grammar = Code(), Grammar()
    generic, alg, moves = Source("generic/parse.rs"), Source("generic/alg.rs"), Source("cube_n/moves/mod.rs")
    amounts, wide, nr = Source("cube_n/moves/amount.rs"), Source("cube_n/moves/wide.rs"), Source("cube_n/moves/non_redundant.rs")
    used, functions = [], []
    for rule, *_ in KINDS.values():
        grammar.used(rule, used)
    text = PRELUDE[: PRELUDE.index("// Pieces: opaque")] + "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n#[allow(non_camel_case_types)]\npub enum Rule { " + ", ".join(sorted(used)) + " }\n"
    text += CONTRACTS + f"\n// {grammar.where}\n"
    for name in used:
        # Rules that are only used inside of atomic ones are atomic
        text += grammar.rule(name, False)
    text += "pub open spec fn by_rule(rule: Rule, s: Seq<char>) -> Parsed { match rule { " + ", ".join(f"Rule::{n} => g_{n}(s)" for n in used) + " } }\n"
    text += CHILDREN

    checked = generic.impl(r"^impl<T:FromPest>Parsable for T$").fn("parse")
    checked_body = begun(re.sub(r"\bT\s*::\s*Parser\s*::\s*parse\(", "pest_parse(", re.sub(r"\bs\.len\(\)", "length_of(s)", code.plain(checked.body))),
                         "T::texts_fit(s@); if T::grammar(s@) is Some { bytes_tell(s@, T::grammar(s@)->Some_0.0); assert(made(T::grammar(s@), T::grammar(s@)->Some_0.1[0])); assert(s@.take(s@.len() as int) =~= s@); }")
    into = generic.impl(r"IntoParseErr<Pair<'i,R>,R>for Option<Pair<'i,R>>$").fn("into_err")
    text += f"""
impl IntoParseErr for Option<Pair> {{
    open spec fn pair(self) -> Option<Pair> {{ self }}
    // {into.where()}
    fn into_err(self) -> (r: Result<Pair, ParseError>)
    {into.body}
}}
impl<T: FromPest> Parsable for T {{
    open spec fn said(t: Seq<char>) -> Option<Self> {{ T::notation(t) }}
    // {checked.where()}
    fn parse(s: &str) -> (r: Result<T, ParseError>)
    {checked_body}
}}
"""
    for kind, (rule, notation, hints, fit) in KINDS.items():
        given, parameter, body, where = code.from_pest(kind)
        hidden = "hide(fits); hide(is_wide_face); hide(wide_face_text); hide(face_text); hide(wide_move_text); hide(axis_move_text); hide(g_wide_move); hide(g_face); hide(g_amount); hide(g_wide_face); hide(g_depth); hide(face_of); hide(digit); hide(amount_text); hide(wide_face);" \
            if kind == "WideAxisMove<N>" else "hide(fits); hide(is_slice_move); hide(wide_move_text); hide(rotation_text); hide(slice_move_text); hide(extended_text);" if kind == "ExtendedAxisMove" else ""
        functions.append(Macro(where, f"<{kind} as FromPest>::from_pest"))
        body = re.sub(r"\bWideAxisMove::from_pest\b", "WideAxisMove::<4294967295>::from_pest" if kind == "ExtendedAxisMove" else "WideAxisMove::from_pest", code.plain(body))
        generics = "<const N: u32>" if kind.endswith("<N>") else ""
        text += f"""
impl{generics} Notation for {kind} {{
    open spec fn notation(t: Seq<char>) -> Option<Self> {{ {notation} }}
    open spec fn grammar(s: Seq<char>) -> Parsed {{ g_{rule}(s) }}
    proof fn texts_fit(s: Seq<char>) {{ tokens(); {fit} }}
}}
impl{generics} FromPest for {kind} {{
    fn rule() -> (r: Rule) {{ {given} }}
    // {where}
    #[verifier::spinoff_prover]
    fn from_pest({parameter}: Pair) -> (r: Result<Self, ParseError>)
    {begun(body, ("" if hidden else "tokens(); ") + literals(body) + hints.replace("$", parameter), hidden)}
}}
"""
    for name, returned, requires, ensures, hints in (
        ("parse_face_small", "Face", "true", "same_as(r, face_text($.node().text.map_values(|c: char| upper(c))))", ""),
        ("parse_face_wide", "Face", "is_wide_face($.node())", "same_as(r, wide_face_text($.node().text))", "wide_face_is_of_one($.node());"),
        ("parse_slice", "(Axis, bool)", "true", "same_as(r, slice_text($.node().text))", ""),
        ("parse_slice_move", "(AxisRotation, bool)", "is_slice_move($.node())", "same_as(r, slice_move_text($.node().text))",
         "slice_move_is_of_two($.node()); assert($.node().text[0] == $.node().inner[0].text[0]);"),
    ):
        fn = code.parser.fn(name)
        functions.append(fn)
        parameter = re.search(r"\((?:mut )?(\w+):", fn.head).group(1)
        body = code.plain(fn.body)
        text += f"""
// {fn.where()}
pub fn {name}({parameter}: Pair) -> (r: Result<{returned}, ParseError>)
    requires {requires.replace("$", parameter)}
    ensures {ensures.replace("$", parameter)}
{begun(body, "tokens(); " + literals(body) + hints.replace("$", parameter))}
"""
    # Constructors
    new_face = code.faces.method(r"^impl Face$", "new")
    new_move = moves.method(r"^impl AxisMove$", "new")
    new_wide = wide.method(r"^impl<const N:u32>WideAxisMove<N>$", "new")
    depth = wide.method(r"^impl<const N:u32>WideAxisMove<N>$", "depth")
    new_rotation = Source("cube_n/moves/rotation.rs").method(r"^impl AxisRotation$", "new")
    new_alg = alg.method(r"^impl<T:AsMove>Alg<T>$", "new")
    text += f"""
impl Face {{
    // {new_face.where()}
    pub fn new(axis: Axis, direction: Direction) -> (r: Face)
        ensures r == face(axis, direction)
    {new_face.body}
}}
impl AxisMove {{
    // {new_move.where()}
    pub fn new(face: Face, amount: Amount) -> (r: Self)
        ensures r == (AxisMove {{ face, amount }})
    {new_move.body}
}}
impl AxisRotation {{
    // {new_rotation.where()}
    pub fn new(axis: Axis, amount: Amount) -> (r: Self)
        ensures r == (AxisRotation {{ axis, amount }})
    {new_rotation.body}
}}
impl<const N: u32> WideAxisMove<N> {{
    // {new_wide.where()}
    pub fn new(face: Face, amount: Amount, depth: u32) -> (r: Result<Self, WideMoveCreationError>)
        ensures same_as(r, if depth <= N {{ Some(WideAxisMove {{ depth, axis_move: AxisMove {{ face, amount }} }}) }} else {{ None }})
    {new_wide.body}
    // {depth.where()}
    pub fn depth(&self) -> (r: u32)
        ensures r == self.depth
    {depth.body}
}}
"""
    # Printing
    shown = {
        "Amount": (amounts.impl(r"Display for Amount$"), "mark(self)"),
        "Face": (code.faces.impl(r"^impl Display for Face$"), "seq![letter(self)]"),
        "AxisMove": (moves.impl(r"Display for AxisMove$"), "seq![letter(self.face)] + mark(self.amount)"),
        "WideAxisMove<N>": (wide.impl(r"Display for WideAxisMove<N>$"), """
            if self.depth == 0 { self.axis_move.shown() }
            else if self.depth == 1 { seq![letter(self.axis_move.face)] + seq!['w'] + mark(self.axis_move.amount) }
            else { decimal((self.depth + 1) as nat) + seq![letter(self.axis_move.face)] + seq!['w'] + mark(self.axis_move.amount) }"""),
        "NonRedundantAxisMove": (nr.impl(r"Display for NonRedundantAxisMove$"), "joined(self.turns().map_values(|m: AxisMove| m.shown()), seq![' '])"),
        "Alg<M>": (alg.impl(r"Display for Alg<T>"), "joined(self.moves@.map_values(|m: M| m.shown()), seq![' '])"),
    }
    for kind, (block, spec) in shown.items():
        fn = block.fn("fmt")
        functions.append(fn)
        to = re.search(r"&self,(\w+):", fn.head).group(1)
        body, generics, hints = fn.body, "", ""
        if kind == "WideAxisMove<N>":
            generics = "<const N: u32>"
        if kind in ("Alg<M>", "NonRedundantAxisMove"):
            generics = "<M: Display>" if kind == "Alg<M>" else ""
            tokens = lex(body)
            found = closures(tokens)
            if len(found) != 1:
                raise LostAnchor("moves are joined otherwise")
            name = tokens[found[0][0] + 1].text
            ref = "" if kind == "Alg<M>" else "&"
            body = re.sub(rf"\b{name}\s*\.\s*to_string\(\)", f"text_of({ref}{name})", body)
            body = with_closures(body, [("", ["&M" if kind == "Alg<M>" else "AxisMove"], "-> (r: String) ensures r@ == $0.shown()")])
            body = re.sub(r"\bself\s*\.\s*moves\s*\.\s*iter\(\)", "moves_of(&self.moves)", body)
            # What is joined is named
            m = re.search(r"(moves_of\(&self\.moves\)|self\s*\.\s*moves\(\))", body)
            if not m:
                raise LostAnchor("moves are joined otherwise")
            hints = ""
        body = re.sub(r"write_str\(&(?=self|moves_of)(.*)\)(\s*;?\s*\})$", r"write_str(\1.as_str())\2", body, flags=re.S)
        body = code.plain(body)
        body = re.sub(r"(moves_of\(&self\.moves\)|self\s*\.\s*moves\(\))(.*?\))\.join\(\" \"\)",
                      r'({ let parts = \1\2; proof { assert(views(parts.items()) =~= WANTED); } parts.join(" ") })', body, flags=re.S)
        body = body.replace("WANTED", "self.moves@.map_values(|m: M| m.shown())" if kind == "Alg<M>" else "self.turns().map_values(|m: AxisMove| m.shown())")
        text += f"""
impl{generics} Display for {kind} {{
    open spec fn shown(self) -> Seq<char> {{ {spec} }}
    // {fn.where()}
    fn fmt(&self, {to}: &mut Formatter) -> (r: Result<(), FormatError>)
    {begun(body, literals(body) + ' assert(" "@ =~= seq![\' \']);' * ('" "' in body))}
}}
"""
    # Algs
    parse = alg.impl(r"Parsable for Alg<T>where").fn("parse")
    body = parse.body
    body = re.sub(r"\bT\s*::\s*Move\b", "M", body)
    body = re.sub(r"ParseError<\s*Self\s*::\s*Rule\s*>", "ParseError", body)
    body = re.sub(r"\bs\s*\.\s*split_whitespace\(\)", "words_of(s)", body)
    body, n = re.subn(r"\.\s*collect(::<[^()]*>)?\(\)", ".collect_results()", body)
    body = re.sub(r"\.map\(\s*\|(\w+)\|\s*M::parse\(\1\)\s*\)", ".map(M::parse)", body)
    body, k = re.subn(r"(words_of\(s\)\s*\.\s*map\(M::parse\))", r"""({ let parts = words_of(s); let read = parts.map(M::parse); proof {
            assert(words(s@).len() == parts.items().len());
            assert forall|i: int| 0 <= i < read.items().len() implies same_as(#[trigger] read.items()[i], M::said(words(s@)[i])) by {
                assert(texts(parts.items())[i] == parts.items()[i]@);
                assert(call_ensures(M::parse, (parts.items()[i],), read.items()[i]));
            }
        } read })""", body)
    if n != 1 or k != 1:
        raise LostAnchor("words of algs are read otherwise")
    convert = alg.impl(r"TryFrom<&str>for Alg<T>where").fn("try_from")
    value = re.search(r"\((\w+):", convert.head).group(1)
    text += f"""
/// Each word says a move, and these are the moves
pub open spec fn says<M: Parsable>(t: Seq<char>, moves: Seq<M>) -> bool {{
    words(t).len() == moves.len() && forall|i: int| 0 <= i < moves.len() ==> M::said(#[trigger] words(t)[i]) == Some(moves[i])
}}
pub open spec fn says_none<M: Parsable>(t: Seq<char>) -> bool {{ exists|i: int| 0 <= i < words(t).len() && M::said(#[trigger] words(t)[i]) is None }}
impl<M> Alg<M> {{
    // {new_alg.where()}
    pub fn new(moves: Vec<M>) -> (r: Self)
        ensures r.moves@ == moves@
    {new_alg.body}
}}
impl<M: Parsable> Alg<M> {{
    // {parse.where()}
    pub fn parse(s: &str) -> (r: Result<Self, ParseError>)
        ensures r is Ok ==> says(s@, r->Ok_0.moves@), r is Err ==> says_none::<M>(s@)
    {body}
    // {convert.where()}
    pub fn try_from({value}: &str) -> (r: Result<Self, ParseError>)
        ensures r is Ok ==> says({value}@, r->Ok_0.moves@), r is Err ==> says_none::<M>({value}@)
    {convert.body}
}}
""" + THEOREMS
    functions += [checked, into, new_face, new_move, new_rotation, new_wide, depth, new_alg, parse, convert]
    return text + END, functions


THEOREMS = """
// What is printed is read again

pub proof fn amounts_come_back(a: Amount)
    ensures amount_text(a.shown()) == Some(a)
{ }
pub proof fn faces_come_back(f: Face)
    ensures face_of(letter(f)) == Some(f), face_text(f.shown()) == Some(f)
{ }
pub proof fn axis_moves_come_back(m: AxisMove)
    ensures <AxisMove as Parsable>::said(m.shown()) == Some(m), is_word(m.shown())
{
    graphic_is_no_space();
    assert(m.shown().skip(1) =~= mark(m.amount));
}
/// Those of depth 0 and 1 (the others are the known finding: the layers are printed, and read as the depth)
pub proof fn wide_moves_come_back<const N: u32>(m: WideAxisMove<N>)
    requires m.depth <= N, m.depth <= 1
    ensures <WideAxisMove<N> as Parsable>::said(m.shown()) == Some(m), is_word(m.shown())
{
    graphic_is_no_space();
    let t = m.shown();
    axis_moves_come_back(m.axis_move);
    if m.depth == 1 {
        assert(t.skip(2) =~= mark(m.axis_move.amount));
        assert(t.skip(1)[0] == 'w' && t.skip(1).len() > 0);
        assert(digit(t[0]) is None);
    }
}
pub proof fn extended_moves_read_axis_moves(m: AxisMove)
    ensures <ExtendedAxisMove as Parsable>::said(m.shown()) == Some(ExtendedAxisMove::Regular(m))
{ axis_moves_come_back(m); }

pub proof fn algs_come_back<M: Parsable + Display>(a: Alg<M>, read: Seq<M>)
    requires
        forall|i: int| 0 <= i < a.moves@.len() ==> M::said((#[trigger] a.moves@[i]).shown()) == Some(a.moves@[i]) && is_word(a.moves@[i].shown()),
    ensures says(a.shown(), a.moves@), !says_none::<M>(a.shown()), says(a.shown(), read) ==> read =~= a.moves@
{
    let parts = a.moves@.map_values(|m: M| m.shown());
    assert forall|i: int| 0 <= i < parts.len() implies is_word(#[trigger] parts[i]) by { assert(is_word(a.moves@[i].shown())); }
    words_come_back(parts);
    let w = words(a.shown());
    assert(w == parts);
    assert forall|i: int| 0 <= i < w.len() implies M::said(#[trigger] w[i]) == Some(a.moves@[i]) by { assert(parts[i] == a.moves@[i].shown()); }
    if says(a.shown(), read) {
        assert forall|i: int| 0 <= i < read.len() implies read[i] == a.moves@[i] by { assert(M::said(w[i]) == Some(read[i])); }
    }
}
pub proof fn algs_of_axis_moves_come_back(a: Alg<AxisMove>)
    ensures says(a.shown(), a.moves@)
{
    assert forall|i: int| 0 <= i < a.moves@.len() implies <AxisMove as Parsable>::said((#[trigger] a.moves@[i]).shown()) == Some(a.moves@[i]) && is_word(a.moves@[i].shown()) by {
        axis_moves_come_back(a.moves@[i]);
    }
    algs_come_back(a, a.moves@);
}
/// As algs of their moves
pub proof fn non_redundant_moves_come_back(m: NonRedundantAxisMove)
    ensures says(m.shown(), m.turns())
{
    let parts = m.turns().map_values(|m: AxisMove| m.shown());
    assert forall|i: int| 0 <= i < parts.len() implies is_word(#[trigger] parts[i]) && <AxisMove as Parsable>::said(parts[i]) == Some(m.turns()[i]) by {
        axis_moves_come_back(m.turns()[i]);
    }
    words_come_back(parts);
}
"""

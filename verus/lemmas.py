"""Lemmas over contracts that Kani discharges."""

DISTANCE = """
use vstd::prelude::*;
verus! {

#[verifier::external_body]
pub struct Edge { e: u8 }
#[verifier::external_body]
pub struct AxisMove { m: u8 }

/// The edge after a move, whether it is at home, and what `min_moves_to_solve` says
pub uninterp spec fn by(e: Edge, m: AxisMove) -> Edge;
pub uninterp spec fn home(e: Edge) -> bool;
pub uninterp spec fn distance(e: Edge) -> nat;

/// distance::distance_zero_is_home, distance::distance_drops_by_one_at_most, distance::distance_drops_by_some_move
pub open spec fn contracts() -> bool {
    &&& forall|e: Edge| #[trigger] home(e) <==> distance(e) == 0
    &&& forall|e: Edge, m: AxisMove| distance(e) <= distance(#[trigger] by(e, m)) + 1
    &&& forall|e: Edge| #[trigger] distance(e) > 0 ==> exists|m: AxisMove| distance(#[trigger] by(e, m)) + 1 == distance(e)
}

pub open spec fn by_all(e: Edge, moves: Seq<AxisMove>) -> Edge
    decreases moves.len()
{
    if moves.len() == 0 { e } else { by_all(by(e, moves[0]), moves.drop_first()) }
}

/// No sequence of moves that is shorter brings the edge home
pub proof fn no_shorter(e: Edge, moves: Seq<AxisMove>)
    requires contracts(), home(by_all(e, moves))
    ensures distance(e) <= moves.len()
    decreases moves.len()
{
    if moves.len() > 0 {
        no_shorter(by(e, moves[0]), moves.drop_first());
    }
}

/// Some sequence of that length does
pub proof fn some_is(e: Edge) -> (moves: Seq<AxisMove>)
    requires contracts()
    ensures home(by_all(e, moves)), moves.len() == distance(e)
    decreases distance(e)
{
    if distance(e) == 0 {
        assert(home(e));
        Seq::empty()
    } else {
        let m = choose|m: AxisMove| distance(#[trigger] by(e, m)) + 1 == distance(e);
        let rest = some_is(by(e, m));
        let moves = seq![m] + rest;
        assert(moves.drop_first() =~= rest);
        moves
    }
}
} // verus!
fn main() {}
"""


def distance():
    return DISTANCE, []

//! Searches of small graphs, against a search of their own.

use barbarosa::generic::{
    moves::AsMove,
    search::{ida::IDASearcher, Searcher, Solver},
    Cube, Movable, Move,
};

use crate::{choice::Gen, probes};

const SIZE: usize = 6;

/// A puzzle whose states are numbers
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Place(usize);

/// Goes to a place
#[derive(Clone, Debug, PartialEq, Eq)]
struct To(usize);

impl Move for To {
    fn inverse(&self) -> Self {
        self.clone()
    }
}
impl AsMove for Place {
    type Move = To;
}
impl Movable<To> for Place {
    fn apply(&mut self, m: &To) {
        self.0 = m.0;
    }
}
impl Cube for Place {
    const SOLVED: Self = Place(0);
}

struct Graph {
    leads: [[bool; SIZE]; SIZE],
    targets: [bool; SIZE],
}

impl Graph {
    fn any(g: &mut impl Gen) -> Self {
        let sparse = 2 + g.int(3);
        let leads = std::array::from_fn(|_| std::array::from_fn(|_| g.int(sparse) == 0));
        let first = g.flag();
        let targets = std::array::from_fn(|i| if first { i == 0 } else { g.int(4) == 0 });
        Graph { leads, targets }
    }
    fn successors(&self, place: &Place) -> Vec<(Place, To)> {
        (0..SIZE).filter(|&i| self.leads[place.0][i]).map(|i| (Place(i), To(i))).collect()
    }
    /// How many moves it takes to get to a target
    fn distances(&self) -> [Option<u32>; SIZE] {
        let mut all = self.targets.map(|t| t.then_some(0));
        for n in 0..SIZE as u32 {
            for i in 0..SIZE {
                if all[i].is_none() && (0..SIZE).any(|j| self.leads[i][j] && all[j] == Some(n)) {
                    all[i] = Some(n + 1);
                }
            }
        }
        all
    }
    /// Where the moves lead, if each is one that there is
    fn end(&self, from: usize, moves: &[To]) -> Option<usize> {
        moves.iter().try_fold(from, |at, m| self.leads[at][m.0].then_some(m.0))
    }
}

probes! {
    /// What is found leads to a target that is returned, whatever the heuristic
    fn searches_of_graphs_find_solutions(g) {
        let graph = Graph::any(g);
        let estimates: [f32; SIZE] = std::array::from_fn(|_| g.int(9) as f32 / 2.0);
        let (start, depth) = (g.index(SIZE), g.int(8) as i32);
        let searcher = IDASearcher::new(|p: &Place| estimates[p.0], |p: &Place| graph.successors(p), depth);
        let found = searcher.search(&Place(start), |p| graph.targets[p.0]);
        if graph.targets[start] {
            assert!(matches!(&found, Some((alg, _)) if alg.moves.is_empty()), "it is a target already");
        }
        if let Some((alg, there)) = found {
            assert!(graph.end(start, &alg.moves) == Some(there.0), "the moves do not lead to the state");
            assert!(graph.targets[there.0], "the state is not a target");
        }
    }
    /// With a heuristic that does not overestimate, what is found is as short as can be, and there is nothing if it gives up
    fn searches_of_graphs_are_optimal(g) {
        let graph = Graph::any(g);
        let distances = graph.distances();
        // The bounds rise by whole moves if the heuristic is in whole moves
        let parts = if g.flag() { 1 } else { 2 };
        let estimates = distances.map(|d| match d {
            Some(d) => (d * parts).saturating_sub(g.int(4)) as f32 / parts as f32,
            None => g.int(9 * parts) as f32 / parts as f32,
        });
        let start = g.index(SIZE);
        let depth = if parts == 1 { g.int(6) as i32 } else { 20 };
        let searcher = IDASearcher::new(|p: &Place| estimates[p.0], |p: &Place| graph.successors(p), depth);
        match (searcher.search(&Place(start), |p| graph.targets[p.0]), distances[start]) {
            (Some((alg, _)), Some(d)) => assert!(alg.moves.len() as u32 == d, "it is not as short as can be"),
            (Some(_), None) => panic!("there is no solution"),
            (None, Some(d)) => assert!(d > depth as u32, "there is a solution"),
            (None, None) => {}
        }
    }
    /// A solver's alg solves
    fn solvers_of_graphs_solve(g) {
        let mut graph = Graph::any(g);
        graph.targets = std::array::from_fn(|i| i == 0);
        let start = g.index(SIZE);
        let searcher = IDASearcher::new(|_: &Place| 0.0, |p: &Place| graph.successors(p), 12);
        match (searcher.solve(&Place(start)), graph.distances()[start]) {
            (Some(alg), Some(d)) => {
                assert!(graph.end(start, &alg.moves) == Some(0), "the moves do not solve it");
                assert!(alg.moves.len() as u32 == d, "it is not as short as can be");
            }
            (Some(_), None) => panic!("there is no solution"),
            (None, d) => assert!(d.is_none(), "there is a solution"),
        }
    }
}

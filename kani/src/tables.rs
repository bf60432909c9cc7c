//! Tables that are built of small kinds of patterns, against a search of their own.

use std::{collections::VecDeque, env, fs, path::PathBuf, time::{SystemTime, UNIX_EPOCH}};

use barbarosa::{
    cube_n::{
        cube3::mus::{
            cache::{verif::{build_partial, load_or_build_partial, DiskCacheable}, Cache},
            deindex::Deindexable,
            index::{Indexable, OrientationIndexable, PositionIndexable},
        },
        space::{Axis, Direction},
        AxisMove, Corner, Cube3, Edge,
    },
    generic::{piece::PieceSetDescriptor, Cube, Movable},
};

use crate::{geom::quarters, obligations, probes};

/// On a ring of `N` places, turning the upper face goes that many places on, turning the right one `K` times as many,
/// and turning the front one `K` times as many as that
#[derive(Clone, Debug, PartialEq, Eq)]
struct Ring<const N: usize, const K: usize>(usize);

impl<const N: usize, const K: usize> PositionIndexable for Ring<N, K> {
    fn position_index(&self) -> usize {
        self.0
    }
    const POSITION_SET_SIZE: usize = N;
}
impl<const N: usize, const K: usize> OrientationIndexable for Ring<N, K> {
    fn orientation_index(&self) -> usize {
        0
    }
    const ORIENTATION_SET_SIZE: usize = 1;
}
impl<const N: usize, const K: usize> Deindexable for Ring<N, K> {
    fn from_index(index: usize) -> Self {
        Ring(index)
    }
}
impl<const N: usize, const K: usize> Movable<AxisMove> for Ring<N, K> {
    fn apply(&mut self, m: &AxisMove) {
        let times = match m.face.axis {
            Axis::Y => 1,
            Axis::X => K,
            Axis::Z => K * K,
        };
        // Opposite faces go opposite ways, so that double turns are undone
        let there = match m.face.direction {
            Direction::Positive => times * quarters(m.amount) as usize,
            Direction::Negative => times * (4 * N - quarters(m.amount) as usize),
        };
        self.0 = (self.0 + there) % N;
    }
}
impl<const N: usize, const K: usize> DiskCacheable for Ring<N, K> {
    const PATH: &'static str = "/dev/null";
}

/// The first two edges
#[derive(Clone, Debug, PartialEq, Eq)]
struct TwoEdges([Edge; 2]);

impl PositionIndexable for TwoEdges {
    fn position_index(&self) -> usize {
        let [a, b] = [0, 1].map(|i| self.0[i].position_index());
        a * 11 + if b > a { b - 1 } else { b }
    }
    const POSITION_SET_SIZE: usize = 132;
}
impl OrientationIndexable for TwoEdges {
    fn orientation_index(&self) -> usize {
        self.0[0].orientation_index() * 2 + self.0[1].orientation_index()
    }
    const ORIENTATION_SET_SIZE: usize = 4;
}

impl Deindexable for TwoEdges {
    fn from_index(index: usize) -> Self {
        let (position, orientation) = (index / 4, index % 4);
        let a = position / 11;
        let b = position % 11 + (position % 11 >= a) as usize;
        let edge = |place: usize, flip: usize| {
            let mut edge = Edge::SOLVED[place].clone();
            if edge.orientation_index() != flip {
                edge.oriented = !edge.oriented;
            }
            edge
        };
        TwoEdges([edge(a, orientation / 2), edge(b, orientation % 2)])
    }
}
impl Movable<AxisMove> for TwoEdges {
    fn apply(&mut self, m: &AxisMove) {
        self.0.apply(m);
    }
}
impl DiskCacheable for TwoEdges {
    const PATH: &'static str = "/dev/null";
}

/// Goes through all that can be reached from what has the number 0, nearest first
fn distances<T: Deindexable + Movable<AxisMove> + Clone>() -> Vec<Option<u8>> {
    let mut all = vec![None; T::TOTAL_SET_SIZE];
    all[0] = Some(0);
    let mut next = VecDeque::from([0]);
    while let Some(i) = next.pop_front() {
        for m in AxisMove::all() {
            let j = T::from_index(i).moved(&m).index();
            if all[j].is_none() {
                all[j] = all[i].map(|n| n + 1);
                next.push_back(j);
            }
        }
    }
    all
}

fn exact<T: Deindexable + Movable<AxisMove> + DiskCacheable + Clone>() -> bool {
    let Ok(table) = build_partial::<T>() else { return false };
    table.into_iter().map(Some).collect::<Vec<_>>() == distances::<T>()
}

/// A kind of pattern whose table is stored
#[derive(Clone, Debug, PartialEq, Eq)]
struct Stored(Ring<97, 5>);

impl PositionIndexable for Stored {
    fn position_index(&self) -> usize {
        self.0.position_index()
    }
    const POSITION_SET_SIZE: usize = 97;
}
impl OrientationIndexable for Stored {
    fn orientation_index(&self) -> usize {
        0
    }
    const ORIENTATION_SET_SIZE: usize = 1;
}
impl Deindexable for Stored {
    fn from_index(index: usize) -> Self {
        Stored(Ring(index))
    }
}
impl Movable<AxisMove> for Stored {
    fn apply(&mut self, m: &AxisMove) {
        self.0.apply(m);
    }
}
impl DiskCacheable for Stored {
    const PATH: &'static str = "tables/ring";
}

/// A folder of its own to work in, while it is there
struct Scratch(PathBuf, PathBuf);
impl Scratch {
    fn new() -> Option<Self> {
        let before = env::current_dir().ok()?;
        let time = SystemTime::now().duration_since(UNIX_EPOCH).ok()?.as_nanos();
        let folder = env::temp_dir().join(format!("bverif-{}-{time}", std::process::id()));
        fs::create_dir(&folder).ok()?;
        let scratch = Scratch(before, folder);
        env::set_current_dir(&scratch.1).ok()?;
        Some(scratch)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = env::set_current_dir(&self.0);
        let _ = fs::remove_dir_all(&self.1);
    }
}

obligations! {
    /// The two kinds of tables have files of their own, and their sizes are those of complete tables
    #[unwind(64)]
    fn each_kind_of_table_has_a_file(g) {
        let _ = g.flag();
        assert!(<[Corner; 8] as DiskCacheable>::PATH != <[Edge; 6] as DiskCacheable>::PATH);
        assert!(<[Corner; 8] as Indexable>::TOTAL_SET_SIZE == 88179840);
        assert!(<[Edge; 6] as Indexable>::TOTAL_SET_SIZE == 42577920);
    }
}

probes! {
    /// A table is built once, and then it is what is on the disk; a file of another size is not taken for one
    fn tables_are_those_on_the_disk(g) {
        let file = g.int(6);
        let scratch = Scratch::new();
        g.assume(scratch.is_some());
        let built = distances::<Stored>().into_iter().map(Option::unwrap).collect::<Vec<u8>>();
        if file == 0 || file == 1 {
            if file == 1 {
                fs::create_dir("tables").unwrap();
            }
            assert!(load_or_build_partial::<Stored>().unwrap() == built);
            assert!(fs::read(Stored::PATH).unwrap() == built);
            assert!(load_or_build_partial::<Stored>().unwrap() == built);
        } else {
            let size = [97, 96, 98, 0][file as usize - 2];
            let other: Vec<u8> = (0..size).map(|i| i as u8).collect();
            fs::create_dir("tables").unwrap();
            fs::write(Stored::PATH, &other).unwrap();
            let result = std::panic::catch_unwind(|| load_or_build_partial::<Stored>().unwrap());
            if size == 97 {
                assert!(result.unwrap() == other);
            } else {
                assert!(!matches!(result, Ok(table) if table.len() != 97));
            }
        }
    }
    /// Tables that lack entries are not looked up
    fn tables_that_lack_entries_are_refused(g) {
        let (corners, edges) = (<[Corner; 8] as Indexable>::TOTAL_SET_SIZE, <[Edge; 6] as Indexable>::TOTAL_SET_SIZE);
        let scratch = Scratch::new();
        g.assume(scratch.is_some());
        fs::create_dir("mus-cache").unwrap();
        // Zeros, which take no space on the disk
        let mut right = true;
        for (path, size) in [(<[Corner; 8] as DiskCacheable>::PATH, corners), (<[Edge; 6] as DiskCacheable>::PATH, edges)] {
            let given = [size, size, size - 1, size / 2, 1, 0][g.index(6)];
            right &= given == size;
            let file = fs::File::create(path).unwrap();
            file.set_len(given as u64).unwrap();
        }
        let cache = std::panic::catch_unwind(Cache::init);
        assert!(cache.is_ok() == right, "{}", if right { "the tables are refused" } else { "the tables are taken" });
        if let Ok(cache) = cache {
            assert!(cache.get(&Cube3::SOLVED) == 0);
        }
    }
    /// Each entry is the least number of moves
    fn tables_of_small_patterns_are_exact(g) {
        assert!(match g.int(9) {
            0 => exact::<TwoEdges>(),
            1 => exact::<Ring<1, 1>>(),
            2 => exact::<Ring<2, 1>>(),
            3 => exact::<Ring<19, 4>>(),
            4 => exact::<Ring<300, 7>>(),
            // The farthest one is 253 moves away
            5 => exact::<Ring<1012, 0>>(),
            6 => exact::<Ring<640, 31>>(),
            7 => exact::<Ring<255, 16>>(),
            // Many, of which the last two are far away
            _ => exact::<Ring<400_004, 96>>(),
        });
    }
}

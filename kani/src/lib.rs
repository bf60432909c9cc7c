//! Contracts of the real code of barbarosa, discharged by Kani, and their native replay.
//!
//! The features `without_*` leave out what no longer builds against a changed tree (see `lib/build.py`).
pub mod choice;
pub mod geom;
pub mod values;

macro_rules! modules {
    ($($feature:literal $name:ident: $($table:ident)*;)*) => {
        $(#[cfg(not(feature = $feature))] pub mod $name;)*

        pub fn table() -> Vec<choice::Obligation> {
            let mut all = Vec::new();
            $(#[cfg(not(feature = $feature))] { $(all.extend($name::$table());)* })*
            all
        }
    };
}

modules! {
    "without_cubes" cubes: table probe_table;
    "without_distance" distance: table probe_table;
    "without_indexing" indexing: table probe_table;
    "without_laws" laws: table probe_table;
    "without_moves" moves: table probe_table;
    "without_net" net: table probe_table;
    "without_orient" orient: table;
    "without_parsing" parsing: probe_table;
    "without_pieces" pieces: table;
    "without_searches" searches: probe_table;
    "without_sets" sets: table probe_table;
    "without_space" space: table;
    "without_tables" tables: probe_table;
}

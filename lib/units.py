"""The units of Verus: each gives the text for the verifier, and the functions under contract in it."""
from verus import alg, cubes, ida, indexing, laws, lemmas, moves, net, parsing, sets, states, tables, wide

UNITS = {
    "algs": alg.unit,
    "cube_moves": cubes.moves_unit,
    "cube_solved": cubes.solved_unit,
    "searches": ida.unit,
    "distance_is_exact": lemmas.distance,
    "normalizing": moves.normalizing,
    "lists": moves.lists,
    "random_algs": moves.random,
    "sets": sets.unit,
    "set_moves": sets.moves,
    "wide_moves": wide.unit,
    "tables": tables.unit,
    "loading": tables.loading,
    "indexing": indexing.unit,
    "indexing_cubes": indexing.cubes,
    "laws": laws.unit,
    "net": net.unit,
    "drawing": net.drawing,
    "states": states.unit,
    "conversions": moves.conversions,
    "parsing": parsing.unit,
}

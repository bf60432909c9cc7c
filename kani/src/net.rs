//! Contracts of what a cube looks like: the stickers of its pieces, and the unfolded net.

use barbarosa::{
    cube_n::{
        cube3::Cube3,
        space::Face,
        visualization::{unfolded::Unfolded, Color, Colored, Colorscheme},
        AxisMove, Corner, Edge,
    },
    generic::{
        piece::{Coordinates, PieceSetDescriptor},
        Cube, Movable, Piece, PieceSet,
    },
};
use nalgebra::Vector3;

use crate::{choice::Gen, geom::*, obligations, probes, values::*};

fn has(colors: &[(Face, Color)], facing: V, color: V) -> bool {
    let mut n = 0;
    for (f, c) in colors {
        n += (normal(f) == facing && normal(&c.face) == color) as u8;
    }
    n == 1
}

/// What is on a face of the net at a row and a column: the place on the cube, by folding
fn folded(face: &Face, row: usize, column: usize) -> V {
    // The directions in which rows and columns grow on the net:
    //       U
    //     L F R
    //       D
    //       B
    let (down, right): (V, V) = match (sign(face.direction), unit(face.axis)) {
        (1, [0, 1, 0]) => ([0, 0, 1], [1, 0, 0]),
        (-1, [0, 1, 0]) => ([0, 0, -1], [1, 0, 0]),
        (1, [0, 0, 1]) => ([0, -1, 0], [1, 0, 0]),
        (-1, [0, 0, 1]) => ([0, 1, 0], [1, 0, 0]),
        (1, _) => ([0, -1, 0], [0, 0, -1]),
        _ => ([0, -1, 0], [0, 0, 1]),
    };
    add(normal(face), add(scale(row as i8 - 1, down), scale(column as i8 - 1, right)))
}

/// A piece that is anywhere and shows one sticker of any color on any face that it is on
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dot {
    at: V,
    face: Face,
    color: Face,
}
impl Piece for Dot {
    type Position = V;
    fn position(&self) -> V {
        self.at
    }
    fn is_solved(&self, original_pos: &V) -> bool {
        self.at == *original_pos
    }
}
impl PieceSetDescriptor<2> for Dot {
    const SOLVED: [Self; 2] = [
        Dot { at: [1, 0, 0], face: Face::R, color: Face::R },
        Dot { at: [0, 1, 0], face: Face::U, color: Face::U },
    ];
    const REFERENCE_POSITIONS: [V; 2] = [[1, 0, 0], [0, 1, 0]];
}
impl Coordinates for Dot {
    fn coordinates_pos(p: V) -> Vector3<f32> {
        Vector3::new(p[0] as f32, p[1] as f32, p[2] as f32)
    }
}
impl Colored for Dot {
    fn colors(&self, original_pos: V) -> Vec<(Face, Color)> {
        // The color tells which one of the pieces it is
        let color = if original_pos == [1, 0, 0] { self.color.clone() } else { self.color.opposite() };
        vec![(self.face.clone(), Color::new(color))]
    }
}

fn small(g: &mut impl Gen) -> i8 {
    g.int(3) as i8 - 1
}

fn dot_on(g: &mut impl Gen) -> Dot {
    let face = face(g);
    let at = [small(g), small(g), small(g)];
    g.assume(crate::geom::dot(at, normal(&face)) == 1);
    Dot { at, face, color: crate::values::face(g) }
}

fn same_color(a: &Color, b: &Face) -> bool {
    normal(&a.face) == normal(b)
}

fn square_of(net: &Unfolded<3>, at: &Vector3<f32>, face: &Face) -> *const Color {
    net[face].at(at, face).unwrap()
}

obligations! {
    // Stickers have squares of their own, on the net: those of a piece, and those of pieces at different places

    #[unwind(9)]
    fn stickers_of_corners_have_their_own_squares(g) {
        let (a, b) = (corner(g), corner(g));
        let (i, j) = (g.index(3), g.index(3));
        let (p, q) = (corner_position(g), corner_position(g));
        let net = Unfolded::<3>::default();
        g.assume(a.position != b.position || (a == b && p == q && i != j));
        assert!(a.position == b.position || a.coordinates() != b.coordinates());
        let (x, y) = (a.colors(p)[i].0.clone(), b.colors(q)[j].0.clone());
        assert!(square_of(&net, &a.coordinates(), &x) != square_of(&net, &b.coordinates(), &y));
    }
    #[unwind(9)]
    fn stickers_of_edges_have_their_own_squares(g) {
        let (a, b) = (edge(g), edge(g));
        let (i, j) = (g.index(2), g.index(2));
        let (p, q) = (edge_position(g), edge_position(g));
        let net = Unfolded::<3>::default();
        g.assume(a.position() != b.position() || (a == b && p == q && i != j));
        assert!(a.position() == b.position() || a.coordinates() != b.coordinates());
        let (x, y) = (a.colors(p)[i].0.clone(), b.colors(q)[j].0.clone());
        assert!(square_of(&net, &a.coordinates(), &x) != square_of(&net, &b.coordinates(), &y));
    }
    #[unwind(9)]
    fn corners_and_edges_have_their_own_squares(g) {
        let (a, b) = (corner(g), edge(g));
        let (i, j) = (g.index(3), g.index(2));
        let net = Unfolded::<3>::default();
        let (x, y) = (a.colors(corner_position(g))[i].0.clone(), b.colors(edge_position(g))[j].0.clone());
        assert!(square_of(&net, &a.coordinates(), &x) != square_of(&net, &b.coordinates(), &y));
    }
    /// A corner at home shows on each of its faces the color of the face, and no other sticker
    #[unwind(9)]
    fn solved_corner_shows_its_faces(g) {
        let c = Corner::oriented(corner_position(g));
        let colors = c.colors(c.position);
        assert!(colors.len() == 3);
        let v = corner_vector(&c.position);
        for w in [[v[0], 0, 0], [0, v[1], 0], [0, 0, v[2]]] {
            assert!(has(&colors, w, w));
        }
    }
    /// A move takes the stickers of a corner with it
    #[unwind(9)]
    fn corner_stickers_move_with_it(g) {
        let (c, home, m) = (corner(g), corner_position(g), axis_move(g));
        let before = c.colors(home);
        let i = g.index(3);
        let facing = normal(&before[i].0);
        let (_, now) = turned((scale(2, corner_vector(&c.position)), facing), 3, normal(&m.face), quarters(m.amount), 0);
        let color = normal(&before[i].1.face);
        let after = c.moved(&m).colors(home);
        assert!(after.len() == 3);
        assert!(has(&after, now, color));
    }
    #[unwind(9)]
    fn solved_edge_shows_its_faces(g) {
        let p = edge_position(g);
        let e = Edge::oriented(p.0, p.1);
        let colors = e.colors(p);
        assert!(colors.len() == 2);
        for w in edge_faces(&p) {
            assert!(has(&colors, w, w));
        }
    }
    #[unwind(9)]
    fn edge_stickers_move_with_it(g) {
        let (e, home, m) = (edge(g), edge_position(g), axis_move(g));
        let before = e.colors(home);
        let i = g.index(2);
        let facing = normal(&before[i].0);
        let (_, now) = turned((scale(2, edge_vector(&e.position())), facing), 3, normal(&m.face), quarters(m.amount), 0);
        let color = normal(&before[i].1.face);
        let after = e.moved(&m).colors(home);
        assert!(after.len() == 2);
        assert!(has(&after, now, color));
    }
    /// Stickers face where their piece is on a face
    #[unwind(9)]
    fn stickers_are_on_their_piece(g) {
        let (c, home) = (corner(g), corner_position(g));
        for (f, color) in c.colors(home) {
            assert!(dot(corner_vector(&c.position), normal(&f)) == 1);
            assert!(dot(corner_vector(&home), normal(&color.face)) == 1);
        }
        let (e, home) = (edge(g), edge_position(g));
        for (f, color) in e.colors(home) {
            assert!(dot(edge_vector(&e.position()), normal(&f)) == 1);
            assert!(dot(edge_vector(&home), normal(&color.face)) == 1);
        }
    }
    /// The empty net shows the color of each face all over it
    #[unwind(9)]
    fn the_net_starts_solved(g) {
        let (f, row, column) = (face(g), g.index(3), g.index(3));
        let net = Unfolded::<3>::default();
        assert!(same_color(&net[&f].data[row][column], &f));
    }
    /// The square of a place on a face is where folding the net takes it
    #[unwind(9)]
    fn squares_are_where_the_net_folds(g) {
        let (f, row, column) = (face(g), g.index(3), g.index(3));
        let color = face(g);
        let mut net = Unfolded::<3>::default();
        let p = folded(&f, row, column);
        let place = Vector3::new(p[0] as f32, p[1] as f32, p[2] as f32);
        *net.at_mut(&place, &f).unwrap() = Color::new(color.clone());
        assert!(same_color(&net[&f].data[row][column], &color));
        let (other, r, c) = (face(g), g.index(3), g.index(3));
        assert!((other == f && r == row && c == column) || same_color(&net[&other].data[r][c], &other));
        assert!(same_color(net[&f].at(&place, &f).unwrap(), &color));
    }
    #[unwind(9)]
    fn colorschemes_are_in_the_order_of_the_faces(g) {
        let f = face(g);
        use palette::Srgb;
        let at = |i: i32| Srgb::new(i as f32, 0.0, 0.0);
        let scheme = Colorscheme::new([at(0), at(1), at(2), at(3), at(4), at(5)]);
        assert!(scheme.get(&f).red == f.index() as f32);
        assert!(f.index() < 6);
    }
}

probes! {
    /// Populating the net puts every sticker of every piece where it is, and nothing else
    fn the_net_gets_the_stickers(g) {
        let (a, b) = (dot_on(g), dot_on(g));
        g.assume(a.at != b.at);
        let Ok(set) = PieceSet::new([a.clone(), b.clone()]) else { return };
        let mut net = Unfolded::<3>::default();
        net.populate_with(&set);
        for f in Face::iter() {
            for row in 0..3 {
                for column in 0..3 {
                    let p = folded(&f, row, column);
                    let expected = if a.face == f && a.at == p {
                        a.color.clone()
                    } else if b.face == f && b.at == p {
                        b.color.opposite()
                    } else {
                        f.clone()
                    };
                    assert!(same_color(&net[&f].data[row][column], &expected));
                }
            }
        }
    }
    /// The net of a cube after moves: each square shows the sticker that the moves took there
    fn the_net_shows_the_moves(g) {
        let n = g.int(12);
        let mut cube = Cube3::SOLVED;
        let mut moves: Vec<AxisMove> = Vec::new();
        for _ in 0..n {
            let m = axis_move(g);
            cube.apply(&m);
            moves.push(m);
        }
        let net = Unfolded::<3>::from(cube);
        for f in Face::iter() {
            for row in 0..3 {
                for column in 0..3 {
                    // Back to where the sticker was on the solved cube
                    let mut s = (scale(2, folded(&f, row, column)), normal(&f));
                    for m in moves.iter().rev() {
                        s = turned(s, 3, normal(&m.face), 4 - quarters(m.amount), 0);
                    }
                    assert!(normal(&net[&f].data[row][column].face) == s.1, "{f:?} {row} {column}");
                }
            }
        }
    }
    /// The drawing, read as a terminal would: each square is where the sketch has it, in its color
    fn the_drawing_shows_the_net(g) {
        let mut net = Unfolded::<3>::default();
        for f in Face::iter() {
            for square in net[&f].data.iter_mut().flatten() {
                square.face = face(g);
            }
        }
        let scheme = match g.int(1) {
            0 => Colorscheme::default(),
            _ => Colorscheme::new([0, 1, 2, 3, 4, 5].map(|i| palette::Srgb::new(g.int(5) as f32 / 5.0, i as f32 / 5.0, g.int(255) as f32 / 255.0))),
        };
        let lines = read_drawing(&Drawing(&net, &scheme).to_string());
        assert!(lines.iter().flatten().flatten().count() == 54);
        // Line and column of the first square of each face
        for (f, line, column) in [(Face::U, 0, 4), (Face::L, 4, 0), (Face::F, 4, 4), (Face::R, 4, 8), (Face::D, 8, 4), (Face::B, 12, 4)] {
            for i in 0..3 {
                for j in 0..3 {
                    let color = scheme.get(&net[&f].data[i][j].face);
                    let expected = [color.red, color.green, color.blue].map(|x| (x * 255.0) as u8);
                    assert!(lines[line + i][column + j] == Some(expected), "{f:?} {i} {j}");
                }
            }
        }
    }
    /// A cube is drawn with the usual colors
    fn cubes_are_drawn_as_their_nets(g) {
        let mut cube = Cube3::SOLVED;
        for _ in 0..g.int(12) {
            cube.apply(&axis_move(g));
        }
        let net = Unfolded::<3>::from(cube.clone());
        assert!(cube.to_string() == Drawing(&net, &Colorscheme::default()).to_string());
        assert!(net.to_string() == cube.to_string());
    }
}

struct Drawing<'a>(&'a Unfolded<3>, &'a Colorscheme<palette::Srgb>);
impl std::fmt::Display for Drawing<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.write(self.1, f)
    }
}

/// Lines of places that are two columns wide, with the color that they have
fn read_drawing(text: &str) -> Vec<Vec<Option<[u8; 3]>>> {
    let mut lines = Vec::new();
    for line in text.lines() {
        let (mut cells, mut color, mut rest) = (Vec::new(), None, line);
        while !rest.is_empty() {
            if let Some(code) = rest.strip_prefix("\u{1b}[") {
                let (code, after) = code.split_once('m').expect("a color");
                rest = after;
                color = match code.strip_prefix("48;2;") {
                    Some(rgb) => {
                        let rgb: Vec<u8> = rgb.split(';').map(|x| x.parse().unwrap()).collect();
                        Some([rgb[0], rgb[1], rgb[2]])
                    }
                    None => {
                        assert!(code == "0" || code.is_empty());
                        None
                    }
                };
            } else {
                rest = rest.strip_prefix("  ").expect("two columns");
                cells.push(color);
            }
        }
        lines.push(cells);
    }
    lines
}

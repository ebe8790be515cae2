//! C16: convex hull.
use pasture_algorithms::convexhull::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;

type V = [f64; 3]; // small whole numbers: exact
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn nil(a: V) -> bool {
    (a[0] == 0.0) & (a[1] == 0.0) & (a[2] == 0.0)
}
#[derive(Clone, Copy, PartialEq)]
enum Pos {
    F64,
    F32,
    I32,
}
/// The hull of positions of a type, in any kind of buffer.
fn hull(p: &[V], t: Pos, kind: usize) -> (Option<Vec<Vector3<usize>>>, Vec<usize>) {
    let ty = [PointAttributeDataType::Vec3f64, PointAttributeDataType::Vec3f32, PointAttributeDataType::Vec3i32][t as usize];
    let a = PointAttributeDefinition::custom(Cow::Borrowed("Position3D"), ty);
    let l = PointLayout::from_attributes_packed(&[attributes::CLASSIFICATION, a, attributes::INTENSITY], 1);
    let mut m = Model::sym(l, p.len(), "bytes");
    for (i, q) in p.iter().enumerate() {
        let n = ty.size() as usize;
        match t {
            Pos::F64 => m.pts[i][1..1 + n].copy_from_slice(bytemuck::bytes_of(q)),
            Pos::F32 => m.pts[i][1..1 + n].copy_from_slice(bytemuck::bytes_of(&[q[0] as f32, q[1] as f32, q[2] as f32])),
            Pos::I32 => m.pts[i][1..1 + n].copy_from_slice(bytemuck::bytes_of(&[q[0] as i32, q[1] as i32, q[2] as i32])),
        }
    }
    fn both<B: for<'a> BorrowedBuffer<'a>>(b: &B) -> (Option<Vec<Vector3<usize>>>, Vec<usize>) {
        (convex_hull_as_triangle_mesh(b).ok(), convex_hull_as_points(b))
    }
    match kind % 3 {
        0 => {
            let b = vector(&m);
            let r = both(&b);
            same_points(&b, &m, "the cloud changed");
            r
        }
        1 => {
            let b = columnar(&m);
            let r = both(&b);
            same_points(&b, &m, "the cloud changed");
            r
        }
        _ => both(&external(&m)),
    }
}
/// Not all points on one line.
fn spans(p: &[V]) -> bool {
    let mut r = false;
    for i in 0..p.len() {
        for j in 0..i {
            for k in 0..j {
                r |= !nil(cross(sub(p[j], p[i]), sub(p[k], p[i])));
            }
        }
    }
    r
}
fn check_hull(p: &[V], t: Pos, kind: usize) {
    let (mesh, pts) = hull(p, t, kind);
    check(pts.iter().all(|i| *i < p.len()), "an index out of range");
    check((0..p.len()).all(|i| pts.iter().filter(|j| **j == i).count() <= 1), "an index twice");
    let s = spans(p);
    let Some(mesh) = mesh else {
        check(!s, "a cloud with a hull is refused");
        // all points lie on the line between those returned
        check(pts.len() <= 2 && pts.is_empty() == p.is_empty(), "the ends of a line of points");
        if pts.is_empty() || pts.len() > 2 {
            return;
        }
        let (a, b) = (p[pts[0]], p[pts[pts.len() - 1]]);
        for q in p {
            let (u, v) = (sub(*q, a), sub(b, a));
            check(nil(cross(u, v)) & (dot(u, v) >= 0.0) & (dot(u, u) <= dot(v, v)), "a point beyond the ends of the line");
        }
        return;
    };
    check(s, "a cloud without a hull has a mesh");
    check(mesh.iter().all(|x| x.iter().all(|i| *i < p.len())), "an index out of range");
    if mesh.iter().any(|x| x.iter().any(|i| *i >= p.len())) {
        return;
    }
    for x in &mesh {
        check(x.iter().all(|i| pts.contains(i)), "a corner is missing in the points of the hull");
    }
    check(pts.iter().all(|i| mesh.iter().any(|x| x.iter().any(|j| j == i))), "a point of the hull that is no corner");
    // closed: as many edges in one direction as in the other
    let mut edges = vec![];
    for x in &mesh {
        for k in 0..3 {
            edges.push((x[k], x[(k + 1) % 3]));
        }
    }
    let mut back: Vec<_> = edges.iter().map(|e| (e.1, e.0)).collect();
    edges.sort();
    back.sort();
    check(edges == back, "the mesh is closed");
    let mut flat = true;
    let mut inside = vec![false; p.len()];
    for x in &mesh {
        let (a, b, c) = (p[x[0]], p[x[1]], p[x[2]]);
        let n = cross(sub(b, a), sub(c, a));
        check(!nil(n), "a degenerate triangle");
        let (mut above, mut below) = (false, false);
        for (i, q) in p.iter().enumerate() {
            if x.iter().any(|j| *j == i) {
                inside[i] = true;
                continue;
            }
            let d = dot(n, sub(*q, a));
            above |= d > 0.0;
            below |= d < 0.0;
            let side = |a: V, b: V| dot(n, cross(sub(b, a), sub(*q, a))) >= 0.0;
            inside[i] |= side(a, b) & side(b, c) & side(c, a);
        }
        check(!(above & below), "points on both sides of a triangle");
        flat &= !(above | below);
    }
    // a flat hull has no sides
    let all = inside.iter().fold(true, |x, y| x & *y);
    check(!flat | all, "a point outside of a flat hull");
}
/// A coordinate of n bits, around zero.
fn co(n: u32) -> f64 {
    let x: u8 = sym("position");
    ((x & ((1 << n) - 1)) as i32 - (1 << (n - 1))) as f64
}
fn any(n: u32) -> V {
    [co(n), co(n), co(n)]
}
fn any_flat(n: u32) -> V {
    [co(n), co(n), 2.0]
}
/// A pyramid, with points on its edges and faces.
const BASE: [V; 6] = [[0., 0., 0.], [4., 0., 0.], [0., 4., 0.], [4., 4., 0.], [2., 2., 3.], [2., 0., 0.]];

harness! {
    fn q_last_point() {
        bound("4 of the points of a pyramid in some order and then one anywhere, coordinates of 7 bits");
        let o = [[0, 1, 2, 4], [4, 3, 1, 0], [0, 5, 1, 2], [0, 1, 3, 2], [1, 5, 0, 4], [2, 2, 1, 4]][choice(6, "cloud")];
        let mut p: Vec<V> = o.iter().map(|i| BASE[*i]).collect();
        p.push(any(7));
        check_hull(&p, Pos::F64, 2)
    }
    fn q_scaled() {
        bound("4 points of a pyramid and one anywhere, coordinates of 5 bits in steps of 2^-16 or 2^20");
        let c = [1.0 / 65536.0, 1048576.0][choice(2, "scale")];
        let o = [[0, 1, 2, 4], [1, 5, 0, 4], [0, 1, 3, 2]][choice(3, "cloud")];
        let mut p: Vec<V> = o.iter().map(|i| BASE[*i].map(|x| x * c)).collect();
        p.insert([2, 4][choice(2, "at")], any(5).map(|x| x * c));
        check_hull(&p, Pos::F64, 1)
    }
    fn q_third_point() {
        bound("3 points of a pyramid and one anywhere, coordinates of 7 bits, before, between or after them");
        let o = [[0, 1, 2], [4, 3, 1], [0, 5, 1], [2, 2, 4]][choice(4, "cloud")];
        let mut p: Vec<V> = o.iter().map(|i| BASE[*i]).collect();
        p.insert(choice(4, "at"), any(7));
        check_hull(&p, Pos::F64, 0)
    }
    fn q_line() {
        bound("4 points on a line in one of 3 directions, at multiples of 6 bits");
        let d = [[1., 0., 0.], [1., 1., 1.], [1., -2., 3.]][choice(3, "direction")];
        let c = [co(6), co(6), co(6), co(6)];
        let p = c.map(|x| d.map(|y| y * x));
        check_hull(&p, Pos::F64, 1)
    }
    fn q_few_points() {
        bound("0 to 2 points");
        let p: Vec<V> = (0..choice(3, "points")).map(|_| any(6)).collect();
        check_hull(&p, [Pos::F64, Pos::F32, Pos::I32][choice(3, "type")], choice(3, "buffer"))
    }
    fn q_converted() {
        bound("3 points of a pyramid and one anywhere from -4 to 3, of positions that have to be converted");
        let mut p: Vec<V> = BASE[1..4].to_vec();
        p.push(any(3));
        check_hull(&p, [Pos::F32, Pos::I32][choice(2, "type")], choice(3, "buffer"))
    }
    fn q_no_positions() {
        bound("a layout without positions");
        let m = Model::sym(PointLayout::from_attributes(&[attributes::INTENSITY]), 3, "bytes");
        if sym_bool("points") { must_panic("a cloud without positions", || convex_hull_as_points(&vector(&m))) }
        else { must_panic("a cloud without positions", || convex_hull_as_triangle_mesh(&columnar(&m)).is_ok()) }
    }
    fn q_flat_points() {
        bound("4 points in a plane, 2 of them anywhere from -4 to 3, in any order");
        let at = choice(6, "at");
        let mut p: Vec<V> = vec![[0., 0., 2.], [4., 1., 2.]];
        p.insert([0, 0, 0, 1, 1, 2][at], any_flat(3));
        p.insert([0, 2, 3, 2, 3, 3][at], any_flat(3));
        check_hull(&p, Pos::F64, at)
    }
    fn q_two_points() {
        bound("3 points of a pyramid and then two anywhere from -4 to 3");
        let o = [[0, 1, 2], [4, 3, 1], [0, 5, 1]][choice(3, "cloud")];
        let mut p: Vec<V> = o.iter().map(|i| BASE[*i]).collect();
        p.push(any(3));
        p.push(any(3));
        check_hull(&p, Pos::F64, 1)
    }
    fn q_three_points() {
        bound("a point and then three anywhere from -2 to 1");
        let p = [[0., 0., 0.], any(2), any(2), any(2)];
        check_hull(&p, Pos::F64, 0)
    }
    fn t_three_points_3_bits() {
        bound("a point and then three anywhere from -4 to 3");
        let p = [[0., 0., 0.], any(3), any(3), any(3)];
        check_hull(&p, Pos::F64, 0)
    }
    fn q_five_flat_points() {
        bound("5 points in a plane, 2 of them anywhere from -2 to 1");
        let mut p: Vec<V> = vec![[0., 0., 2.], [4., 1., 2.], [1., 3., 2.]];
        p.push(any_flat(2));
        p.insert(choice(4, "at"), any_flat(2));
        check_hull(&p, Pos::F64, 1)
    }
    fn q_three_flat_points() {
        bound("a point and then three anywhere from -4 to 3, in a plane");
        let p = [[0., 0., 2.], any_flat(3), any_flat(3), any_flat(3)];
        check_hull(&p, Pos::F64, 1)
    }
    fn q_many_points() {
        bound("40 points around the origin, most of them corners of the hull, and one with a coordinate of 3 bits in steps of 8, at one of 2 places");
        let mut p: Vec<V> = (0..40i64).map(|i| {
            let h = |k: i64| ((i * k + k) * 7919 % 31 - 15) as f64;
            let v = [h(13), h(29) - (i % 3) as f64, h(7) + (i % 5) as f64];
            // not too near to the middle
            let r = dot(v, v).sqrt() + 0.5;
            v.map(|x| (x * if i % 7 == 3 { 0.5 } else { 30.0 / r }).round())
        }).collect();
        let mut q = [11.0, -7.0, 5.0];
        q[choice(3, "axis")] = co(3) * 8.0;
        p.insert([5, 40][choice(2, "at")], q);
        check_hull(&p, Pos::F64, 1)
    }
    fn q_many_flat_points() {
        bound("24 points in a plane and one with a coordinate of 4 bits, at one of 3 places");
        let mut p: Vec<V> = (0..24i64).map(|i| {
            let (x, y) = (((i * 5 + 3) % 13 - 6) as f64, ((i * i + 2 * i) % 11 - 5) as f64);
            [x, y, x + y + 1.0]
        }).collect();
        let (x, y) = if sym_bool("axis") { (co(4), 1.0) } else { (2.0, co(4)) };
        p.insert([0, 12, 24][choice(3, "at")], [x, y, x + y + 1.0]);
        check_hull(&p, Pos::F64, 0)
    }
    fn t_last_points() {
        bound("a pyramid and then two points anywhere from -4 to 3");
        let mut p: Vec<V> = [0, 1, 2, 4].iter().map(|i| BASE[*i]).collect();
        p.push(any(3));
        p.push(any(3));
        check_hull(&p, Pos::F64, 2)
    }
}

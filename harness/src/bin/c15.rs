//! C15: RANSAC segmentation.
use pasture_algorithms::segmentation::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::fmt::Debug;
use sxh::model::*;
use sxh::*;

// The coefficients of a model can only be seen in its debug text. The executor hands
// floats over here instead of printing them.
static mut TAKEN: [f64; 16] = [0.0; 16];
static mut COUNT: usize = 0;
#[no_mangle]
#[inline(never)]
pub extern "C" fn sx_fmt_f64(v: *const f64, _f: *mut u8) -> bool {
    unsafe {
        TAKEN[COUNT] = *v;
        COUNT += 1;
    }
    false
}
#[used]
static KEEP: extern "C" fn(*const f64, *mut u8) -> bool = sx_fmt_f64;

/// The floats and the last integer of a debug text.
fn numbers(d: &impl Debug) -> (Vec<f64>, usize) {
    unsafe { COUNT = 0 };
    let t = format!("{:?}", d);
    let (mut fl, mut int) = (vec![], 0);
    for w in t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+')) {
        if let Ok(i) = w.parse::<usize>() {
            int = i;
        } else if let (false, Ok(f)) = (is_symbolic(), w.parse::<f64>()) {
            fl.push(f);
        }
    }
    if is_symbolic() {
        fl = (0..unsafe { COUNT }).map(|i| unsafe { TAKEN[i] }).collect();
    }
    (fl, int)
}

#[derive(Clone, PartialEq)]
struct Found {
    model: Vec<f64>,
    ranking: usize,
    points: Vec<usize>,
}
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    Plane,
    Line,
}
use Shape::*;
fn found<M: Debug>(r: (M, Vec<usize>)) -> Found {
    let (model, ranking) = numbers(&r.0);
    Found { model, ranking, points: r.1 }
}
fn segment<B: for<'a> BorrowedBuffer<'a> + Sync>(b: &B, s: Shape, par: bool, t: f64, n: usize) -> Found {
    match (s, par) {
        (Plane, true) => found(ransac_plane_par(b, t, n)),
        (Plane, false) => found(ransac_plane_serial(b, t, n)),
        (Line, true) => found(ransac_line_par(b, t, n)),
        (Line, false) => found(ransac_line_serial(b, t, n)),
    }
}
fn cloud(p: &[[f64; 3]]) -> Model {
    let l = PointLayout::from_attributes_packed(&[attributes::CLASSIFICATION, attributes::POSITION_3D, attributes::INTENSITY], 1);
    let mut m = Model::sym(l, p.len(), "bytes");
    for (i, q) in p.iter().enumerate() {
        m.pts[i][1..25].copy_from_slice(bytemuck::bytes_of(q));
    }
    m
}
fn run_on(p: &[[f64; 3]], kind: usize, s: Shape, par: bool, t: f64, n: usize) -> Found {
    let m = cloud(p);
    match kind % 3 {
        0 => {
            let b = vector(&m);
            let f = segment(&b, s, par, t, n);
            same_points(&b, &m, "the cloud changed");
            f
        }
        1 => {
            let b = columnar(&m);
            let f = segment(&b, s, par, t, n);
            same_points(&b, &m, "the cloud changed");
            f
        }
        _ => segment(&external(&m), s, par, t, n),
    }
}
fn v(p: [f64; 3]) -> Vector3<f64> {
    Vector3::new(p[0], p[1], p[2])
}
/// The distance of a point from the model; None if the model is no plane or line.
fn distance(s: Shape, m: &[f64], p: [f64; 3]) -> Option<f64> {
    match s {
        Plane => {
            let n = v([m[0], m[1], m[2]]);
            if n.x == 0.0 && n.y == 0.0 && n.z == 0.0 {
                return None;
            }
            Some((m[0] * p[0] + m[1] * p[1] + m[2] * p[2] + m[3]).abs() / (n.x * n.x + n.y * n.y + n.z * n.z).sqrt())
        }
        Line => {
            let (a, b) = (v([m[0], m[1], m[2]]), v([m[3], m[4], m[5]]));
            let d = b - a;
            if d.x == 0.0 && d.y == 0.0 && d.z == 0.0 {
                return None;
            }
            let c = d.cross(&(a - v(p)));
            Some((c.x * c.x + c.y * c.y + c.z * c.z).sqrt() / (d.x * d.x + d.y * d.y + d.z * d.z).sqrt())
        }
    }
}
const EPS: f64 = 1e-9;
fn check_found(p: &[[f64; 3]], s: Shape, t: f64, f: &Found) {
    check(f.model.len() == if s == Plane { 4 } else { 6 }, "numbers of the model");
    if f.model.len() != if s == Plane { 4 } else { 6 } {
        return;
    }
    check(f.points.iter().all(|i| *i < p.len()), "an index out of range");
    check((0..p.len()).all(|i| f.points.iter().filter(|j| **j == i).count() <= 1), "an index twice");
    check(f.ranking == f.points.len(), "the ranking is the number of inliers");
    let mut on = 0;
    for (i, q) in p.iter().enumerate() {
        let Some(d) = distance(s, &f.model, *q) else { return };
        if d <= EPS {
            on += 1;
        }
        if f.points.contains(&i) {
            check(d - EPS <= t, "an index of a point farther from the model than the threshold");
        } else {
            check(d + EPS >= t, "a point within the threshold is missing");
        }
    }
    check(on >= if s == Plane { 3 } else { 2 }, "the model goes through points of the cloud");
}
const CLOUDS: [[[f64; 3]; 4]; 5] = [
    [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [1.0, 1.0, 1.0]],
    [[1.0, 2.0, 3.0], [-2.0, 0.5, 1.0], [4.0, 4.0, -1.0], [0.25, -3.0, 2.0]],
    // collinear points
    [[0.0, 0.0, 1.0], [1.0, 1.0, 1.0], [2.0, 2.0, 1.0], [0.0, 3.0, 2.0]],
    // equal points
    [[5.0, 5.0, 5.0], [5.0, 5.0, 5.0], [5.0, 6.0, 5.0], [6.0, 5.0, 5.0]],
    // far away
    [[1000.0, 2000.0, -500.0], [1001.0, 2000.0, -500.0], [1000.0, 2001.0, -500.5], [1003.0, 2004.0, -500.0]],
];
fn thresholds(s: Shape) {
    let k = choice(CLOUDS.len(), "cloud");
    let t: f64 = sym("threshold");
    assume(!t.is_nan());
    rand::limit(if s == Plane { 4 } else { 3 });
    let f = run_on(&CLOUDS[k], k, s, choice(2, "par") == 1, t, 1);
    // no three points of the first two clouds lie on a line, no two of the others but the fourth are equal
    if k < 2 || (s == Line && k != 3) {
        check(f.model.len() < 4 || distance(s, &f.model, [0.0; 3]).is_some(), "a model out of points that span none");
    }
    check_found(&CLOUDS[k], s, t, &f);
}
fn coord() -> f64 {
    let x: i8 = sym("coordinate");
    x as f64 / 4.0
}
/// A model in a given direction, it and a point anywhere.
fn any_point(s: Shape) {
    let k = choice(3, "model");
    let base: [[f64; 3]; 3] = [
        [[0.0, 0.0, 0.0], [1.0, 2.0, 2.0], [3.0, -1.0, 0.0]],
        [[1.0, 1.0, 4.0], [-2.0, 5.0, 4.0], [0.0, 0.0, -7.5]],
        [[2.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 5.0]],
    ][k];
    let n = if s == Plane { 3 } else { 2 };
    let mut p = base[..n].to_vec();
    let off = [coord(), coord(), coord()];
    for q in p.iter_mut() {
        for i in 0..3 {
            q[i] += off[i];
        }
    }
    p.push([coord(), coord(), coord()]);
    rand::limit(n);
    rand::only(n);
    let t = [0.5, 2.0, 7.0][choice(3, "threshold")];
    let f = run_on(&p, k, s, choice(2, "par") == 1, t, 1);
    check_found(&p, s, t, &f);
}
/// A model along an axis through points anywhere.
fn any_level(s: Shape) {
    let axis = choice(3, "axis");
    let (x, y, z) = (coord(), coord(), coord());
    let mut p = if s == Plane { vec![[0.0, 0.0, z], [2.0, 0.0, z], [1.0, 3.0, z]] } else { vec![[x, y, 1.0], [x, y, -1.0]] };
    rand::limit(p.len());
    rand::only(p.len());
    p.push([coord(), coord(), coord()]);
    for q in p.iter_mut() {
        q.rotate_right(axis);
    }
    let t = [0.25, 1.5][choice(2, "threshold")];
    let f = run_on(&p, axis, s, choice(2, "par") == 1, t, 1);
    check_found(&p, s, t, &f);
}
/// Of two models the one with more inliers.
fn best(s: Shape, k: usize) {
    let p = &CLOUDS[k];
    let n = if s == Plane { 3 } else { 2 };
    let t = [0.25, 0.75][choice(2, "threshold")];
    let mut draws = vec![];
    let mut one = || {
        rand::limit(n);
        let f = run_on(p, 0, s, false, t, 1);
        draws.extend(rand::drawn());
        f
    };
    let (a, b) = (one(), one());
    rand::script(&draws);
    let f = run_on(p, k, s, choice(2, "par") == 1, t, 2);
    check_found(p, s, t, &f);
    check(f.points.len() == a.points.len().max(b.points.len()), "the best of the models tried");
    let same = |x: &Found| x.points == f.points && x.model.iter().zip(&f.model).all(|(x, y)| x.to_bits() == y.to_bits());
    check(same(&a) || same(&b), "one of the models tried");
}

/// Many points: 270 of them on a plane or line, 29 on a line across it, and one anywhere.
fn many(s: Shape) {
    let blocks = sym_bool("256 and 43 points");
    let other = |i: usize| if blocks { i >= 256 } else { i % 10 == 3 };
    let mut p: Vec<[f64; 3]> = (0..300)
        .map(|i| match s {
            _ if other(i) => [0.0, 0.0, i as f64],
            Plane => [(i % 17) as f64, (i * i % 29) as f64, 1.0],
            Line => [i as f64, 2.0, 1.0],
        })
        .collect();
    p[293] = [4.0, 2.0, coord()];
    let models: [[usize; 3]; 3] = match blocks {
        true => [[261, 277, 30], [5, 17, 199], [31, 290, 253]],
        false => [[13, 33, 101], [5, 17, 199], [43, 7, 253]],
    };
    let first = choice(3, "order");
    let n = if s == Plane { 3 } else { 2 };
    let t = 0.25;
    let mut draws = vec![];
    let mut best = 0;
    for k in 0..3 {
        rand::script(&models[(first + k) % 3][..n]);
        let f = run_on(&p, k, s, false, t, 1);
        draws.extend(rand::drawn());
        check_found(&p, s, t, &f);
        best = best.max(f.points.len());
    }
    rand::script(&draws);
    let f = run_on(&p, first, s, choice(2, "par") == 1, t, 3);
    check_found(&p, s, t, &f);
    check(f.points.len() == best, "the best of the models tried");
}

harness! {
    fn q_plane_thresholds() { bound("5 clouds of 4 points, every draw of 3 points and at most one drawn in vain, any threshold, par and serial"); thresholds(Plane) }
    fn q_line_thresholds() { bound("5 clouds of 4 points, every draw of 2 points and at most one drawn in vain, any threshold, par and serial"); thresholds(Line) }
    fn q_plane_any_point() { bound("planes in 3 directions through points in every order, they and a point anywhere: coordinates of 8 bits in quarters; 3 thresholds"); any_point(Plane) }
    fn q_line_any_point() { bound("lines in 3 directions through points in both orders, they and a point anywhere: coordinates of 8 bits in quarters; 3 thresholds"); any_point(Line) }
    fn q_plane_any_level() { bound("planes across an axis at any place and a point anywhere, coordinates of 8 bits in quarters, 2 thresholds"); any_level(Plane) }
    fn q_line_any_level() { bound("lines along an axis at any place and a point anywhere, coordinates of 8 bits in quarters, 2 thresholds"); any_level(Line) }
    fn q_plane_best_of_two() { bound("every two draws from a cloud of 4 points"); best(Plane, 2) }
    fn q_line_best_of_two() { bound("every two draws from a cloud of 4 points"); best(Line, 2) }
    fn q_too_few_points() {
        bound("planes from less than 3 points, lines from less than 2");
        let s = if sym_bool("plane") { Plane } else { Line };
        let n = choice(if s == Plane { 3 } else { 2 }, "points");
        let (par, kind) = (sym_bool("par"), choice(3, "buffer"));
        rand::limit(8);
        must_panic("a model of too few points", || run_on(&CLOUDS[1][..n], kind, s, par, 1.0, 2));
    }
    fn q_plane_many_points() { bound("300 points: 270 on a plane, 29 on a line (or 256 and 43), one at a coordinate of 8 bits; best of 3 models in every order"); many(Plane) }
    fn q_line_many_points() { bound("300 points: 270 on a line, 29 on another line (or 256 and 43), one at a coordinate of 8 bits; best of 3 models in every order"); many(Line) }
    fn t_plane_best_of_two() { bound("every two draws from 5 clouds of 4 points"); best(Plane, choice(5, "cloud")) }
    fn t_line_best_of_two() { bound("every two draws from 5 clouds of 4 points"); best(Line, choice(5, "cloud")) }
}

//! C18: centroid and normals.
use kd_tree::KdPoint;
use pasture_algorithms::normal_estimation::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;
use sxh::model::*;
use sxh::*;

#[repr(C, packed)]
#[derive(PointType, Debug, Clone, Copy, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
struct P {
    #[pasture(BUILTIN_CLASSIFICATION)]
    class: u8,
    #[pasture(BUILTIN_POSITION_3D)]
    position: Vector3<f64>,
}
impl KdPoint for P {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        let p = self.position;
        p[k]
    }
}
type V = [f64; 3];
fn cloud(p: &[V]) -> Model {
    let mut m = Model::sym(P::layout(), p.len(), "bytes");
    for (i, q) in p.iter().enumerate() {
        m.pts[i][1..25].copy_from_slice(bytemuck::bytes_of(q));
    }
    m
}
fn centroid(p: &[V], kind: usize) -> V {
    let m = cloud(p);
    let r = match kind {
        0 => compute_centroid(&vector(&m)),
        1 => compute_centroid(&columnar(&m)),
        _ => compute_centroid(&external(&m)),
    };
    [r.x, r.y, r.z]
}
fn normals(p: &[V], k: usize, kind: usize) -> Vec<(V, f64)> {
    let m = cloud(p);
    let r = match kind {
        0 => compute_normals::<_, P>(&vector(&m), k),
        1 => compute_normals::<_, P>(&columnar(&m), k),
        _ => compute_normals::<_, P>(&external(&m), k),
    };
    r.iter().map(|(n, c)| ([n.x, n.y, n.z], *c)).collect()
}
/// Whole numbers of some bits.
fn co(bits: u32) -> f64 {
    let x: u16 = sym("coordinate");
    ((x & ((1u32 << bits) - 1) as u16) as i32 - (1 << (bits - 1))) as f64
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
/// The direction of the least variance of a (known) cloud, its variance, and the sum of all variances:
/// by Jacobi rotations.
fn least(p: &[V]) -> (V, f64, f64) {
    let (v, l, t, _) = axes(p);
    (v, l, t)
}
/// How much more variance there is in the other directions.
fn gap(p: &[V]) -> f64 {
    let (_, l, t, second) = axes(p);
    (second - l) / t
}
fn axes(p: &[V]) -> (V, f64, f64, f64) {
    let n = p.len() as f64;
    let mut a = [[0.0f64; 3]; 3];
    let mut mean = [0.0; 3];
    for q in p {
        for i in 0..3 {
            mean[i] += q[i] / n;
        }
    }
    for q in p {
        for i in 0..3 {
            for j in 0..3 {
                a[i][j] += (q[i] - mean[i]) * (q[j] - mean[j]);
            }
        }
    }
    let mut v = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for _ in 0..12 {
        for (i, j) in [(0, 1), (0, 2), (1, 2)] {
            if a[i][j] == 0.0 {
                continue;
            }
            let h = (a[j][j] - a[i][i]) / (2.0 * a[i][j]);
            let t = (if h < 0.0 { -1.0 } else { 1.0 }) / (h.abs() + (h * h + 1.0).sqrt());
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            for k in 0..3 {
                (a[k][i], a[k][j]) = (c * a[k][i] - s * a[k][j], s * a[k][i] + c * a[k][j]);
            }
            for k in 0..3 {
                (a[i][k], a[j][k]) = (c * a[i][k] - s * a[j][k], s * a[i][k] + c * a[j][k]);
                (v[k][i], v[k][j]) = (c * v[k][i] - s * v[k][j], s * v[k][i] + c * v[k][j]);
            }
        }
    }
    let mut m = 0;
    for i in 1..3 {
        if a[i][i] < a[m][m] {
            m = i;
        }
    }
    let second = if a[(m + 1) % 3][(m + 1) % 3] < a[(m + 2) % 3][(m + 2) % 3] { a[(m + 1) % 3][(m + 1) % 3] } else { a[(m + 2) % 3][(m + 2) % 3] };
    ([v[0][m], v[1][m], v[2][m]], a[m][m], a[0][0] + a[1][1] + a[2][2], second)
}
fn is_normal(r: (V, f64), p: &[V]) {
    let (q, l, t) = least(p);
    let c = dot(r.0, q);
    check(c * c > 0.999999999 * dot(r.0, r.0), "a normal is not the direction of the least variance");
    check((r.1 - l / t).abs() < 1e-9, "the curvature is not the share of the least variance");
}
/// Of four points, so that their mean is exact.
const CLOUDS: [[V; 4]; 6] = [
    [[1., 2., 0.], [3., -1., 1.], [-2., 0., 2.], [0., 1., -1.]],
    [[5., 0., 0.], [-5., 0., 1.], [0., 3., 0.], [0., -3., 4.]],
    [[0., 0., 0.], [0., 4., 1.], [1., 0., 4.], [0., 4., 4.]],
    [[0., 0., 0.], [4., 0., 2.], [0., 4., 2.], [4., 4., 4.]],
    [[1., 1., 1.], [1., 1., 1.], [3., 1., 2.], [1., 1., 5.]],
    [[0., 0., 0.], [0., 0., 9.], [7., 8., 0.], [1., 0., 1.]],
];
fn moved(p: &[V], t: V) -> Vec<V> {
    p.iter().map(|q| [q[0] + t[0], q[1] + t[1], q[2] + t[2]]).collect()
}

harness! {
    fn q_centroid() {
        bound("1 to 4 points of 16-bit coordinates");
        let p: Vec<V> = (0..choice(4, "points") + 1).map(|_| [co(16), co(16), co(16)]).collect();
        let c = centroid(&p, choice(3, "buffer"));
        for k in 0..3 {
            let s = p.iter().fold(0.0, |s, q| s + q[k]);
            check(c[k] == s / p.len() as f64, "the mean of the positions");
        }
    }
    fn q_centroid_nan() {
        bound("1 to 3 points of 12-bit coordinates, some of which are no numbers or, as long as another is no number, infinite");
        let n = choice(3, "points") + 1;
        let mut p: Vec<V> = (0..n).map(|_| [co(12), co(12), co(12)]).collect();
        let bad: Vec<usize> = (0..n).map(|_| choice(3, "finite")).collect();
        assume(bad.contains(&1));
        for i in 0..n {
            if bad[i] > 0 {
                p[i][choice(3, "axis")] = if bad[i] == 1 { f64::NAN } else { [f64::INFINITY, f64::NEG_INFINITY][i % 2] };
            }
        }
        let c = centroid(&p, choice(2, "buffer"));
        let good: Vec<&V> = (0..n).filter(|i| bad[*i] == 0).map(|i| &p[i]).collect();
        for k in 0..3 {
            if good.is_empty() {
                check(c[k].is_nan(), "a mean of nothing");
            } else {
                let s = good.iter().fold(0.0, |s, q| s + q[k]);
                check(c[k] == s / good.len() as f64, "the mean of the finite positions");
            }
        }
    }
    fn q_refused() {
        bound("fewer than 3 points or neighbours, of any position");
        let x = sym_arr::<u64, 9>("position").map(f64::from_bits);
        let p: Vec<V> = (0..3).map(|i| [x[3 * i], x[3 * i + 1], x[3 * i + 2]]).collect();
        match choice(3, "request") {
            0 => { let n = choice(3, "points"); must_panic("normals of fewer than 3 points", || normals(&p[..n], 3 + n, n)) }
            1 => { let k = choice(3, "neighbours"); must_panic("normals from fewer than 3 neighbours", || normals(&p, k, k)) }
            _ => must_panic("a centroid of no points", || centroid(&[], 0)),
        }
    }
    fn q_moved() {
        bound("6 clouds of 4 points, two of them flat, moved by any vector of 10-bit coordinates, with all points or more as neighbours");
        let i = choice(6, "cloud");
        let p = moved(&CLOUDS[i], [co(10), co(10), co(10)]);
        let r = normals(&p, 4 + choice(2, "neighbours"), choice(3, "buffer"));
        check(r.len() == 4, "as many normals as points");
        for x in r {
            is_normal(x, &CLOUDS[i]);
        }
    }
    fn q_two_clouds() {
        bound("2 of 6 clouds of 4 points, the second one moved away along an axis by any of 128 distances, in 3 orders");
        let i = choice(6, "cloud");
        let j = (i + 1 + choice(2, "cloud")) % 6;
        let mut t = [0.0, 0.0, 0.0];
        t[choice(3, "axis")] = co(7) + if sym_bool("below") { -104.0 } else { 104.0 };
        let (a, b) = (CLOUDS[i], moved(&CLOUDS[j], t));
        let o = [[0, 1, 2, 3, 4, 5, 6, 7], [7, 0, 6, 1, 5, 2, 4, 3], [4, 5, 6, 7, 0, 1, 2, 3]][choice(3, "order")];
        let p: Vec<V> = o.iter().map(|x| if *x < 4 { a[*x] } else { b[*x - 4] }).collect();
        let r = normals(&p, 4, 1);
        check(r.len() == 8, "as many normals as points");
        for (x, r) in o.iter().zip(r) {
            is_normal(r, &CLOUDS[if *x < 4 { i } else { j }]);
        }
    }
    fn q_flat() {
        bound("clouds of 4 points in one of 3 planes, 2 of which at a 4-bit coordinate along a line");
        // the largest entry of the covariance matrix is a known power of two, so that scaling is exact
        let x = [16., -16., 0., 0.];
        let f = [[0., 0.], [1., 0.], [0.5, -1.]][choice(3, "plane")];
        let p: Vec<V> = x.iter().map(|x| { let y = if *x == 16. { 3. } else if *x == -16. { -1. } else { co(4) }; [*x, y, f[0] * x + f[1] * y] }).collect();
        let spans = (p[0][1] + p[1][1] != p[2][1] + p[2][1]) | (p[2][1] != p[3][1]);
        for (n, c) in normals(&p, 4, 0) {
            check((n[0] == -f[0] * n[2]) & (n[1] == -f[1] * n[2]), "a normal is not that of the plane");
            check((n[2] != 0.0) | !spans, "a plane without a normal");
            check(c == 0.0, "a plane with a curvature");
        }
    }
    fn q_normals_nan() {
        bound("6 clouds of 4 points at 3 places, with 1 to 4 more points between them of which one coordinate is no number, 3 orders; 4 neighbours, or as many as there are points");
        let i = choice(6, "cloud");
        let c = moved(&CLOUDS[i], [3.0, [0.0, -57.0, 1000.0][choice(3, "place")], -1.0]);
        let more = choice(4, "more") + 1;
        let order = choice(3, "order");
        let axis = choice(3, "axis");
        let mut p: Vec<(bool, V)> = c.iter().map(|x| (true, *x)).collect();
        for k in 0..more {
            let mut x = c[k];
            x[(axis + k) % 3] = f64::NAN;
            match order {
                0 => p.push((false, x)),
                1 => p.insert(0, (false, x)),
                _ => p.insert(k * 2 + 1, (false, x)),
            }
        }
        let all: Vec<V> = p.iter().map(|x| x.1).collect();
        // a neighbourhood of every point has 3 others
        let k = if sym_bool("all") { all.len() } else { 4 };
        if k == 4 { assume(more < 2) }
        let r = normals(&all, k, 1);
        check(r.len() == all.len(), "as many normals as points");
        for (x, r) in p.iter().zip(r) {
            if x.0 { is_normal(r, &CLOUDS[i]) }
        }
    }
    fn q_many_points() {
        bound("40 scattered points, at 3 places; 3, 7, 12 or 30 neighbours");
        let axis = choice(3, "axis");
        let p: Vec<V> = (0..40i64).map(|i| {
            let h = |k: i64, n: i64| ((i * k + k) * 7919 % n) as f64;
            [h(13, 101), h(29, 37) * 4.0, h(7, 211) - (i % 5) as f64]
        }).collect();
        let mut t = [0.0; 3];
        t[axis] = [0.0, -1000.0, 0.5][axis];
        let all = moved(&p, t);
        let k = [3, 7, 12, 30][choice(4, "neighbours")];
        let r = normals(&all, k, axis);
        check(r.len() == all.len(), "as many normals as points");
        for (a, r) in p.iter().zip(r) {
            let mut by: Vec<(f64, V)> = p.iter().map(|b| { let d = [a[0] - b[0], a[1] - b[1], a[2] - b[2]]; (dot(d, d), *b) }).collect();
            by.sort_by(|x, y| x.0.total_cmp(&y.0));
            if by[k].0 > by[k - 1].0 {
                let near: Vec<V> = by[..k].iter().map(|x| x.1).collect();
                // unless there are nearly two such directions
                if gap(&near) > 0.01 { is_normal(r, &near) }
            }
        }
    }
    fn q_two_larger_clouds() {
        bound("2 clouds of 8 points each, the second one moved away along an axis by any of 16 distances; 8 neighbours");
        let a: Vec<V> = CLOUDS[0].into_iter().chain(moved(&CLOUDS[1], [4.0, 3.0, 8.0])).collect();
        let b: Vec<V> = CLOUDS[3].into_iter().chain(moved(&CLOUDS[5], [-4.0, 4.0, 0.0])).collect();
        let mut t = [0.0; 3];
        t[choice(3, "axis")] = co(4) + 104.0;
        let c = moved(&b, t);
        let p: Vec<V> = (0..16).map(|i| if i % 2 == 0 { a[i / 2] } else { c[i / 2] }).collect();
        for (i, r) in normals(&p, 8, 0).into_iter().enumerate() {
            is_normal(r, if i % 2 == 0 { &a } else { &b });
        }
    }
    fn q_centroid_many() {
        bound("600 points, one of any 8-bit coordinates, one of which may be no number");
        let mut p: Vec<V> = (0..600i64).map(|i| [(i * 31 % 257) as f64, (i * i % 1009) as f64 - 500.0, i as f64]).collect();
        let at = [0, 299, 599][choice(3, "at")];
        p[at] = [co(8), co(8), co(8)];
        let nan = sym_bool("nan");
        if nan { p[at][2] = f64::NAN }
        let c = centroid(&p, choice(3, "buffer"));
        for k in 0..3 {
            let mut s = 0.0;
            for (i, q) in p.iter().enumerate() {
                if !(nan && i == at) { s += q[k] }
            }
            check(c[k] == s / (600 - nan as usize) as f64, "the mean of the positions");
        }
    }
}

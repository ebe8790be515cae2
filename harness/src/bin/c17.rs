//! C17: reprojection, with a projection of the harness in place of PROJ.
use pasture_algorithms::reprojection::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;

/// Tells apart coordinates, axes, directions and reference systems.
fn mix(s: &str, t: &str, fwd: bool, c: [f64; 4]) -> [f64; 4] {
    let b = c.map(|x| x.to_bits());
    let k = (s.len() as u64) << 20 | (t.len() as u64) << 8 | fwd as u64;
    [b[1] ^ k, b[2].rotate_left(8) ^ b[3] ^ 1, b[0].swap_bytes() ^ b[1] ^ (k << 7), 0].map(f64::from_bits)
}
fn image(x: &[u8]) -> Vec<u8> {
    let v = |i: usize| f64::from_bits(u64::from_le_bytes(x[8 * i..8 * i + 8].try_into().unwrap()));
    let r = mix("from", "to", true, [v(0), v(1), v(2), 0.0]);
    r[..3].iter().flat_map(|x| x.to_bits().to_le_bytes()).collect()
}
/// Layouts with positions at different places.
fn with_positions(k: usize) -> PointLayout {
    match k {
        0 => PointLayout::from_attributes(&[attributes::POSITION_3D]),
        1 => PointLayout::from_attributes_packed(&[attributes::CLASSIFICATION, attributes::POSITION_3D, attributes::INTENSITY], 1),
        2 => PointLayout::from_attributes(&[attributes::INTENSITY, attributes::NORMAL, attributes::POSITION_3D, attributes::GPS_TIME]),
        _ => PointLayout::from_attributes_packed(&[attributes::POSITION_3D, attributes::COLOR_RGB], 2),
    }
}
fn offset(m: &Model) -> usize {
    m.layout.get_attribute(&attributes::POSITION_3D).unwrap().offset() as usize
}
fn projected(src: &Model, dst: &Model) -> Model {
    let (a, b) = (offset(src), offset(dst));
    let mut r = dst.clone();
    for i in 0..dst.pts.len() {
        let p = image(&src.pts[i][a..a + 24]);
        r.pts[i][b..b + 24].copy_from_slice(&p);
    }
    r
}
fn within(kind: usize, l: usize, n: usize) {
    proj_sys::set_map(mix);
    let m = Model::sym(with_positions(l), n, "bytes");
    let mut want = projected(&m, &m);
    match kind {
        0 => {
            let mut b = vector(&m);
            reproject_point_cloud_within(&mut b, "from", "to");
            same_points(&b, &want, "projected points");
        }
        1 => {
            let mut b = columnar(&m);
            reproject_point_cloud_within(&mut b, "from", "to");
            same_points(&b, &want, "projected points");
        }
        2 => {
            let mut mem = m.concat();
            let mut b = ExternalMemoryBuffer::new(&mut mem[..], m.layout.clone());
            reproject_point_cloud_within(&mut b, "from", "to");
            same_points(&b, &want, "projected points");
        }
        _ => {
            // a part of a buffer
            let from = n.min(1);
            let mut b = vector(&m);
            {
                let mut s = b.slice_mut(from..n);
                reproject_point_cloud_within(&mut s, "from", "to");
            }
            for i in 0..from {
                want.pts[i] = m.pts[i].clone();
            }
            same_points(&b, &want, "projected points");
        }
    }
    check(proj_sys::open() == 0, "the projection was not released");
}
fn between(k: usize, l: usize, l2: usize, n: usize) {
    proj_sys::set_map(mix);
    let (m, t) = (Model::sym(with_positions(l), n, "bytes"), Model::sym(with_positions(l2), n, "bytes"));
    let want = projected(&m, &t);
    fn go<A: for<'a> BorrowedMutBuffer<'a>, B: for<'a> BorrowedMutBuffer<'a>>(mut a: A, mut b: B, m: &Model, want: &Model) {
        reproject_point_cloud_between(&mut a, &mut b, "from", "to");
        same_points(&a, m, "the source changed");
        same_points(&b, want, "projected points");
    }
    match k {
        0 => go(vector(&m), vector(&t), &m, &want),
        1 => go(vector(&m), columnar(&t), &m, &want),
        2 => go(columnar(&m), vector(&t), &m, &want),
        _ => go(columnar(&m), columnar(&t), &m, &want),
    }
    check(proj_sys::open() == 0, "the projection was not released");
}
/// Whole numbers of some bits.
fn co(bits: u32) -> f64 {
    let x: u8 = sym("coordinate");
    ((x as u32 & ((1u32 << bits) - 1)) as i32 - (1 << (bits - 1))) as f64
}
fn affine(a: [[f64; 3]; 3], x: [f64; 4]) -> [f64; 4] {
    let r = |i: usize| a[i][0] * x[0] + a[i][1] * x[1] + a[i][2] * x[2] + (i as f64 - 1.0) * 100.0;
    [r(0), r(1), r(2), 0.0]
}
const MAPS: [[[f64; 3]; 3]; 4] = [
    [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]],
    [[0., -1., 0.], [1., 0., 0.], [0., 0., -2.]],
    [[3., -4., 0.], [4., 3., 0.], [0., 0., 1.]],
    [[1., 2., -1.], [-1., 0.5, 0.], [0., -1., 1.]],
];
fn m0(_: &str, _: &str, _: bool, c: [f64; 4]) -> [f64; 4] { affine(MAPS[0], c) }
fn m1(_: &str, _: &str, _: bool, c: [f64; 4]) -> [f64; 4] { affine(MAPS[1], c) }
fn m2(_: &str, _: &str, _: bool, c: [f64; 4]) -> [f64; 4] { affine(MAPS[2], c) }
fn m3(_: &str, _: &str, _: bool, c: [f64; 4]) -> [f64; 4] { affine(MAPS[3], c) }
/// Boxes and a point within the box.
fn bounds_of_image(k: usize) {
    proj_sys::set_map([m0, m1, m2, m3][k]);
    let n = [7, 7, 5, 3][k];
    let any = || [co(n), co(n), co(n)];
    let (a, b, p) = (any(), any(), any());
    for i in 0..3 {
        assume((a[i] <= b[i]) & (a[i] <= p[i]) & (p[i] <= b[i]));
    }
    let pr = Projection::new("from", "to").unwrap();
    let r = pr.transform_bounds(&AABB::from_min_max(Point3::new(a[0], a[1], a[2]), Point3::new(b[0], b[1], b[2])));
    let q = affine(MAPS[k], [p[0], p[1], p[2], 0.0]);
    {
        let i = choice(3, "axis");
        check((r.min()[i] <= q[i]) & (q[i] <= r.max()[i]), "a point within the bounds is outside of their image");
        // no larger than needed: for each row of the matrix, the sum of the least terms
        let (mut lo, mut hi) = ((i as f64 - 1.0) * 100.0, (i as f64 - 1.0) * 100.0);
        for j in 0..3 {
            let f = MAPS[k][i][j];
            lo += f * if f < 0.0 { b[j] } else { a[j] };
            hi += f * if f < 0.0 { a[j] } else { b[j] };
        }
        check((r.min()[i] == lo) & (r.max()[i] == hi), "the bounds of the corners");
    }
}
macro_rules! unprojected { ($b:expr, $t:expr, $s:expr, $d:expr) => {{
    let (mut b, mut t) = ($b, $t);
    must_panic("positions that cannot be projected are accepted", || {
        if sym_bool("within") { reproject_point_cloud_within(&mut b, $s, $d) } else { reproject_point_cloud_between(&mut b, &mut t, $s, $d) }
    })
}}}

harness! {
    fn q_within() {
        bound("0 to 3 points, 4 layouts, owned and borrowed memory in both layouts of memory, and a part of a buffer");
        within(choice(4, "buffer"), choice(4, "layout"), choice(4, "points"))
    }
    fn q_between() {
        bound("0 to 3 points, 4 x 4 layouts, 4 pairs of buffers");
        between(choice(4, "buffers"), choice(4, "layout"), choice(4, "layout"), choice(4, "points"))
    }
    fn q_within_many() {
        bound("130 points, owned and borrowed memory in both layouts of memory, and a part of a buffer");
        within(choice(4, "buffer"), 1, 130)
    }
    fn q_between_many() {
        bound("260 points, 4 pairs of buffers");
        between(choice(4, "buffers"), 2, 1, 260)
    }
    fn q_transform() {
        bound("any position");
        proj_sys::set_map(mix);
        {
            let p = Projection::new("from", "to").unwrap();
            let v: [u64; 3] = sym_arr("position");
            let x: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
            let r = p.transform(Vector3::new(f64::from_bits(v[0]), f64::from_bits(v[1]), f64::from_bits(v[2])));
            let got: Vec<u8> = r.iter().flat_map(|x| x.to_bits().to_le_bytes()).collect();
            check(bytes_eq(&got, &image(&x)), "the image of a position");
            check(proj_sys::open() == 2, "a projection in use");
        }
        check(proj_sys::open() == 0, "the projection was not released");
    }
    fn q_unknown_system() {
        bound("source, target or both unknown, or names that are no C strings");
        let s = ["!unknown", "from", "!unknown", "fr\0om", "from"][choice(5, "systems")];
        let t = if s == "from" { if sym_bool("nul") { "t\0o" } else { "!unknown" } } else if sym_bool("same") { s } else { "to" };
        check(Projection::new(s, t).is_err(), "a projection between unknown systems");
        check(proj_sys::open() == 0, "the context was not released");
    }
    fn q_unknown_system_cloud() {
        bound("2 points; source or target unknown");
        let (s, t) = if sym_bool("source") { ("!unknown", "to") } else { ("from", "!unknown") };
        let m = Model::sym(with_positions(1), 2, "bytes");
        let (b, c) = (vector(&m), vector(&m));
        frozen(b.get_point_range_ref(0..2));
        frozen(c.get_point_range_ref(0..2));
        unprojected!(b, c, s, t)
    }
    fn q_other_sizes() {
        bound("clouds of 0 to 3 points of different sizes");
        proj_sys::set_map(mix);
        let (n, k) = (choice(4, "points"), choice(4, "points"));
        assume(n != k);
        let (m, t) = (Model::sym(with_positions(1), n, "bytes"), Model::sym(with_positions(2), k, "bytes"));
        let (mut b, mut c) = (columnar(&m), vector(&t));
        frozen(c.get_point_range_ref(0..k));
        must_panic("clouds of different sizes", || reproject_point_cloud_between(&mut b, &mut c, "from", "to"))
    }
    fn q_no_positions() {
        bound("clouds without positions, or with positions of another type");
        proj_sys::set_map(mix);
        let a = PointAttributeDefinition::custom(Cow::Borrowed("Position3D"), PointAttributeDataType::Vec3f32);
        let l = [PointLayout::from_attributes(&[attributes::INTENSITY]), PointLayout::from_attributes(&[a])][choice(2, "layout")].clone();
        let (m, t) = (Model::sym(l, 1, "bytes"), Model::sym(with_positions(0), 1, "bytes"));
        if sym_bool("source") {
            let c = vector(&t);
            frozen(c.get_point_range_ref(0..1));
            unprojected!(vector(&m), c, "from", "to")
        } else {
            let b = vector(&m);
            frozen(b.get_point_range_ref(0..1));
            unprojected!(b, vector(&t), "from", "to")
        }
    }
    fn q_bounds_0() { bound("any box of 7-bit coordinates and any point in it, shifted"); bounds_of_image(0) }
    fn q_bounds_1() { bound("any box of 7-bit coordinates and any point in it, turned by 90 degrees"); bounds_of_image(1) }
    fn q_bounds_2() { bound("any box of 5-bit coordinates and any point in it, turned by an angle"); bounds_of_image(2) }
    fn q_bounds_3() { bound("any box of 3-bit coordinates and any point in it, skewed"); bounds_of_image(3) }
}

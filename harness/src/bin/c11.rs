//! C11: bounding boxes.
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};
use sxh::*;

type P<T> = Point3<T>;
trait Co: Pod + PartialOrd + std::fmt::Debug + 'static {
    /// a number (not a NaN or infinity)
    fn number(name: &str) -> Self;
}
macro_rules! co { ($($t:ty)*) => { $(impl Co for $t { fn number(name: &str) -> Self { sym(name) } })* } }
co!(i32 u8 i64 u16);
impl Co for f64 {
    fn number(name: &str) -> f64 {
        let x: f64 = sym(name);
        assume(x.abs() <= f64::MAX);
        x
    }
}
impl Co for f32 {
    fn number(name: &str) -> f32 {
        let x: f32 = sym(name);
        assume(x.abs() <= f32::MAX);
        x
    }
}
fn pt<T: Co>(n: &str) -> P<T> {
    P::new(T::number(n), T::number(n), T::number(n))
}
fn le<T: Co>(a: &P<T>, b: &P<T>) -> bool {
    (a.x <= b.x) & (a.y <= b.y) & (a.z <= b.z)
}
fn eqp<T: Co>(a: &P<T>, b: &P<T>) -> bool {
    (a.x == b.x) & (a.y == b.y) & (a.z == b.z)
}
fn inside<T: Co>(p: &P<T>, a: &P<T>, b: &P<T>) -> bool {
    le(a, p) & le(p, b)
}
fn lo<T: Co>(a: T, b: T) -> T {
    if a <= b { a } else { b }
}
fn hi<T: Co>(a: T, b: T) -> T {
    if a >= b { a } else { b }
}

macro_rules! boxes { ($m:ident, $t:ty) => { mod $m {
    use super::*;
    fn bx(n: &str) -> (P<$t>, P<$t>, AABB<$t>) {
        let (a, b) = (pt::<$t>(n), pt::<$t>(n));
        assume(le(&a, &b));
        (a, b, AABB::from_min_max(a, b))
    }
    pub fn construct() {
        let (a, b) = (pt::<$t>("min"), pt::<$t>("max"));
        if le(&a, &b) {
            let x = AABB::from_min_max(a, b);
            check(eqp(x.min(), &a) & eqp(x.max(), &b), "corners of a box");
            check(x.contains(&a) & x.contains(&b), "a box contains its corners");
            let y = AABB::from_min_max_unchecked(a, b);
            check(x == y, "equality of boxes");
            let c = pt::<$t>("other corner");
            check((AABB::from_min_max_unchecked(a, c) == x) == eqp(&c, &b), "equality of boxes");
        } else {
            cover("minimum above the maximum");
            must_panic("a minimum above the maximum was accepted", || AABB::from_min_max(a, b));
        }
    }
    pub fn contains() {
        let (a, b, x) = bx("box");
        let p = pt::<$t>("point");
        check(x.contains(&p) == inside(&p, &a, &b), "contained points are those between the corners");
    }
    pub fn intersects() {
        let (a, b, x) = bx("box");
        let (c, d, y) = bx("other");
        let i = x.intersects(&y);
        check(i == y.intersects(&x), "intersection is symmetric");
        check(x.intersects(&x), "a box intersects itself");
        // a common point
        let p = pt::<$t>("point");
        if inside(&p, &a, &b) & inside(&p, &c, &d) {
            check(i, "boxes with a common point intersect");
        }
        if i {
            // the largest of the minima is a common point
            let q = P::new(hi(a.x, c.x), hi(a.y, c.y), hi(a.z, c.z));
            check(x.contains(&q) & y.contains(&q), "boxes that intersect have a common point");
        }
    }
    pub fn union() {
        let (a, b, x) = bx("box");
        let (c, d, y) = bx("other");
        let u = AABB::union(&x, &y);
        let (m, n) = (u.min(), u.max());
        check(le(m, &a) & le(m, &c) & le(&b, n) & le(&d, n), "a union contains both boxes");
        check((m.x == lo(a.x, c.x)) & (m.y == lo(a.y, c.y)) & (m.z == lo(a.z, c.z)), "a union is the smallest box");
        check((n.x == hi(b.x, d.x)) & (n.y == hi(b.y, d.y)) & (n.z == hi(b.z, d.z)), "a union is the smallest box");
        check(u == AABB::union(&y, &x), "a union does not depend on the order");
    }
    pub fn extend() {
        let (a, b, x) = bx("box");
        let p = pt::<$t>("point");
        let u = AABB::extend_with_point(&x, &p);
        let (m, n) = (u.min(), u.max());
        check(u.contains(&p), "an extended box contains the point");
        check((m.x == lo(a.x, p.x)) & (m.y == lo(a.y, p.y)) & (m.z == lo(a.z, p.z)), "an extended box is the smallest");
        check((n.x == hi(b.x, p.x)) & (n.y == hi(b.y, p.y)) & (n.z == hi(b.z, p.z)), "an extended box is the smallest");
        check(!x.contains(&p) | (u == x), "extending by a point inside");
    }
} } }
boxes!(f64s, f64);
boxes!(f32s, f32);
boxes!(i32s, i32);

/// Coordinates on which halving and adding are exact.
fn exact(n: &str) -> P<f64> {
    P::new(sym::<i8>(n) as f64, sym::<i8>(n) as f64, sym::<i8>(n) as f64)
}
fn exact32(n: &str) -> P<f32> {
    P::new(sym::<i8>(n) as f32, sym::<i8>(n) as f32, sym::<i8>(n) as f32)
}

macro_rules! cube { ($e:ident, $t:ty) => {{
    bound("cube, centre and extent: integer coordinates of 8 bits, where the arithmetic is exact");
    let (a, b) = ($e("min"), $e("max"));
    assume(le(&a, &b));
    let x = AABB::<$t>::from_min_max(a, b);
    let c = x.center();
    let e = x.extent();
    check((e.x == b.x - a.x) & (e.y == b.y - a.y) & (e.z == b.z - a.z), "extent");
    check((c.x - a.x == b.x - c.x) & (c.y - a.y == b.y - c.y) & (c.z - a.z == b.z - c.z), "the centre is in the middle");
    let q = x.as_cubic();
    let (m, n) = (q.min(), q.max());
    let s = n.x - m.x;
    check((s == n.y - m.y) & (s == n.z - m.z), "a cube has sides of equal length");
    check((s >= e.x) & (s >= e.y) & (s >= e.z), "the cube is as long as the longest side");
    check((s == e.x) | (s == e.y) | (s == e.z), "the cube is no longer than the longest side");
    check(le(m, &a) & le(&b, n), "the cube contains the box");
    let k = q.center();
    check(eqp(&k, &c), "the cube is around the centre of the box");
}} }

fn collect(n: usize) {
    bound("boxes collected from up to 3 points with finite coordinates");
    let ps: Vec<P<f64>> = (0..n).map(|_| pt::<f64>("point")).collect();
    let x: AABB<f64> = ps.iter().copied().collect();
    let (m, k) = (x.min(), x.max());
    let mut touch = [false; 6];
    for p in &ps {
        check(x.contains(p), "a collected box contains its points");
        touch[0] |= p.x == m.x;
        touch[1] |= p.y == m.y;
        touch[2] |= p.z == m.z;
        touch[3] |= p.x == k.x;
        touch[4] |= p.y == k.y;
        touch[5] |= p.z == k.z;
    }
    check(touch.iter().fold(true, |a, b| a & *b), "every face of a collected box touches a point");
}

harness! {
fn q_construct_f64() { f64s::construct() }
fn q_construct_i32() { i32s::construct() }
fn q_construct_f32() { f32s::construct() }
fn q_contains_f64() { f64s::contains() }
fn q_contains_i32() { i32s::contains() }
fn q_contains_f32() { f32s::contains() }
fn q_intersects_f64() { f64s::intersects() }
fn q_intersects_i32() { i32s::intersects() }
fn q_intersects_f32() { f32s::intersects() }
fn q_union_f64() { f64s::union() }
fn q_union_i32() { i32s::union() }
fn q_union_f32() { f32s::union() }
fn q_extend_f64() { f64s::extend() }
fn q_extend_i32() { i32s::extend() }
fn q_extend_f32() { f32s::extend() }
fn q_cube_f64() { cube!(exact, f64) }
fn q_cube_f32() { cube!(exact32, f32) }
fn q_collect() { collect(1 + choice(2, "points")) }
fn t_collect3() { collect(3) }
fn q_collect_none() { must_panic("a box of no points", || Vec::<P<f64>>::new().into_iter().collect::<AABB<f64>>()) }
/// Extents over the whole range of integers are refused rather than wrong.
fn q_extent_i32() {
    let (a, b) = (pt::<i32>("min"), pt::<i32>("max"));
    assume(le(&a, &b));
    let x = AABB::from_min_max(a, b);
    let w = |p: i32, q: i32| q as i64 - p as i64;
    let fits = (w(a.x, b.x) <= i32::MAX as i64) & (w(a.y, b.y) <= i32::MAX as i64) & (w(a.z, b.z) <= i32::MAX as i64);
    assume(fits);
    let e = x.extent();
    check((e.x as i64 == w(a.x, b.x)) & (e.y as i64 == w(a.y, b.y)) & (e.z as i64 == w(a.z, b.z)), "extent");
}
fn q_contains_approx() {
    bound("contains_approx: integer coordinates of 8 bits");
    let (a, b) = (exact("min"), exact("max"));
    assume(le(&a, &b));
    let x = AABB::<f64>::from_min_max(a, b);
    let p = exact("point");
    let e = sym::<u8>("epsilon") as f64;
    let f = Vector3::new(e, e, e);
    check(x.contains_approx(&p, e) == inside(&p, &(a - f), &(b + f)), "approximate containment is containment in the box grown by epsilon");
}
fn q_contains_approx_zero() {
    let (a, b) = (pt::<f64>("min"), pt::<f64>("max"));
    assume(le(&a, &b));
    let p = pt::<f64>("point");
    let x = AABB::<f64>::from_min_max(a, b);
    check(x.contains_approx(&p, 0.0) == x.contains(&p), "approximate containment without tolerance");
}
}

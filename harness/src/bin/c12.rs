//! C12: minimum and maximum of an attribute.
use pasture_algorithms::minmax::minmax_attribute;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::math::MinMax;
use pasture_core::nalgebra::Vector3;
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;

fn def<T: PrimitiveType>() -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed("x"), T::data_type())
}
/// Points with the given values of an attribute of type S among others.
fn model<S: PrimitiveType + bytemuck::NoUninit>(values: &[S], lay: usize) -> Model {
    let others = [attributes::USER_DATA, attributes::GPS_TIME];
    let l = match lay {
        0 => PointLayout::from_attributes(&[others[0].clone(), def::<S>(), others[1].clone()]),
        1 => PointLayout::from_attributes_packed(&[others[0].clone(), def::<S>()], 1),
        _ => PointLayout::from_attributes(&[def::<S>()]),
    };
    let o = l.get_attribute_by_name("x").unwrap().offset() as usize;
    let mut m = Model::sym(l, values.len(), "other bytes");
    for (p, v) in m.pts.iter_mut().zip(values) {
        p[o..o + std::mem::size_of::<S>()].copy_from_slice(bytemuck::bytes_of(v));
    }
    m
}
/// The extremes as values of type T, from any kind of buffer.
fn find<S: PrimitiveType + bytemuck::NoUninit, T: PrimitiveType + MinMax + Copy>(values: &[S], a: &PointAttributeDefinition) -> Option<(T, T)> {
    let layout = choice(3, "layout");
    find_in(values, a, layout)
}
fn find_in<S: PrimitiveType + bytemuck::NoUninit, T: PrimitiveType + MinMax + Copy>(values: &[S], a: &PointAttributeDefinition, lay: usize) -> Option<(T, T)> {
    let m = model(values, lay);
    match choice(4, "buffer") {
        0 => minmax_attribute(&vector(&m), a),
        1 => minmax_attribute(&columnar(&m), a),
        2 => minmax_attribute(&external(&m), a),
        _ => {
            // a part of a larger buffer
            let mut big = Model::new(m.layout.clone());
            big.pts.push(big.fresh("outside"));
            big.pts.extend(m.pts.iter().cloned());
            big.pts.push(big.fresh("outside"));
            let b = columnar(&big);
            let s = b.slice(1..1 + m.pts.len());
            minmax_attribute(&s, a)
        }
    }
}
fn some<T: Pod>(max: usize, ok: impl Fn(T) -> bool) -> Vec<T> {
    let n = choice(max + 1, "points");
    let mut v = Vec::new();
    for _ in 0..n {
        let x = sym("value");
        assume(ok(x));
        v.push(x);
    }
    v
}
fn some3<T: Pod + pasture_core::nalgebra::Scalar>(max: usize, ok: impl Fn(T) -> bool) -> Vec<Vector3<T>> {
    let n = choice(max + 1, "points");
    let mut v = Vec::new();
    for _ in 0..n {
        let x: [T; 3] = sym_arr("value");
        assume(ok(x[0]) & ok(x[1]) & ok(x[2]));
        v.push(Vector3::new(x[0], x[1], x[2]));
    }
    v
}
fn extremes<T: PartialOrd + Copy>(lo: T, hi: T, v: impl Iterator<Item = T>) {
    let (mut least, mut most, mut has_lo, mut has_hi) = (true, true, false, false);
    for x in v {
        least &= lo <= x;
        most &= x <= hi;
        has_lo |= lo == x;
        has_hi |= hi == x;
    }
    check(least, "a value below the minimum");
    check(most, "a value above the maximum");
    check(has_lo, "the minimum is no value of the attribute");
    check(has_hi, "the maximum is no value of the attribute");
}
fn scalar<T: PartialOrd + Copy>(r: Option<(T, T)>, v: &[T]) {
    check(r.is_none() == v.is_empty(), "extremes exactly when there are points");
    if let Some((lo, hi)) = r {
        extremes(lo, hi, v.iter().copied());
    }
}
fn vec3<T: PartialOrd + Copy>(r: Option<(Vector3<T>, Vector3<T>)>, v: &[Vector3<T>]) {
    check(r.is_none() == v.is_empty(), "extremes exactly when there are points");
    if let Some((lo, hi)) = r {
        for k in 0..3 {
            extremes(lo[k], hi[k], v.iter().map(|p| p[k]));
        }
    }
}
const POINTS: usize = 3;
macro_rules! plain {
    ($t:ty, $max:expr) => {{
        bound("0 to 3 points (thorough 5) of every value; three layouts, every kind of buffer and a slice");
        let v = some::<$t>($max, |_| true);
        scalar(find(&v, &def::<$t>()), &v)
    }};
}
macro_rules! float {
    ($t:ty, $max:expr) => {{
        bound("0 to 3 points (thorough 5) of every value but NaN; three layouts, every kind of buffer and a slice");
        let v = some::<$t>($max, |x| !x.is_nan());
        scalar(find(&v, &def::<$t>()), &v)
    }};
}
/// A request for the values as another type, by the definition of either type.
fn refused<S: PrimitiveType + bytemuck::NoUninit, T: PrimitiveType + MinMax + Copy>(v: &[S]) {
    bound("0 to 2 points of every value requested as another type");
    let a = if sym_bool("defined as requested") { def::<T>() } else { def::<S>() };
    must_panic("an attribute of another type", || find::<S, T>(v, &a));
}

/// Many points of chosen values, in several orders, with one or two of any value among them.
fn many<T: Pod>(step: impl Fn(i64) -> T, ok: impl Fn(T) -> bool, n: usize) -> Vec<T> {
    bound("130 and 1100 points, of which one at chosen places, or the first and the last, have any value");
    let order = choice(3, "order");
    let mut v: Vec<T> = (0..n as i64)
        .map(|i| match order {
            0 => step(i * 100 / n as i64),
            1 => step(100 - i * 100 / n as i64),
            _ => step(i * 37 % 101),
        })
        .collect();
    let place = if n > 500 { 3 + choice(2, "place") } else { choice(6, "place") };
    for k in if place == 5 { vec![0, n - 1] } else { vec![[0, 1, n / 2, n - n / 3, n - 1][place]] } {
        v[k] = sym("value");
        assume(ok(v[k]));
    }
    v
}

harness! {
    fn q_many_u8() { let v = many(|i| 100 + i as u8, |_| true, 1100); scalar(find_in(&v, &def::<u8>(), 1), &v) }
    fn q_many_u16() { let v = many(|i| 1000 + i as u16, |_| true, 130); scalar(find_in(&v, &def::<u16>(), 1), &v) }
    fn q_many_i32() { let v = many(|i| i as i32 * 20 - 1000, |_| true, 130); scalar(find_in(&v, &def::<i32>(), 1), &v) }
    fn q_many_i64() { let v = many(|i| i * 20 - 1000, |_| true, 130); scalar(find_in(&v, &def::<i64>(), 1), &v) }
    fn q_many_f64() { let v = many(|i| i as f64 / 4.0 - 12.0, |x: f64| !x.is_nan(), 130); scalar(find_in(&v, &def::<f64>(), 1), &v) }
    fn q_many_f32() { let v = many(|i| i as f32 / 4.0 - 12.0, |x: f32| !x.is_nan(), 130); scalar(find_in(&v, &def::<f32>(), 1), &v) }
    fn q_many_vec3f64() {
        let v = many(|i| i as f64 / 4.0 - 12.0, |x: f64| !x.is_nan(), 130);
        let v: Vec<Vector3<f64>> = v.iter().map(|x| Vector3::new(-*x, *x, 1.0)).collect();
        vec3(find_in(&v, &def::<Vector3<f64>>(), 1), &v)
    }
    fn q_u8() { plain!(u8, POINTS) }
    fn q_i8() { plain!(i8, POINTS) }
    fn q_u16() { plain!(u16, POINTS) }
    fn q_i16() { plain!(i16, POINTS) }
    fn q_u32() { plain!(u32, POINTS) }
    fn q_i32() { plain!(i32, POINTS) }
    fn q_u64() { plain!(u64, POINTS) }
    fn q_i64() { plain!(i64, POINTS) }
    fn q_f32() { float!(f32, POINTS) }
    fn q_f64() { float!(f64, POINTS) }
    fn q_vec3u8() { bound("0 to 3 points of every value"); let v = some3::<u8>(3, |_| true); vec3(find(&v, &def::<Vector3<u8>>()), &v) }
    fn q_vec3u16() { bound("0 to 3 points of every value"); let v = some3::<u16>(3, |_| true); vec3(find(&v, &def::<Vector3<u16>>()), &v) }
    fn q_vec3i32() { bound("0 to 3 points of every value"); let v = some3::<i32>(3, |_| true); vec3(find(&v, &def::<Vector3<i32>>()), &v) }
    fn q_vec3f32() { bound("0 to 2 points of every value but NaN"); let v = some3::<f32>(2, |x| !x.is_nan()); vec3(find(&v, &def::<Vector3<f32>>()), &v) }
    fn q_vec3f64() { bound("0 to 2 points of every value but NaN"); let v = some3::<f64>(2, |x| !x.is_nan()); vec3(find(&v, &def::<Vector3<f64>>()), &v) }
    fn q_other_types() {
        match choice(6, "types") {
            0 => refused::<u8, i8>(&some::<u8>(2, |_| true)),
            1 => refused::<i16, u32>(&some::<i16>(2, |_| true)),
            2 => refused::<f32, f64>(&some::<f32>(2, |_| true)),
            3 => refused::<u64, i64>(&some::<u64>(2, |_| true)),
            4 => refused::<Vector3<u8>, Vector3<u16>>(&some3::<u8>(2, |_| true)),
            _ => refused::<Vector3<i32>, Vector3<f64>>(&some3::<i32>(2, |_| true)),
        }
    }
    fn q_infimum_and_supremum() {
        bound("any two values of every type, NaN excepted");
        macro_rules! two { ($($t:ty, $ok:expr;)*) => { $({
            let (a, b): ($t, $t) = (sym("a"), sym("b"));
            let ok: fn($t) -> bool = $ok;
            assume(ok(a) & ok(b));
            let (lo, hi) = (a.infimum(&b), a.supremum(&b));
            check((lo <= a) & (lo <= b) & ((lo == a) | (lo == b)), "infimum");
            check((hi >= a) & (hi >= b) & ((hi == a) | (hi == b)), "supremum");
        })* } }
        two!(u8, |_| true; u16, |_| true; u32, |_| true; u64, |_| true; i8, |_| true; i16, |_| true; i32, |_| true; i64, |_| true;
            f32, |x| !x.is_nan(); f64, |x| !x.is_nan(););
        for a in [false, true] {
            for b in [false, true] {
                check(a.infimum(&b) == (a && b), "infimum of truth values");
                check(a.supremum(&b) == (a || b), "supremum of truth values");
            }
        }
    }
    fn q_unknown_attribute() {
        bound("attributes that the points do not have");
        let v = some::<u16>(2, |_| true);
        let a = PointAttributeDefinition::custom(Cow::Borrowed("y"), u16::data_type());
        must_panic("an attribute that is not part of the points", || find::<u16, u16>(&v, &a));
    }
    fn t_u16() { plain!(u16, 5) }
    fn t_i64() { plain!(i64, 5) }
    fn t_f32() { float!(f32, 5) }
    fn t_f64() { float!(f64, 5) }
    fn t_vec3i32() { bound("0 to 4 points of every value"); let v = some3::<i32>(4, |_| true); vec3(find(&v, &def::<Vector3<i32>>()), &v) }
    fn t_vec3f64() { bound("0 to 3 points of every value but NaN"); let v = some3::<f64>(3, |x| !x.is_nan()); vec3(find(&v, &def::<Vector3<f64>>()), &v) }
}

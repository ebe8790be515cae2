//! C13: bounds of the positions of a buffer.
use pasture_algorithms::bounds::calculate_bounds;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Scalar, Vector3};
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;

fn position(t: PointAttributeDataType) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed("Position3D"), t)
}
fn any_layout(p: PointAttributeDefinition) -> PointLayout {
    layout_of(p, choice(3, "layout"))
}
fn layout_of(p: PointAttributeDefinition, lay: usize) -> PointLayout {
    use attributes::*;
    match lay {
        0 => PointLayout::from_attributes(&[USER_DATA, p, GPS_TIME]),
        1 => PointLayout::from_attributes_packed(&[CLASSIFICATION, p], 1),
        _ => PointLayout::from_attributes(&[p, NORMAL]),
    }
}
fn bounds_of(m: &Model) -> Option<AABB<f64>> {
    match choice(4, "buffer") {
        0 => calculate_bounds(&vector(m)),
        1 => calculate_bounds(&columnar(m)),
        2 => calculate_bounds(&external(m)),
        _ => {
            let mut big = Model::new(m.layout.clone());
            big.pts.push(big.fresh("outside"));
            big.pts.extend(m.pts.iter().cloned());
            big.pts.push(big.fresh("outside"));
            if sym_bool("columnar") {
                let b = columnar(&big);
                let s = b.slice(1..1 + m.pts.len());
                calculate_bounds(&s)
            } else {
                let b = vector(&big);
                let s = b.slice(1..1 + m.pts.len());
                calculate_bounds(&s)
            }
        }
    }
}
/// Points at symbolic positions of a type, and the positions as numbers.
fn bounds<T: Pod + Scalar>(max: usize, ok: impl Fn(T) -> bool, num: impl Fn(T) -> f64)
where
    Vector3<T>: PrimitiveType + bytemuck::NoUninit,
{
    let n = choice(max + 1, "points");
    let a = position(Vector3::<T>::data_type());
    let l = any_layout(a.clone());
    let o = l.get_attribute_by_name("Position3D").unwrap().offset() as usize;
    let mut m = Model::sym(l, n, "other bytes");
    let mut at: Vec<[f64; 3]> = Vec::new();
    for p in m.pts.iter_mut() {
        let c: [T; 3] = sym_arr("position");
        assume(ok(c[0]) & ok(c[1]) & ok(c[2]));
        p[o..o + std::mem::size_of::<[T; 3]>()].copy_from_slice(bytemuck::bytes_of(&Vector3::new(c[0], c[1], c[2])));
        at.push([num(c[0]), num(c[1]), num(c[2])]);
    }
    let r = bounds_of(&m);
    check(r.is_none() == (n == 0), "bounds exactly when there are points");
    let Some(b) = r else { return };
    for k in 0..3 {
        let (mut inside, mut low, mut high) = (true, false, false);
        for p in &at {
            inside &= (b.min()[k] <= p[k]) & (p[k] <= b.max()[k]);
            low |= p[k] == b.min()[k];
            high |= p[k] == b.max()[k];
        }
        check(inside, "a position outside of the bounds");
        check(low, "no position on the lower face");
        check(high, "no position on the upper face");
    }
}

/// Many points, one or two of which are anywhere.
fn many<T: Pod + Scalar + Copy>(n: usize, step: impl Fn(i64) -> T, ok: impl Fn(T) -> bool, num: impl Fn(T) -> f64)
where
    Vector3<T>: PrimitiveType + bytemuck::NoUninit,
{
    bound("70 to 1100 points, of which one at chosen places, or the first and the last, are anywhere");
    let a = position(Vector3::<T>::data_type());
    let l = layout_of(a.clone(), 1);
    let o = l.get_attribute_by_name("Position3D").unwrap().offset() as usize;
    let mut m = Model::new(l.clone());
    let order = choice(3, "order");
    let place = if n > 500 { 3 + choice(2, "place") } else { choice(6, "place") };
    let any = if place == 5 { vec![0, n - 1] } else { vec![[0, 1, n / 2, n - n / 3, n - 1][place]] };
    let mut at: Vec<[f64; 3]> = Vec::new();
    for i in 0..n {
        let k = match order { 0 => i * 100 / n, 1 => 100 - i * 100 / n, _ => i * 37 % 101 } as i64;
        let mut c = [step(k), step(100 - k), step(k * 7 % 101)];
        if any.contains(&i) {
            c = sym_arr("position");
            assume(ok(c[0]) & ok(c[1]) & ok(c[2]));
        }
        let mut p = vec![7; l.size_of_point_entry() as usize];
        p[o..o + std::mem::size_of::<[T; 3]>()].copy_from_slice(bytemuck::bytes_of(&Vector3::new(c[0], c[1], c[2])));
        m.pts.push(p);
        at.push([num(c[0]), num(c[1]), num(c[2])]);
    }
    let Some(b) = bounds_of(&m) else { return check(false, "bounds of many points") };
    for k in 0..3 {
        let (mut inside, mut low, mut high) = (true, false, false);
        for p in &at {
            inside &= (b.min()[k] <= p[k]) & (p[k] <= b.max()[k]);
            low |= p[k] == b.min()[k];
            high |= p[k] == b.max()[k];
        }
        check(inside, "a position outside of the bounds of many points");
        check(low, "no position on the lower face");
        check(high, "no position on the upper face");
    }
}

harness! {
    fn q_many_f64() { many::<f64>(70, |k| k as f64 / 4.0 - 12.0, |x| x.is_finite(), |x| x) }
    fn q_many_u8() { many::<u8>(1100, |k| 100 + k as u8, |_| true, |x| x as f64) }
    fn q_many_i32() { many::<i32>(130, |k| k as i32 * 100 - 4000, |_| true, |x| x as f64) }
    fn q_f64() { bound("0 to 3 points at any finite positions (thorough 4); three layouts, every kind of buffer and slices"); bounds::<f64>(3, |x| x.is_finite(), |x| x) }
    fn q_f32() { bound("0 to 2 points (thorough 3) at any finite positions"); bounds::<f32>(2, |x| x.is_finite(), |x| x as f64) }
    fn q_i32() { bound("0 to 2 points (thorough 3) at any positions"); bounds::<i32>(2, |_| true, |x| x as f64) }
    fn q_u16() { bound("0 to 2 points (thorough 3) at any positions"); bounds::<u16>(2, |_| true, |x| x as f64) }
    fn q_u8() { bound("0 to 2 points (thorough 3) at any positions"); bounds::<u8>(2, |_| true, |x| x as f64) }
    fn q_no_positions() {
        bound("0 to 2 points of 5 layouts without positions");
        let m = Model::sym(layout(1 + choice(LAYOUTS - 1, "layout")), choice(3, "points"), "bytes");
        check(bounds_of(&m).is_none(), "bounds without positions");
    }
    fn q_same_for_every_kind_of_buffer() {
        bound("0 to 2 points at any positions");
        let m = Model::sym(any_layout(position(PointAttributeDataType::Vec3u8)), choice(3, "points"), "bytes");
        let (a, b) = (calculate_bounds(&vector(&m)), calculate_bounds(&columnar(&m)));
        check(a == b, "bounds depend on the kind of buffer");
    }
    fn t_f64() { bound("0 to 4 points at any finite positions"); bounds::<f64>(4, |x| x.is_finite(), |x| x) }
    fn t_f32() { bound("0 to 3 points at any finite positions"); bounds::<f32>(3, |x| x.is_finite(), |x| x as f64) }
    fn t_i32() { bound("0 to 3 points at any positions"); bounds::<i32>(3, |_| true, |x| x as f64) }
    fn t_u16() { bound("0 to 3 points at any positions"); bounds::<u16>(3, |_| true, |x| x as f64) }
}

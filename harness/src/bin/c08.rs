//! C08: attribute conversion is the numeric conversion of each value.
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use std::borrow::Cow;
use sxh::*;
use PointAttributeDataType as D;

fn attr(t: D) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed("value"), t)
}
/// The same number (or both not a number).
trait Same: Copy {
    fn same(self, o: Self) -> bool;
}
macro_rules! same_int { ($($t:ty)*) => { $(impl Same for $t { fn same(self, o: $t) -> bool { self == o } })* } }
same_int!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Same for f32 {
    fn same(self, o: f32) -> bool {
        (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan())
    }
}
impl Same for f64 {
    fn same(self, o: f64) -> bool {
        (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan())
    }
}

/// Through the table of converters, on unaligned bytes with guard bytes around them.
macro_rules! scalar { ($f:ty, $t:ty) => {{
    let (fd, td) = (<$f as PrimitiveType>::data_type(), <$t as PrimitiveType>::data_type());
    let v: $f = sym("value");
    let c = get_generic_converter(fd, td).expect("a converter");
    let c2 = get_converter_for_attributes(&attr(fd), &attr(td)).expect("a converter");
    let mut from = vec![0x5Au8];
    from.extend_from_slice(bytemuck::bytes_of(&v));
    const N: usize = std::mem::size_of::<$t>();
    let mut to = [0xC3u8; N + 2];
    unsafe { c(&from[1..], &mut to[1..1 + N]) };
    let r: $t = bytemuck::pod_read_unaligned(&to[1..1 + N]);
    check(r.same(v as $t), "a converted value is the value with as");
    check(to[0] == 0xC3 && to[N + 1] == 0xC3 && from[0] == 0x5A, "bytes outside of the value");
    check(bytes_eq(&from[1..], bytemuck::bytes_of(&v)), "the source value changes");
    let mut to = [0u8; N];
    unsafe { c2(&from[1..], &mut to) };
    let r: $t = bytemuck::pod_read_unaligned(&to);
    check(r.same(v as $t), "converting between attributes");
}} }
macro_rules! vector { ($f:ty, $t:ty) => {{
    let (fd, td) = (<Vector3<$f> as PrimitiveType>::data_type(), <Vector3<$t> as PrimitiveType>::data_type());
    let v: [$f; 3] = sym_arr("vector");
    let c = get_converter_for_attributes(&attr(fd), &attr(td)).expect("a converter");
    let mut from = vec![0x5Au8];
    from.extend_from_slice(bytemuck::bytes_of(&v));
    const N: usize = 3 * std::mem::size_of::<$t>();
    let mut to = [0xC3u8; N + 2];
    unsafe { c(&from[1..], &mut to[1..1 + N]) };
    let r: [$t; 3] = bytemuck::pod_read_unaligned(&to[1..1 + N]);
    check(r[0].same(v[0] as $t) & r[1].same(v[1] as $t) & r[2].same(v[2] as $t), "a converted vector component by component");
    check(to[0] == 0xC3 && to[N + 1] == 0xC3 && from[0] == 0x5A, "bytes outside of the vector");
}} }
macro_rules! all { ($m:ident, $f:ty => $($t:ty)*) => {{ bound("every pair of scalar types and every pair of vector types, all values"); $( $m!($f, $t); )* }} }

/// Through a view of a buffer.
macro_rules! view { ($buf:ty, $f:ty, $t:ty, $conv:expr) => {{
    bound("converting views of buffers of up to 2 values");
    let fd = <$f as PrimitiveType>::data_type();
    let a = attr(fd);
    let l = PointLayout::from_attributes_packed(&[attributes::CLASSIFICATION, a.clone()], 1);
    let z = std::mem::size_of::<$f>();
    let n = choice(3, "points");
    let mut bytes = vec![];
    let mut vals: Vec<$f> = vec![];
    for _ in 0..n {
        bytes.push(7u8);
        let b = sym_bytes(z, "value");
        vals.push(bytemuck::pod_read_unaligned(&b));
        bytes.extend_from_slice(&b);
    }
    let mut b = <$buf>::new_from_layout(l);
    unsafe { b.push_points(&bytes) };
    let conv: fn($f) -> $t = $conv;
    let target = attr(<$t as PrimitiveType>::data_type());
    let v = b.view_attribute_with_conversion::<$t>(&target).expect("a converting view");
    for i in (0..n).rev() {
        check(eqv(&v.at(i), &conv(vals[i])), "a value of a converting view");
    }
    let w = b.view_attribute_with_conversion::<$t>(&target).expect("a converting view");
    let mut k = 0;
    for x in w {
        check(k < n && eqv(&x, &conv(vals[k])), "iterating a converting view");
        k += 1;
    }
    check(k == n, "number of values of a converting view");
    // the buffer did not change
    for i in 0..n {
        let mut d = vec![0u8; z + 1];
        b.get_point(i, &mut d);
        check(bytes_eq(&d, &bytes[i * (z + 1)..(i + 1) * (z + 1)]), "reading changes the buffer");
    }
}} }
trait Comps { fn comps(&self) -> Vec<u64>; }
macro_rules! comps { ($($t:ty)*) => { $(
    impl Comps for $t { fn comps(&self) -> Vec<u64> { vec![*self as u64] } }
    impl Comps for Vector3<$t> { fn comps(&self) -> Vec<u64> { vec![self.x as u64, self.y as u64, self.z as u64] } }
)* } }
comps!(u8 u16 u32 u64 i8 i16 i32 i64);
fn bits(x: f64) -> u64 { if x.is_nan() { 1 } else { x.to_bits() } }
impl Comps for f64 { fn comps(&self) -> Vec<u64> { vec![bits(*self)] } }
impl Comps for f32 { fn comps(&self) -> Vec<u64> { vec![bits(*self as f64)] } }
impl Comps for Vector3<f64> { fn comps(&self) -> Vec<u64> { vec![bits(self.x), bits(self.y), bits(self.z)] } }
impl Comps for Vector3<f32> { fn comps(&self) -> Vec<u64> { vec![bits(self.x as f64), bits(self.y as f64), bits(self.z as f64)] } }
fn eqv<T: Comps>(a: &T, b: &T) -> bool {
    a.comps().iter().zip(b.comps().iter()).fold(true, |r, (x, y)| r & (x == y))
}

const TYPES: [(D, u8); 18] = [
    (D::U8, 1), (D::U16, 1), (D::U32, 1), (D::U64, 1), (D::I8, 1), (D::I16, 1), (D::I32, 1), (D::I64, 1), (D::F32, 1), (D::F64, 1),
    (D::Vec3u8, 3), (D::Vec3u16, 3), (D::Vec3f32, 3), (D::Vec3i32, 3), (D::Vec3f64, 3), (D::Vec4u8, 4),
    (D::ByteArray(3), 0), (D::ByteArray(8), 0),
];

/// A converting view of many values.
macro_rules! large { ($b:ty, $f:ty, $t:ty) => {{
    bound("converting views of 130 symbolic values");
    let (n, a) = (130, attr(<$f>::data_type()));
    let v: Vec<$f> = (0..n).map(|_| sym("value")).collect();
    let mut b = <$b>::new_from_layout(PointLayout::from_attributes(&[attributes::CLASSIFICATION, a.clone()]));
    b.resize(n);
    for i in 0..n {
        unsafe { b.set_attribute(&a, i, bytemuck::bytes_of(&v[i])) };
    }
    let w = b.view_attribute_with_conversion::<$t>(&attr(<$t>::data_type())).expect("a view");
    for i in 0..n {
        check(eqv(&w.at(i), &(v[i] as $t)), "a converted value among many");
    }
    let mut k = 0;
    for x in w {
        check(eqv(&x, &(v[k] as $t)), "a converted value among many");
        k += 1;
    }
    check(k == n, "number of converted values");
}} }

harness! {
fn q_large_u16_f64() { large!(VectorBuffer, u16, f64) }
fn q_large_columnar_i64_u8() { large!(HashMapBuffer, i64, u8) }
fn q_from_u8() { all!(scalar, u8 => u16 u32 u64 i8 i16 i32 i64 f32 f64) }
fn q_from_u16() { all!(scalar, u16 => u8 u32 u64 i8 i16 i32 i64 f32 f64) }
fn q_from_u32() { all!(scalar, u32 => u8 u16 u64 i8 i16 i32 i64 f32 f64) }
fn q_from_u64() { all!(scalar, u64 => u8 u16 u32 i8 i16 i32 i64 f32 f64) }
fn q_from_i8() { all!(scalar, i8 => u8 u16 u32 u64 i16 i32 i64 f32 f64) }
fn q_from_i16() { all!(scalar, i16 => u8 u16 u32 u64 i8 i32 i64 f32 f64) }
fn q_from_i32() { all!(scalar, i32 => u8 u16 u32 u64 i8 i16 i64 f32 f64) }
fn q_from_i64() { all!(scalar, i64 => u8 u16 u32 u64 i8 i16 i32 f32 f64) }
fn q_from_f32() { all!(scalar, f32 => u8 u16 u32 u64 i8 i16 i32 i64 f64) }
fn q_from_f64() { all!(scalar, f64 => u8 u16 u32 u64 i8 i16 i32 i64 f32) }
fn q_from_vec3u8() { all!(vector, u8 => u16 i32 f32 f64) }
fn q_from_vec3u16() { all!(vector, u16 => u8 i32 f32 f64) }
fn q_from_vec3i32() { all!(vector, i32 => u8 u16 f32 f64) }
fn q_from_vec3f32() { all!(vector, f32 => u8 u16 i32 f64) }
fn q_from_vec3f64() { all!(vector, f64 => u8 u16 i32 f32) }
fn q_view_u16_f64() { view!(VectorBuffer, u16, f64, |x| x as f64) }
fn q_view_columnar_f64_u8() { view!(HashMapBuffer, f64, u8, |x| x as u8) }
fn q_view_i32_i32() { view!(VectorBuffer, i32, i32, |x| x) }
fn q_view_columnar_u64_u64() { view!(HashMapBuffer, u64, u64, |x| x) }
fn q_view_vec3i32_vec3f64() { view!(VectorBuffer, Vector3<i32>, Vector3<f64>, |v| Vector3::new(v.x as f64, v.y as f64, v.z as f64)) }
fn q_view_columnar_vec3f32_vec3u16() { view!(HashMapBuffer, Vector3<f32>, Vector3<u16>, |v| Vector3::new(v.x as u16, v.y as u16, v.z as u16)) }
fn q_view_vec3f64_vec3f64() { view!(VectorBuffer, Vector3<f64>, Vector3<f64>, |v| v) }
fn q_view_i64_f32() { view!(VectorBuffer, i64, f32, |x| x as f32) }
fn q_unit() {
    let b = sym_bytes(9, "bytes");
    let mut t = [0u8; 9];
    unsafe { convert_unit(&b, &mut t) };
    check(bytes_eq(&b, &t), "unit conversion");
}
/// Which conversions exist depends on the two types alone.
fn q_table() {
    bound("every pair of data types");
    let (i, j) = (choice(TYPES.len(), "from"), choice(TYPES.len(), "to"));
    let ((f, n), (t, m)) = (TYPES[i], TYPES[j]);
    if i == j {
        cover("equal types");
        check(get_converter_for_attributes(&attr(f), &attr(t)).is_none(), "equal types need no converter");
    } else if n == m && (n == 1 || n == 3) {
        cover("compatible types");
        check(get_converter_for_attributes(&attr(f), &attr(t)).is_some(), "a converter of compatible types");
    } else {
        cover("incompatible types");
        must_panic("an incompatible conversion was accepted", || get_converter_for_attributes(&attr(f), &attr(t)));
    }
}
fn q_other_attribute() {
    let j = choice(TYPES.len(), "to");
    must_panic("attributes of different names", || get_converter_for_attributes(&attr(D::U16), &PointAttributeDefinition::custom(Cow::Borrowed("other"), TYPES[j].0)));
}
fn q_view_refused() {
    let k = choice(TYPES.len(), "type");
    let (t, m) = TYPES[k];
    assume(m != 1);
    let l = PointLayout::from_attributes(&[attributes::CLASSIFICATION, attr(t)]);
    let mut b = VectorBuffer::new_from_layout(l);
    b.resize(2);
    must_panic("a view with an impossible conversion", || {
        if b.view_attribute_with_conversion::<f64>(&attr(D::F64)).is_err() {
            panic!("refused");
        }
    });
}
fn q_vec4_unit() {
    let a = attr(D::Vec4u8);
    let v: [u8; 4] = sym_arr("value");
    let mut b = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[a.clone()]));
    unsafe { b.push_points(&v) };
    let w = b.view_attribute_with_conversion::<Vector4<u8>>(&a).expect("a view");
    let x = w.at(0);
    check((x.x == v[0]) & (x.y == v[1]) & (x.z == v[2]) & (x.w == v[3]), "reading as the same type");
}
}

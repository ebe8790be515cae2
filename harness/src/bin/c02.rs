//! C02: derived layouts describe the memory of the struct. Written by gen_c02.py.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use std::borrow::Cow;
use sxh::*;

// with padding, too: only the bytes of fields are looked at
macro_rules! pod { ($t:ident) => {
    unsafe impl bytemuck::NoUninit for $t {}
    unsafe impl bytemuck::Zeroable for $t {}
    unsafe impl bytemuck::AnyBitPattern for $t {}
} }
fn part<T: bytemuck::NoUninit>(t: &T) -> &[u8] {
    bytemuck::bytes_of(t)
}
/// The layout against the compiler's offsets; the bytes at each range against the field.
macro_rules! is { ($s:ident, $($f:tt {$n:expr} {$t:ty}),+) => {{
    const Z: usize = std::mem::size_of::<$s>();
    let l = <$s as PointType>::layout();
    let b: [u8; Z] = sym_arr("bytes");
    let v: $s = bytemuck::pod_read_unaligned(&b);
    // some byte of the struct
    let p: usize = sym::<u8>("position") as usize;
    assume(p < Z);
    let mut members = vec![];
    let mut it = l.attributes();
    let mut buf = VectorBuffer::new_from_layout(l.clone());
    unsafe { buf.push_points(&b) };
    $( {
        let m = it.next().expect("an attribute per field");
        check(m.name() == $n, "name of a derived attribute");
        check(m.datatype() == <$t as PrimitiveType>::data_type(), "data type of a derived attribute");
        check(m.offset() as usize == std::mem::offset_of!($s, $f), "offset of a derived attribute");
        check(m.size() as usize == std::mem::size_of::<$t>(), "size of a derived attribute");
        let x: $t = v.$f;
        check(bytes_eq(part(&x), &b[m.byte_range_within_point()]), "the bytes of a field");
        let r = m.byte_range_within_point();
        let inside = (p >= r.start) & (p < r.end);
        let q = if inside { p - r.start } else { 0 };
        check(!inside | (b[p] == part(&x)[q]), "a byte of the struct is a byte of the field whose range it is in");
        let y: $t = buf.view_attribute::<$t>(m.attribute_definition()).at(0);
        check(bytes_eq(part(&x), part(&y)), "a field through a buffer of the derived layout");
        members.push(PointAttributeDefinition::custom(Cow::Owned($n.to_string()), <$t as PrimitiveType>::data_type()).at_offset_in_type(m.offset()));
    } )+
    check(it.next().is_none(), "one attribute per field");
    check(l.size_of_point_entry() as usize == Z, "size of the struct");
    check(buf.len() == 1, "number of points");
    let w = buf.view::<$s>().at(0);
    $( { let (x, y): ($t, $t) = (v.$f, w.$f); check(bytes_eq(part(&x), part(&y)), "a struct through a buffer"); } )+
    check(PointLayout::from_members_and_alignment(&members, std::mem::align_of::<$s>() as u64) == l, "alignment of the struct");
}} }
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S0 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S0);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S1 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u16 }
pod!(S1);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S2 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u32 }
pod!(S2);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S3 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u64 }
pod!(S3);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S4 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i8 }
pod!(S4);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S5 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i16 }
pod!(S5);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S6 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i32 }
pod!(S6);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S7 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i64 }
pod!(S7);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S8 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: f32 }
pod!(S8);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S9 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: f64 }
pod!(S9);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S10 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S10);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S11 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S11);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S12 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S12);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S13 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S13);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S14 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S14);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S15 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S15);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S16 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u8 }
pod!(S16);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S17 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u16 }
pod!(S17);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S18 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u32 }
pod!(S18);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S19 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u64 }
pod!(S19);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S20 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i8 }
pod!(S20);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S21 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i16 }
pod!(S21);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S22 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i32 }
pod!(S22);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S23 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i64 }
pod!(S23);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S24 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f32 }
pod!(S24);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S25 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f64 }
pod!(S25);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S26 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S26);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S27 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S27);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S28 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S28);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S29 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S29);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S30 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S30);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S31 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S31);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S32 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u8 }
pod!(S32);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S33 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u16 }
pod!(S33);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S34 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u32 }
pod!(S34);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S35 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u64 }
pod!(S35);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S36 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i8 }
pod!(S36);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S37 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i16 }
pod!(S37);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S38 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i32 }
pod!(S38);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S39 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i64 }
pod!(S39);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S40 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: f32 }
pod!(S40);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S41 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: f64 }
pod!(S41);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S42 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S42);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S43 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S43);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S44 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S44);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S45 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S45);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S46 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S46);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S47 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S47);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S48 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u8 }
pod!(S48);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S49 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u16 }
pod!(S49);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S50 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u32 }
pod!(S50);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S51 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u64 }
pod!(S51);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S52 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i8 }
pod!(S52);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S53 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i16 }
pod!(S53);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S54 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i32 }
pod!(S54);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S55 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i64 }
pod!(S55);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S56 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f32 }
pod!(S56);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S57 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f64 }
pod!(S57);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S58 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S58);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S59 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S59);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S60 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S60);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S61 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S61);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S62 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S62);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S63 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S63);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S64 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u8 }
pod!(S64);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S65 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u16 }
pod!(S65);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S66 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u32 }
pod!(S66);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S67 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u64 }
pod!(S67);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S68 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i8 }
pod!(S68);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S69 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i16 }
pod!(S69);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S70 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i32 }
pod!(S70);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S71 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i64 }
pod!(S71);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S72 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: f32 }
pod!(S72);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S73 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: f64 }
pod!(S73);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S74 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S74);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S75 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S75);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S76 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S76);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S77 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S77);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S78 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S78);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S79 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S79);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S80 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u8 }
pod!(S80);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S81 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u16 }
pod!(S81);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S82 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u32 }
pod!(S82);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S83 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u64 }
pod!(S83);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S84 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i8 }
pod!(S84);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S85 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i16 }
pod!(S85);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S86 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i32 }
pod!(S86);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S87 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i64 }
pod!(S87);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S88 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: f32 }
pod!(S88);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S89 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: f64 }
pod!(S89);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S90 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S90);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S91 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S91);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S92 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S92);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S93 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S93);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S94 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S94);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S95 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S95);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S96 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u8 }
pod!(S96);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S97 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u16 }
pod!(S97);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S98 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u32 }
pod!(S98);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S99 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u64 }
pod!(S99);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S100 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i8 }
pod!(S100);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S101 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i16 }
pod!(S101);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S102 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i32 }
pod!(S102);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S103 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i64 }
pod!(S103);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S104 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f32 }
pod!(S104);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S105 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f64 }
pod!(S105);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S106 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S106);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S107 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S107);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S108 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S108);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S109 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S109);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S110 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S110);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S111 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S111);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S112 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u8 }
pod!(S112);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S113 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u16 }
pod!(S113);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S114 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u32 }
pod!(S114);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S115 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u64 }
pod!(S115);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S116 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i8 }
pod!(S116);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S117 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i16 }
pod!(S117);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S118 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i32 }
pod!(S118);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S119 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i64 }
pod!(S119);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S120 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: f32 }
pod!(S120);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S121 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: f64 }
pod!(S121);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S122 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S122);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S123 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S123);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S124 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S124);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S125 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S125);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S126 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S126);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S127 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S127);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S128 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u8 }
pod!(S128);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S129 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u16 }
pod!(S129);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S130 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u32 }
pod!(S130);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S131 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u64 }
pod!(S131);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S132 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i8 }
pod!(S132);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S133 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i16 }
pod!(S133);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S134 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i32 }
pod!(S134);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S135 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i64 }
pod!(S135);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S136 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f32 }
pod!(S136);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S137 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f64 }
pod!(S137);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S138 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S138);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S139 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S139);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S140 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S140);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S141 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S141);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S142 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S142);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S143 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S143);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S144 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u8 }
pod!(S144);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S145 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u16 }
pod!(S145);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S146 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u32 }
pod!(S146);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S147 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u64 }
pod!(S147);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S148 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i8 }
pod!(S148);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S149 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i16 }
pod!(S149);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S150 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i32 }
pod!(S150);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S151 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i64 }
pod!(S151);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S152 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: f32 }
pod!(S152);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S153 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: f64 }
pod!(S153);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S154 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S154);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S155 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S155);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S156 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S156);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S157 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S157);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S158 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S158);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S159 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S159);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S160 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S160);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S161 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S161);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S162 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u32 }
pod!(S162);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S163 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u64 }
pod!(S163);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S164 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i8 }
pod!(S164);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S165 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S165);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S166 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i32 }
pod!(S166);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S167 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i64 }
pod!(S167);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S168 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: f32 }
pod!(S168);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S169 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: f64 }
pod!(S169);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S170 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S170);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S171 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S171);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S172 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S172);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S173 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S173);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S174 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S174);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S175 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S175);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S176 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u8 }
pod!(S176);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S177 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u16 }
pod!(S177);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S178 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u32 }
pod!(S178);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S179 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u64 }
pod!(S179);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S180 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i8 }
pod!(S180);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S181 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i16 }
pod!(S181);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S182 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i32 }
pod!(S182);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S183 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i64 }
pod!(S183);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S184 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: f32 }
pod!(S184);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S185 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: f64 }
pod!(S185);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S186 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S186);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S187 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S187);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S188 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S188);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S189 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S189);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S190 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S190);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S191 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S191);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S192 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u8 }
pod!(S192);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S193 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u16 }
pod!(S193);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S194 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S194);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S195 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u64 }
pod!(S195);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S196 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i8 }
pod!(S196);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S197 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i16 }
pod!(S197);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S198 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S198);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S199 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i64 }
pod!(S199);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S200 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f32 }
pod!(S200);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S201 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S201);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S202 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S202);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S203 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S203);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S204 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S204);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S205 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S205);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S206 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S206);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S207 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S207);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S208 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u8 }
pod!(S208);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S209 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u16 }
pod!(S209);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S210 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S210);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S211 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u64 }
pod!(S211);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S212 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i8 }
pod!(S212);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S213 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i16 }
pod!(S213);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S214 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S214);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S215 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i64 }
pod!(S215);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S216 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f32 }
pod!(S216);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S217 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S217);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S218 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S218);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S219 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S219);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S220 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S220);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S221 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S221);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S222 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S222);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S223 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S223);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S224 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u8 }
pod!(S224);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S225 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u16 }
pod!(S225);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S226 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u32 }
pod!(S226);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S227 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u64 }
pod!(S227);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S228 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i8 }
pod!(S228);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S229 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i16 }
pod!(S229);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S230 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i32 }
pod!(S230);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S231 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i64 }
pod!(S231);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S232 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: f32 }
pod!(S232);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S233 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: f64 }
pod!(S233);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S234 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S234);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S235 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S235);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S236 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S236);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S237 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S237);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S238 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S238);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S239 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S239);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S240 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S240);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S241 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S241);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S242 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u32 }
pod!(S242);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S243 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u64 }
pod!(S243);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S244 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i8 }
pod!(S244);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S245 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S245);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S246 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i32 }
pod!(S246);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S247 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i64 }
pod!(S247);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S248 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: f32 }
pod!(S248);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S249 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: f64 }
pod!(S249);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S250 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S250);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S251 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S251);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S252 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S252);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S253 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S253);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S254 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S254);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S255 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S255);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S256 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S256);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S257 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i16 }
pod!(S257);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S258 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S258);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S259 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S259);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S260 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u16 }
pod!(S260);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S261 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i32 }
pod!(S261);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S262 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S262);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S263 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u32 }
pod!(S263);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S264 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i64 }
pod!(S264);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S265 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S265);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S266 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u64 }
pod!(S266);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S267 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f32 }
pod!(S267);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S268 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S268);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S269 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i8 }
pod!(S269);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S270 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: f64 }
pod!(S270);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S271 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S271);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S272 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u8 }
pod!(S272);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S273 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i16 }
pod!(S273);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S274 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S274);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S275 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S275);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S276 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u16 }
pod!(S276);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S277 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i32 }
pod!(S277);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S278 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S278);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S279 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u32 }
pod!(S279);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S280 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i64 }
pod!(S280);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S281 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S281);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S282 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u64 }
pod!(S282);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S283 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f32 }
pod!(S283);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S284 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S284);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S285 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i8 }
pod!(S285);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S286 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: f64 }
pod!(S286);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S287 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S287);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S288 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S288);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S289 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S289);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S290 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S290);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S291 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S291);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S292 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u16 }
pod!(S292);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S293 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i32 }
pod!(S293);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S294 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S294);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S295 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S295);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S296 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i64 }
pod!(S296);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S297 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S297);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S298 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u64 }
pod!(S298);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S299 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f32 }
pod!(S299);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S300 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S300);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S301 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i8 }
pod!(S301);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S302 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: f64 }
pod!(S302);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S303 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S303);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S304 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S304);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S305 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S305);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S306 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S306);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S307 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S307);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S308 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S308);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S309 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i64 }
pod!(S309);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S310 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S310);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S311 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u32 }
pod!(S311);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S312 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f64 }
pod!(S312);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S313 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i8 }
pod!(S313);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S314 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S314);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S315 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i32 }
pod!(S315);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S316 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S316);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S317 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u16 }
pod!(S317);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S318 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: f32 }
pod!(S318);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S319 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S319);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S320 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u64 }
pod!(S320);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S321 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S321);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S322 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i16 }
pod!(S322);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S323 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S323);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S324 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u8 }
pod!(S324);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S325 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i64 }
pod!(S325);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S326 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S326);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S327 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u32 }
pod!(S327);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S328 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f64 }
pod!(S328);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S329 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i8 }
pod!(S329);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S330 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S330);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S331 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i32 }
pod!(S331);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S332 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S332);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S333 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u16 }
pod!(S333);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S334 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: f32 }
pod!(S334);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S335 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S335);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S336 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u64 }
pod!(S336);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S337 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S337);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S338 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i16 }
pod!(S338);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S339 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S339);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S340 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u8 }
pod!(S340);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S341 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i64 }
pod!(S341);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S342 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S342);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S343 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u32 }
pod!(S343);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S344 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: f64 }
pod!(S344);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S345 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S345);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S346 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i16 }
pod!(S346);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S347 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S347);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S348 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S348);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S349 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u32 }
pod!(S349);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S350 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i64 }
pod!(S350);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S351 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S351);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S352 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i8 }
pod!(S352);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S353 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: f64 }
pod!(S353);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S354 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S354);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S355 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u16 }
pod!(S355);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S356 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i32 }
pod!(S356);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S357 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S357);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S358 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u64 }
pod!(S358);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S359 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: f32 }
pod!(S359);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S360 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S360);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S361 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u8 }
pod!(S361);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S362 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i16 }
pod!(S362);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S363 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S363);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S364 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S364);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S365 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u32 }
pod!(S365);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S366 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i64 }
pod!(S366);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S367 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S367);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S368 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i8 }
pod!(S368);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S369 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: f64 }
pod!(S369);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S370 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S370);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S371 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u16 }
pod!(S371);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S372 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i32 }
pod!(S372);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S373 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S373);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S374 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u64 }
pod!(S374);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S375 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: f32 }
pod!(S375);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S376 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S376);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S377 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S377);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S378 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S378);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S379 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S379);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S380 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S380);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S381 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u32 }
pod!(S381);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S382 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i64 }
pod!(S382);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S383 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S383);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S384 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i8 }
pod!(S384);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S385 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S385);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S386 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S386);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S387 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u16 }
pod!(S387);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S388 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S388);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S389 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S389);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S390 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u64 }
pod!(S390);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S391 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: f32 }
pod!(S391);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S392 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S392);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S393 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S393);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S394 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S394);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S395 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S395);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S396 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S396);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S397 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S397);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S398 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i16 }
pod!(S398);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S399 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S399);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S400 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S400);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S401 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u64 }
pod!(S401);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S402 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f32 }
pod!(S402);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S403 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S403);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S404 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u16 }
pod!(S404);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S405 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i32 }
pod!(S405);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S406 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S406);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S407 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i8 }
pod!(S407);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S408 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f64 }
pod!(S408);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S409 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S409);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S410 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u32 }
pod!(S410);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S411 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i64 }
pod!(S411);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S412 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S412);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S413 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u8 }
pod!(S413);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S414 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i16 }
pod!(S414);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S415 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S415);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S416 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S416);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S417 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u64 }
pod!(S417);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S418 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f32 }
pod!(S418);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S419 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S419);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S420 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u16 }
pod!(S420);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S421 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i32 }
pod!(S421);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S422 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S422);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S423 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i8 }
pod!(S423);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S424 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f64 }
pod!(S424);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S425 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S425);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S426 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u32 }
pod!(S426);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S427 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i64 }
pod!(S427);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S428 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S428);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S429 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S429);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S430 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S430);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S431 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S431);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S432 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S432);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S433 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u64 }
pod!(S433);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S434 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: f32 }
pod!(S434);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S435 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S435);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S436 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u16 }
pod!(S436);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S437 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S437);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S438 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S438);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S439 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i8 }
pod!(S439);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S440 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S440);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S441 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S441);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S442 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u32 }
pod!(S442);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S443 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i64 }
pod!(S443);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S444 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S444);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S445 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S445);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S446 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S446);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S447 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S447);
#[repr(packed(4), C)] #[derive(PointType, Clone, Copy)] struct S448 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S448);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S449 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S449);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S450 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i64 }
pod!(S450);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S451 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S451);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S452 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i32 }
pod!(S452);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S453 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S453);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S454 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i16 }
pod!(S454);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S455 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S455);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S456 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i8 }
pod!(S456);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S457 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S457);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S458 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u64 }
pod!(S458);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S459 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S459);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S460 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: u32 }
pod!(S460);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S461 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: f64 }
pod!(S461);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S462 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u16 }
pod!(S462);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S463 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f32 }
pod!(S463);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S464 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S464);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S465 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u8 }
pod!(S465);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S466 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i64 }
pod!(S466);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S467 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S467);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S468 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i32 }
pod!(S468);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S469 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S469);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S470 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i16 }
pod!(S470);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S471 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S471);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S472 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i8 }
pod!(S472);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S473 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S473);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S474 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u64 }
pod!(S474);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S475 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S475);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S476 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S476);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S477 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S477);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S478 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u16 }
pod!(S478);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S479 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f32 }
pod!(S479);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S480 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S480);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S481 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u8 }
pod!(S481);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S482 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i64 }
pod!(S482);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S483 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S483);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S484 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i32 }
pod!(S484);
#[repr(C, packed(8))] #[derive(PointType, Clone, Copy)] struct S485 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S485);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S486 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S486);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S487 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i64 }
pod!(S487);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S488 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S488);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S489 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: i16 }
pod!(S489);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S490 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S490);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S491 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: u64 }
pod!(S491);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S492 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S492);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S493 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u16 }
pod!(S493);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S494 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f32 }
pod!(S494);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S495 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S495);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S496 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i32 }
pod!(S496);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S497 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S497);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S498 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i8 }
pod!(S498);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S499 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S499);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S500 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u32 }
pod!(S500);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S501 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f64 }
pod!(S501);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S502 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u8 }
pod!(S502);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S503 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i64 }
pod!(S503);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S504 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S504);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S505 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: i16 }
pod!(S505);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S506 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S506);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S507 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u64 }
pod!(S507);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S508 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S508);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S509 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S509);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S510 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: f32 }
pod!(S510);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S511 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S511);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S512 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: i32 }
pod!(S512);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S513 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S513);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S514 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i8 }
pod!(S514);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S515 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S515);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S516 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S516);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S517 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S517);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S518 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u8 }
pod!(S518);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S519 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i64 }
pod!(S519);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S520 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S520);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S521 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S521);
#[repr(packed(2))] #[derive(PointType, Clone, Copy)] struct S522 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S522);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S523 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: i16 }
pod!(S523);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S524 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S524);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S525 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: u16 }
pod!(S525);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S526 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f32 }
pod!(S526);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S527 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S527);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S528 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i8 }
pod!(S528);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S529 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S529);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S530 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u8 }
pod!(S530);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S531 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i64 }
pod!(S531);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S532 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S532);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S533 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u64 }
pod!(S533);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S534 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S534);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S535 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i32 }
pod!(S535);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S536 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S536);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S537 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: u32 }
pod!(S537);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S538 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: f64 }
pod!(S538);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S539 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i16 }
pod!(S539);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S540 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S540);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S541 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u16 }
pod!(S541);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S542 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f32 }
pod!(S542);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S543 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S543);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S544 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i8 }
pod!(S544);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S545 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S545);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S546 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S546);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S547 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i64 }
pod!(S547);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S548 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S548);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S549 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u64 }
pod!(S549);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S550 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S550);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S551 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S551);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S552 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S552);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S553 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: u32 }
pod!(S553);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S554 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S554);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S555 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i16 }
pod!(S555);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S556 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S556);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S557 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S557);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S558 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: f32 }
pod!(S558);
#[repr(packed(4))] #[derive(PointType, Clone, Copy)] struct S559 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S559);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S560 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S560);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S561 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S561);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S562 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f32 }
pod!(S562);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S563 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i16 }
pod!(S563);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S564 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u32 }
pod!(S564);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S565 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S565);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S566 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S566);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S567 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i64 }
pod!(S567);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S568 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i8 }
pod!(S568);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S569 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S569);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S570 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u16 }
pod!(S570);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S571 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S571);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S572 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: f64 }
pod!(S572);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S573 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i32 }
pod!(S573);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S574 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u64 }
pod!(S574);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S575 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S575);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S576 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u8 }
pod!(S576);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S577 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S577);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S578 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f32 }
pod!(S578);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S579 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i16 }
pod!(S579);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S580 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u32 }
pod!(S580);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S581 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S581);
#[repr(C, align(16))] #[derive(PointType, Clone, Copy)] struct S582 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S582);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S583 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u8 }
pod!(S583);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S584 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S584);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S585 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S585);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S586 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: f64 }
pod!(S586);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S587 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: f32 }
pod!(S587);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S588 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: i64 }
pod!(S588);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S589 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: i32 }
pod!(S589);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S590 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i16 }
pod!(S590);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S591 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: i8 }
pod!(S591);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S592 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S592);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S593 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u64 }
pod!(S593);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S594 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S594);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S595 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: u32 }
pod!(S595);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S596 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S596);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S597 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S597);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S598 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S598);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S599 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u8 }
pod!(S599);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S600 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S600);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S601 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S601);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S602 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S602);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S603 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: f32 }
pod!(S603);
#[repr(C)]#[repr(align(4))] #[derive(PointType, Clone, Copy)] struct S604 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: i64 }
pod!(S604);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S605 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u16 }
pod!(S605);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S606 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S606);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S607 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: f64 }
pod!(S607);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S608 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i32 }
pod!(S608);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S609 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: u64 }
pod!(S609);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S610 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S610);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S611 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u8 }
pod!(S611);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S612 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S612);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S613 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: f32 }
pod!(S613);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S614 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i16 }
pod!(S614);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S615 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u32 }
pod!(S615);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S616 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S616);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S617 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S617);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S618 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: i64 }
pod!(S618);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S619 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i8 }
pod!(S619);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S620 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S620);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S621 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u16 }
pod!(S621);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S622 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S622);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S623 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: f64 }
pod!(S623);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S624 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i32 }
pod!(S624);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S625 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: u64 }
pod!(S625);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S626 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S626);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S627 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u8 }
pod!(S627);
#[repr(C)]#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S628 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S628);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S629 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: u32 }
pod!(S629);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S630 { #[pasture(attribute = "first")] f0: u8, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S630);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S631 { #[pasture(attribute = "first")] f0: u16, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S631);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S632 { #[pasture(attribute = "first")] f0: u32, #[pasture(attribute = "second")] f1: i64 }
pod!(S632);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S633 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: i8 }
pod!(S633);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S634 { #[pasture(attribute = "first")] f0: u64, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S634);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S635 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: u16 }
pod!(S635);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S636 { #[pasture(attribute = "first")] f0: i8, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S636);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S637 { #[pasture(attribute = "first")] f0: i16, #[pasture(attribute = "second")] f1: f64 }
pod!(S637);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S638 { #[pasture(attribute = "first")] f0: i32, #[pasture(attribute = "second")] f1: i32 }
pod!(S638);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S639 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: u64 }
pod!(S639);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S640 { #[pasture(attribute = "first")] f0: i64, #[pasture(attribute = "second")] f1: Vector3<f64> }
pod!(S640);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S641 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: u8 }
pod!(S641);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S642 { #[pasture(attribute = "first")] f0: f32, #[pasture(attribute = "second")] f1: Vector3<u16> }
pod!(S642);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S643 { #[pasture(attribute = "first")] f0: f64, #[pasture(attribute = "second")] f1: f32 }
pod!(S643);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S644 { #[pasture(attribute = "first")] f0: Vector3<u8>, #[pasture(attribute = "second")] f1: i16 }
pod!(S644);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S645 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: u32 }
pod!(S645);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S646 { #[pasture(attribute = "first")] f0: Vector3<u16>, #[pasture(attribute = "second")] f1: Vector3<f32> }
pod!(S646);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S647 { #[pasture(attribute = "first")] f0: Vector3<i32>, #[pasture(attribute = "second")] f1: Vector3<u8> }
pod!(S647);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S648 { #[pasture(attribute = "first")] f0: Vector3<f32>, #[pasture(attribute = "second")] f1: i64 }
pod!(S648);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S649 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: i8 }
pod!(S649);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S650 { #[pasture(attribute = "first")] f0: Vector3<f64>, #[pasture(attribute = "second")] f1: Vector4<u8> }
pod!(S650);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S651 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: u16 }
pod!(S651);
#[repr(packed(2))]#[repr(C)] #[derive(PointType, Clone, Copy)] struct S652 { #[pasture(attribute = "first")] f0: Vector4<u8>, #[pasture(attribute = "second")] f1: Vector3<i32> }
pod!(S652);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S653 { #[pasture(attribute = "attribute 0")] f0: Vector3<i32>, #[pasture(BUILTIN_RETURN_NUMBER)] f1: u32, #[pasture(attribute = "attribute 2")] f2: Vector3<f32>, #[pasture(BUILTIN_USER_DATA)] f3: i8, #[pasture(attribute = "attribute 4")] f4: u32 }
pod!(S653);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S654 { #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<u16>, #[pasture(attribute = "attribute 1")] f1: f32, #[pasture(attribute = "attribute 2")] f2: u8, #[pasture(BUILTIN_NIR)] f3: u32, #[pasture(attribute = "attribute 4")] f4: i32 }
pod!(S654);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S655 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(attribute = "attribute 1")] f1: Vector4<u8>, #[pasture(attribute = "attribute 2")] f2: u16, #[pasture(attribute = "attribute 3")] f3: u64, #[pasture(attribute = "attribute 4")] f4: Vector3<u8> }
pod!(S655);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S656 { #[pasture(attribute = "attribute 0")] f0: f32, #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f1: f32, #[pasture(attribute = "attribute 2")] f2: Vector3<u8>, #[pasture(attribute = "attribute 3")] f3: u8 }
pod!(S656);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S657 { #[pasture(attribute = "attribute 0")] f0: i8, #[pasture(BUILTIN_NORMAL)] f1: u8, #[pasture(BUILTIN_INTENSITY)] f2: Vector3<u16> }
pod!(S657);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S658 { #[pasture(attribute = "attribute 0")] f0: Vector3<f64>, #[pasture(attribute = "attribute 1")] f1: Vector3<f64>, #[pasture(attribute = "attribute 2")] f2: Vector3<f32>, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f3: i8, #[pasture(attribute = "attribute 4")] f4: u64 }
pod!(S658);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S659 { #[pasture(attribute = "attribute 0")] f0: u64, #[pasture(attribute = "attribute 1")] f1: Vector4<u8>, #[pasture(attribute = "attribute 2")] f2: u16, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f3: i16, #[pasture(attribute = "attribute 4")] f4: i16 }
pod!(S659);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S660 (#[pasture(attribute = "attribute 0")] u16, #[pasture(attribute = "attribute 1")] u8, #[pasture(attribute = "attribute 2")] Vector3<u8>, #[pasture(attribute = "attribute 3")] Vector3<i32>, #[pasture(attribute = "attribute 4")] Vector4<u8>);
pod!(S660);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S661 { #[pasture(BUILTIN_POINT_ID)] f0: Vector3<i32>, #[pasture(attribute = "attribute 1")] f1: i16, #[pasture(BUILTIN_COLOR_RGB)] f2: Vector3<f64>, #[pasture(BUILTIN_USER_DATA)] f3: Vector3<f64>, #[pasture(attribute = "attribute 4")] f4: i16, #[pasture(attribute = "attribute 5")] f5: Vector3<u8> }
pod!(S661);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S662 { #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: Vector3<f64>, #[pasture(attribute = "attribute 1")] f1: Vector3<i32>, #[pasture(BUILTIN_SCAN_ANGLE)] f2: i32, #[pasture(attribute = "attribute 3")] f3: i16 }
pod!(S662);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S663 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(attribute = "attribute 1")] f1: u8, #[pasture(attribute = "attribute 2")] f2: i32, #[pasture(attribute = "attribute 3")] f3: Vector3<u16> }
pod!(S663);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S664 { #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<u8>, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: f32, #[pasture(BUILTIN_COLOR_RGB)] f2: Vector3<u16>, #[pasture(BUILTIN_POINT_ID)] f3: u8, #[pasture(attribute = "attribute 4")] f4: u32, #[pasture(attribute = "attribute 5")] f5: u8 }
pod!(S664);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S665 { #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: f64, #[pasture(attribute = "attribute 1")] f1: i64, #[pasture(attribute = "attribute 2")] f2: i64, #[pasture(BUILTIN_GPS_TIME)] f3: u16, #[pasture(attribute = "attribute 4")] f4: u16 }
pod!(S665);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S666 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(attribute = "attribute 1")] f1: u32, #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: Vector3<u8>, #[pasture(attribute = "attribute 3")] f3: Vector3<f64>, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f4: Vector3<i32>, #[pasture(attribute = "attribute 5")] f5: f64 }
pod!(S666);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S667 { #[pasture(attribute = "attribute 0")] f0: Vector3<f64>, #[pasture(attribute = "attribute 1")] f1: i32, #[pasture(attribute = "attribute 2")] f2: Vector3<f32>, #[pasture(attribute = "attribute 3")] f3: Vector3<u8> }
pod!(S667);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S668 { #[pasture(BUILTIN_USER_DATA)] f0: u8, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f1: Vector3<f32>, #[pasture(attribute = "attribute 2")] f2: f64, #[pasture(attribute = "attribute 3")] f3: u64, #[pasture(BUILTIN_SCANNER_CHANNEL)] f4: u8, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f5: Vector3<f64> }
pod!(S668);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S669 { #[pasture(attribute = "attribute 0")] f0: i64, #[pasture(BUILTIN_SCANNER_CHANNEL)] f1: Vector3<f32>, #[pasture(attribute = "attribute 2")] f2: u32, #[pasture(attribute = "attribute 3")] f3: u32, #[pasture(attribute = "attribute 4")] f4: i8, #[pasture(BUILTIN_INTENSITY)] f5: Vector3<i32> }
pod!(S669);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S670 (#[pasture(attribute = "attribute 0")] i8, #[pasture(attribute = "attribute 1")] u64, #[pasture(BUILTIN_RETURN_NUMBER)] i8, #[pasture(attribute = "attribute 3")] Vector3<i32>, #[pasture(attribute = "attribute 4")] Vector3<u8>);
pod!(S670);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S671 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(attribute = "attribute 1")] f1: f64, #[pasture(attribute = "attribute 2")] f2: Vector3<i32>, #[pasture(BUILTIN_POINT_ID)] f3: i32 }
pod!(S671);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S672 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(BUILTIN_SCAN_ANGLE)] f1: Vector3<f64>, #[pasture(BUILTIN_POINT_ID)] f2: u8, #[pasture(attribute = "attribute 3")] f3: f64 }
pod!(S672);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S673 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(attribute = "attribute 1")] f1: i8, #[pasture(attribute = "attribute 2")] f2: u64, #[pasture(attribute = "attribute 3")] f3: u16, #[pasture(attribute = "attribute 4")] f4: Vector4<u8>, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f5: u16 }
pod!(S673);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S674 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(BUILTIN_RETURN_NUMBER)] f1: i32, #[pasture(attribute = "attribute 2")] f2: i16, #[pasture(attribute = "attribute 3")] f3: u8, #[pasture(attribute = "attribute 4")] f4: i16 }
pod!(S674);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S675 { #[pasture(attribute = "attribute 0")] f0: i64, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: Vector3<u16>, #[pasture(BUILTIN_COLOR_RGB)] f2: f64, #[pasture(attribute = "attribute 3")] f3: u64, #[pasture(attribute = "attribute 4")] f4: u16, #[pasture(attribute = "attribute 5")] f5: i32 }
pod!(S675);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S676 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: Vector3<i32>, #[pasture(BUILTIN_USER_DATA)] f2: f32 }
pod!(S676);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S677 { #[pasture(attribute = "attribute 0")] f0: i16, #[pasture(attribute = "attribute 1")] f1: u32, #[pasture(attribute = "attribute 2")] f2: u64 }
pod!(S677);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S678 { #[pasture(attribute = "attribute 0")] f0: u64, #[pasture(attribute = "attribute 1")] f1: Vector4<u8>, #[pasture(attribute = "attribute 2")] f2: Vector3<f64>, #[pasture(attribute = "attribute 3")] f3: Vector3<f32>, #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f4: u32, #[pasture(BUILTIN_NIR)] f5: i8 }
pod!(S678);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S679 { #[pasture(attribute = "attribute 0")] f0: i64, #[pasture(attribute = "attribute 1")] f1: Vector3<f64>, #[pasture(attribute = "attribute 2")] f2: i32 }
pod!(S679);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S680 (#[pasture(BUILTIN_NUMBER_OF_RETURNS)] f32, #[pasture(attribute = "attribute 1")] Vector3<i32>, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] Vector3<f64>, #[pasture(attribute = "attribute 3")] f64, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] Vector3<f32>);
pod!(S680);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S681 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(attribute = "attribute 1")] f1: Vector3<u16>, #[pasture(attribute = "attribute 2")] f2: i32, #[pasture(attribute = "attribute 3")] f3: f64, #[pasture(attribute = "attribute 4")] f4: u64, #[pasture(attribute = "attribute 5")] f5: i8 }
pod!(S681);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S682 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(BUILTIN_NIR)] f1: i16, #[pasture(BUILTIN_RETURN_NUMBER)] f2: f32 }
pod!(S682);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S683 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(attribute = "attribute 1")] f1: i16, #[pasture(attribute = "attribute 2")] f2: Vector3<u16>, #[pasture(attribute = "attribute 3")] f3: Vector3<f32> }
pod!(S683);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S684 { #[pasture(attribute = "attribute 0")] f0: f32, #[pasture(attribute = "attribute 1")] f1: f64, #[pasture(attribute = "attribute 2")] f2: u64, #[pasture(attribute = "attribute 3")] f3: u16 }
pod!(S684);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S685 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f1: u8, #[pasture(attribute = "attribute 2")] f2: i16, #[pasture(attribute = "attribute 3")] f3: Vector3<u16> }
pod!(S685);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S686 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(attribute = "attribute 1")] f1: Vector3<u8>, #[pasture(attribute = "attribute 2")] f2: i8, #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: Vector3<u16>, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f4: u16, #[pasture(attribute = "attribute 5")] f5: Vector4<u8> }
pod!(S686);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S687 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(BUILTIN_CLASSIFICATION)] f1: f32, #[pasture(attribute = "attribute 2")] f2: u8, #[pasture(BUILTIN_SCAN_ANGLE)] f3: Vector3<i32>, #[pasture(attribute = "attribute 4")] f4: i16 }
pod!(S687);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S688 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(attribute = "attribute 1")] f1: Vector3<u8>, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: f64, #[pasture(attribute = "attribute 3")] f3: u32, #[pasture(attribute = "attribute 4")] f4: Vector3<i32> }
pod!(S688);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S689 { #[pasture(BUILTIN_USER_DATA)] f0: f64, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f1: Vector4<u8>, #[pasture(attribute = "attribute 2")] f2: Vector3<u8>, #[pasture(attribute = "attribute 3")] f3: i16, #[pasture(BUILTIN_NIR)] f4: u8, #[pasture(attribute = "attribute 5")] f5: f64 }
pod!(S689);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S690 (#[pasture(attribute = "attribute 0")] u32, #[pasture(attribute = "attribute 1")] Vector3<u16>, #[pasture(attribute = "attribute 2")] u16);
pod!(S690);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S691 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(BUILTIN_POSITION_3D)] f1: Vector3<u16>, #[pasture(BUILTIN_NORMAL)] f2: u32 }
pod!(S691);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S692 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f1: Vector3<u16>, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f2: Vector3<f32>, #[pasture(attribute = "attribute 3")] f3: u64 }
pod!(S692);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S693 { #[pasture(attribute = "attribute 0")] f0: Vector4<u8>, #[pasture(attribute = "attribute 1")] f1: i64, #[pasture(BUILTIN_COLOR_RGB)] f2: Vector3<u16> }
pod!(S693);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S694 { #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: f64, #[pasture(attribute = "attribute 1")] f1: u8, #[pasture(attribute = "attribute 2")] f2: Vector3<u16>, #[pasture(attribute = "attribute 3")] f3: i8 }
pod!(S694);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S695 { #[pasture(attribute = "attribute 0")] f0: f32, #[pasture(attribute = "attribute 1")] f1: u64, #[pasture(BUILTIN_POINT_SOURCE_ID)] f2: u8, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f3: u16 }
pod!(S695);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S696 { #[pasture(attribute = "attribute 0")] f0: u8, #[pasture(BUILTIN_NORMAL)] f1: Vector4<u8>, #[pasture(BUILTIN_NIR)] f2: Vector3<f64> }
pod!(S696);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S697 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(attribute = "attribute 1")] f1: u32, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f2: Vector3<u16> }
pod!(S697);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S698 { #[pasture(attribute = "attribute 0")] f0: Vector3<u8>, #[pasture(attribute = "attribute 1")] f1: f32, #[pasture(attribute = "attribute 2")] f2: Vector4<u8>, #[pasture(BUILTIN_SCANNER_CHANNEL)] f3: i8 }
pod!(S698);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S699 { #[pasture(attribute = "attribute 0")] f0: u32, #[pasture(attribute = "attribute 1")] f1: i8, #[pasture(attribute = "attribute 2")] f2: f32, #[pasture(attribute = "attribute 3")] f3: Vector3<i32>, #[pasture(attribute = "attribute 4")] f4: Vector3<f64> }
pod!(S699);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S700 (#[pasture(attribute = "attribute 0")] Vector3<f32>, #[pasture(attribute = "attribute 1")] Vector4<u8>, #[pasture(attribute = "attribute 2")] u16);
pod!(S700);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S701 { #[pasture(attribute = "attribute 0")] f0: Vector4<u8>, #[pasture(BUILTIN_NORMAL)] f1: i64, #[pasture(attribute = "attribute 2")] f2: i32, #[pasture(BUILTIN_POINT_SOURCE_ID)] f3: i16 }
pod!(S701);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S702 { #[pasture(attribute = "attribute 0")] f0: i32, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f1: i16, #[pasture(attribute = "attribute 2")] f2: i32, #[pasture(attribute = "attribute 3")] f3: u16, #[pasture(attribute = "attribute 4")] f4: i16 }
pod!(S702);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S703 { #[pasture(BUILTIN_CLASSIFICATION)] f0: u32, #[pasture(attribute = "attribute 1")] f1: i64, #[pasture(BUILTIN_POINT_SOURCE_ID)] f2: Vector3<f64> }
pod!(S703);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S704 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(attribute = "attribute 1")] f1: u8, #[pasture(attribute = "attribute 2")] f2: Vector3<u16>, #[pasture(attribute = "attribute 3")] f3: i64 }
pod!(S704);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S705 { #[pasture(attribute = "attribute 0")] f0: i16, #[pasture(attribute = "attribute 1")] f1: f32, #[pasture(attribute = "attribute 2")] f2: Vector4<u8> }
pod!(S705);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S706 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(attribute = "attribute 1")] f1: Vector3<u8>, #[pasture(attribute = "attribute 2")] f2: Vector3<f32> }
pod!(S706);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S707 { #[pasture(BUILTIN_CLASSIFICATION)] f0: u16, #[pasture(attribute = "attribute 1")] f1: Vector3<i32>, #[pasture(BUILTIN_RETURN_NUMBER)] f2: Vector3<u16>, #[pasture(attribute = "attribute 3")] f3: f32 }
pod!(S707);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S708 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f1: f32, #[pasture(attribute = "attribute 2")] f2: u8 }
pod!(S708);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S709 { #[pasture(attribute = "attribute 0")] f0: f64, #[pasture(BUILTIN_SCAN_ANGLE)] f1: i8, #[pasture(attribute = "attribute 2")] f2: Vector3<f64>, #[pasture(attribute = "attribute 3")] f3: Vector3<u16>, #[pasture(BUILTIN_POSITION_3D)] f4: i32 }
pod!(S709);
#[repr(C, packed(4))] #[derive(PointType, Clone, Copy)] struct S710 (#[pasture(attribute = "attribute 0")] i8, #[pasture(attribute = "attribute 1")] f64, #[pasture(BUILTIN_NORMAL)] u64, #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] u8, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] u32);
pod!(S710);
#[repr(packed)] #[derive(PointType, Clone, Copy)] struct S711 { #[pasture(attribute = "attribute 0")] f0: u16, #[pasture(attribute = "attribute 1")] f1: u64, #[pasture(attribute = "attribute 2")] f2: u64, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f3: Vector4<u8> }
pod!(S711);
#[repr(C, align(8))] #[derive(PointType, Clone, Copy)] struct S712 { #[pasture(attribute = "attribute 0")] f0: Vector3<f64>, #[pasture(attribute = "attribute 1")] f1: Vector3<f64>, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f2: Vector3<f64> }
pod!(S712);
#[repr(C, packed)] #[derive(PointType, Clone, Copy)] struct S713 { #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<f64>, #[pasture(BUILTIN_INTENSITY)] f1: u16, #[pasture(BUILTIN_RETURN_NUMBER)] f2: u8, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f3: u8, #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f4: u8, #[pasture(BUILTIN_SCANNER_CHANNEL)] f5: u8, #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f6: u8, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f7: u8, #[pasture(BUILTIN_CLASSIFICATION)] f8: u8, #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f9: i8, #[pasture(BUILTIN_SCAN_ANGLE)] f10: i16, #[pasture(BUILTIN_USER_DATA)] f11: u8, #[pasture(BUILTIN_POINT_SOURCE_ID)] f12: u16, #[pasture(BUILTIN_COLOR_RGB)] f13: Vector3<u16>, #[pasture(BUILTIN_GPS_TIME)] f14: f64, #[pasture(BUILTIN_NIR)] f15: u16, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f16: u8, #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f17: u64, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f18: u32, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f19: f32, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f20: Vector3<f32>, #[pasture(BUILTIN_POINT_ID)] f21: u64, #[pasture(BUILTIN_NORMAL)] f22: Vector3<f32> }
pod!(S713);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S714 { #[pasture(BUILTIN_NORMAL)] f0: Vector3<f32>, #[pasture(BUILTIN_POINT_ID)] f1: u64, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f2: Vector3<f32>, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f3: f32, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f4: u32, #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f5: u64, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f6: u8, #[pasture(BUILTIN_NIR)] f7: u16, #[pasture(BUILTIN_GPS_TIME)] f8: f64, #[pasture(BUILTIN_COLOR_RGB)] f9: Vector3<u16>, #[pasture(BUILTIN_POINT_SOURCE_ID)] f10: u16, #[pasture(BUILTIN_USER_DATA)] f11: u8, #[pasture(BUILTIN_SCAN_ANGLE)] f12: i16, #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f13: i8, #[pasture(BUILTIN_CLASSIFICATION)] f14: u8, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f15: u8, #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f16: u8, #[pasture(BUILTIN_SCANNER_CHANNEL)] f17: u8, #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f18: u8, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f19: u8, #[pasture(BUILTIN_RETURN_NUMBER)] f20: u8, #[pasture(BUILTIN_INTENSITY)] f21: u16, #[pasture(BUILTIN_POSITION_3D)] f22: Vector3<f64> }
pod!(S714);
#[repr(C, packed(2))] #[derive(PointType, Clone, Copy)] struct S715 { #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<f64>, #[pasture(BUILTIN_RETURN_NUMBER)] f1: u8, #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f2: u8, #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f3: u8, #[pasture(BUILTIN_CLASSIFICATION)] f4: u8, #[pasture(BUILTIN_SCAN_ANGLE)] f5: i16, #[pasture(BUILTIN_POINT_SOURCE_ID)] f6: u16, #[pasture(BUILTIN_GPS_TIME)] f7: f64, #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f8: u8, #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f9: u32, #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f10: Vector3<f32>, #[pasture(BUILTIN_NORMAL)] f11: Vector3<f32>, #[pasture(BUILTIN_INTENSITY)] f12: u16, #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f13: u8, #[pasture(BUILTIN_SCANNER_CHANNEL)] f14: u8, #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f15: u8, #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f16: i8, #[pasture(BUILTIN_USER_DATA)] f17: u8, #[pasture(BUILTIN_COLOR_RGB)] f18: Vector3<u16>, #[pasture(BUILTIN_NIR)] f19: u16, #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f20: u64, #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f21: f32, #[pasture(BUILTIN_POINT_ID)] f22: u64 }
pod!(S715);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S716 { #[pasture(BUILTIN_POSITION_3D)] f0: Vector3<f64> }
pod!(S716);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S717 { #[pasture(BUILTIN_INTENSITY)] f0: u16 }
pod!(S717);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S718 { #[pasture(BUILTIN_RETURN_NUMBER)] f0: u8 }
pod!(S718);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S719 { #[pasture(BUILTIN_NUMBER_OF_RETURNS)] f0: u8 }
pod!(S719);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S720 { #[pasture(BUILTIN_CLASSIFICATION_FLAGS)] f0: u8 }
pod!(S720);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S721 { #[pasture(BUILTIN_SCANNER_CHANNEL)] f0: u8 }
pod!(S721);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S722 { #[pasture(BUILTIN_SCAN_DIRECTION_FLAG)] f0: u8 }
pod!(S722);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S723 { #[pasture(BUILTIN_EDGE_OF_FLIGHT_LINE)] f0: u8 }
pod!(S723);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S724 { #[pasture(BUILTIN_CLASSIFICATION)] f0: u8 }
pod!(S724);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S725 { #[pasture(BUILTIN_SCAN_ANGLE_RANK)] f0: i8 }
pod!(S725);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S726 { #[pasture(BUILTIN_SCAN_ANGLE)] f0: i16 }
pod!(S726);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S727 { #[pasture(BUILTIN_USER_DATA)] f0: u8 }
pod!(S727);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S728 { #[pasture(BUILTIN_POINT_SOURCE_ID)] f0: u16 }
pod!(S728);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S729 { #[pasture(BUILTIN_COLOR_RGB)] f0: Vector3<u16> }
pod!(S729);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S730 { #[pasture(BUILTIN_GPS_TIME)] f0: f64 }
pod!(S730);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S731 { #[pasture(BUILTIN_NIR)] f0: u16 }
pod!(S731);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S732 { #[pasture(BUILTIN_WAVE_PACKET_DESCRIPTOR_INDEX)] f0: u8 }
pod!(S732);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S733 { #[pasture(BUILTIN_WAVEFORM_DATA_OFFSET)] f0: u64 }
pod!(S733);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S734 { #[pasture(BUILTIN_WAVEFORM_PACKET_SIZE)] f0: u32 }
pod!(S734);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S735 { #[pasture(BUILTIN_RETURN_POINT_WAVEFORM_LOCATION)] f0: f32 }
pod!(S735);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S736 { #[pasture(BUILTIN_WAVEFORM_PARAMETERS)] f0: Vector3<f32> }
pod!(S736);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S737 { #[pasture(BUILTIN_POINT_ID)] f0: u64 }
pod!(S737);
#[repr(C)] #[derive(PointType, Clone, Copy)] struct S738 { #[pasture(BUILTIN_NORMAL)] f0: Vector3<f32> }
pod!(S738);

harness! {
    fn q_pairs_c_0() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S0, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S1, f0 {"first"} {u8}, f1 {"second"} {u16});
        is!(S2, f0 {"first"} {u8}, f1 {"second"} {u32});
        is!(S3, f0 {"first"} {u8}, f1 {"second"} {u64});
        is!(S4, f0 {"first"} {u8}, f1 {"second"} {i8});
        is!(S5, f0 {"first"} {u8}, f1 {"second"} {i16});
        is!(S6, f0 {"first"} {u8}, f1 {"second"} {i32});
        is!(S7, f0 {"first"} {u8}, f1 {"second"} {i64});
        is!(S8, f0 {"first"} {u8}, f1 {"second"} {f32});
        is!(S9, f0 {"first"} {u8}, f1 {"second"} {f64});
        is!(S10, f0 {"first"} {u8}, f1 {"second"} {Vector3<u8>});
        is!(S11, f0 {"first"} {u8}, f1 {"second"} {Vector3<u16>});
        is!(S12, f0 {"first"} {u8}, f1 {"second"} {Vector3<i32>});
        is!(S13, f0 {"first"} {u8}, f1 {"second"} {Vector3<f32>});
        is!(S14, f0 {"first"} {u8}, f1 {"second"} {Vector3<f64>});
        is!(S15, f0 {"first"} {u8}, f1 {"second"} {Vector4<u8>});
        is!(S16, f0 {"first"} {u16}, f1 {"second"} {u8});
        is!(S17, f0 {"first"} {u16}, f1 {"second"} {u16});
        is!(S18, f0 {"first"} {u16}, f1 {"second"} {u32});
        is!(S19, f0 {"first"} {u16}, f1 {"second"} {u64});
        is!(S20, f0 {"first"} {u16}, f1 {"second"} {i8});
        is!(S21, f0 {"first"} {u16}, f1 {"second"} {i16});
        is!(S22, f0 {"first"} {u16}, f1 {"second"} {i32});
        is!(S23, f0 {"first"} {u16}, f1 {"second"} {i64});
        is!(S24, f0 {"first"} {u16}, f1 {"second"} {f32});
        is!(S25, f0 {"first"} {u16}, f1 {"second"} {f64});
        is!(S26, f0 {"first"} {u16}, f1 {"second"} {Vector3<u8>});
        is!(S27, f0 {"first"} {u16}, f1 {"second"} {Vector3<u16>});
        is!(S28, f0 {"first"} {u16}, f1 {"second"} {Vector3<i32>});
        is!(S29, f0 {"first"} {u16}, f1 {"second"} {Vector3<f32>});
        is!(S30, f0 {"first"} {u16}, f1 {"second"} {Vector3<f64>});
        is!(S31, f0 {"first"} {u16}, f1 {"second"} {Vector4<u8>});
        is!(S32, f0 {"first"} {u32}, f1 {"second"} {u8});
        is!(S33, f0 {"first"} {u32}, f1 {"second"} {u16});
        is!(S34, f0 {"first"} {u32}, f1 {"second"} {u32});
        is!(S35, f0 {"first"} {u32}, f1 {"second"} {u64});
        is!(S36, f0 {"first"} {u32}, f1 {"second"} {i8});
        is!(S37, f0 {"first"} {u32}, f1 {"second"} {i16});
        is!(S38, f0 {"first"} {u32}, f1 {"second"} {i32});
        is!(S39, f0 {"first"} {u32}, f1 {"second"} {i64});
        is!(S40, f0 {"first"} {u32}, f1 {"second"} {f32});
        is!(S41, f0 {"first"} {u32}, f1 {"second"} {f64});
        is!(S42, f0 {"first"} {u32}, f1 {"second"} {Vector3<u8>});
        is!(S43, f0 {"first"} {u32}, f1 {"second"} {Vector3<u16>});
        is!(S44, f0 {"first"} {u32}, f1 {"second"} {Vector3<i32>});
        is!(S45, f0 {"first"} {u32}, f1 {"second"} {Vector3<f32>});
        is!(S46, f0 {"first"} {u32}, f1 {"second"} {Vector3<f64>});
        is!(S47, f0 {"first"} {u32}, f1 {"second"} {Vector4<u8>});
        is!(S48, f0 {"first"} {u64}, f1 {"second"} {u8});
        is!(S49, f0 {"first"} {u64}, f1 {"second"} {u16});
        is!(S50, f0 {"first"} {u64}, f1 {"second"} {u32});
        is!(S51, f0 {"first"} {u64}, f1 {"second"} {u64});
        is!(S52, f0 {"first"} {u64}, f1 {"second"} {i8});
        is!(S53, f0 {"first"} {u64}, f1 {"second"} {i16});
        is!(S54, f0 {"first"} {u64}, f1 {"second"} {i32});
        is!(S55, f0 {"first"} {u64}, f1 {"second"} {i64});
        is!(S56, f0 {"first"} {u64}, f1 {"second"} {f32});
        is!(S57, f0 {"first"} {u64}, f1 {"second"} {f64});
        is!(S58, f0 {"first"} {u64}, f1 {"second"} {Vector3<u8>});
        is!(S59, f0 {"first"} {u64}, f1 {"second"} {Vector3<u16>});
        is!(S60, f0 {"first"} {u64}, f1 {"second"} {Vector3<i32>});
        is!(S61, f0 {"first"} {u64}, f1 {"second"} {Vector3<f32>});
        is!(S62, f0 {"first"} {u64}, f1 {"second"} {Vector3<f64>});
        is!(S63, f0 {"first"} {u64}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_c_1() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S64, f0 {"first"} {i8}, f1 {"second"} {u8});
        is!(S65, f0 {"first"} {i8}, f1 {"second"} {u16});
        is!(S66, f0 {"first"} {i8}, f1 {"second"} {u32});
        is!(S67, f0 {"first"} {i8}, f1 {"second"} {u64});
        is!(S68, f0 {"first"} {i8}, f1 {"second"} {i8});
        is!(S69, f0 {"first"} {i8}, f1 {"second"} {i16});
        is!(S70, f0 {"first"} {i8}, f1 {"second"} {i32});
        is!(S71, f0 {"first"} {i8}, f1 {"second"} {i64});
        is!(S72, f0 {"first"} {i8}, f1 {"second"} {f32});
        is!(S73, f0 {"first"} {i8}, f1 {"second"} {f64});
        is!(S74, f0 {"first"} {i8}, f1 {"second"} {Vector3<u8>});
        is!(S75, f0 {"first"} {i8}, f1 {"second"} {Vector3<u16>});
        is!(S76, f0 {"first"} {i8}, f1 {"second"} {Vector3<i32>});
        is!(S77, f0 {"first"} {i8}, f1 {"second"} {Vector3<f32>});
        is!(S78, f0 {"first"} {i8}, f1 {"second"} {Vector3<f64>});
        is!(S79, f0 {"first"} {i8}, f1 {"second"} {Vector4<u8>});
        is!(S80, f0 {"first"} {i16}, f1 {"second"} {u8});
        is!(S81, f0 {"first"} {i16}, f1 {"second"} {u16});
        is!(S82, f0 {"first"} {i16}, f1 {"second"} {u32});
        is!(S83, f0 {"first"} {i16}, f1 {"second"} {u64});
        is!(S84, f0 {"first"} {i16}, f1 {"second"} {i8});
        is!(S85, f0 {"first"} {i16}, f1 {"second"} {i16});
        is!(S86, f0 {"first"} {i16}, f1 {"second"} {i32});
        is!(S87, f0 {"first"} {i16}, f1 {"second"} {i64});
        is!(S88, f0 {"first"} {i16}, f1 {"second"} {f32});
        is!(S89, f0 {"first"} {i16}, f1 {"second"} {f64});
        is!(S90, f0 {"first"} {i16}, f1 {"second"} {Vector3<u8>});
        is!(S91, f0 {"first"} {i16}, f1 {"second"} {Vector3<u16>});
        is!(S92, f0 {"first"} {i16}, f1 {"second"} {Vector3<i32>});
        is!(S93, f0 {"first"} {i16}, f1 {"second"} {Vector3<f32>});
        is!(S94, f0 {"first"} {i16}, f1 {"second"} {Vector3<f64>});
        is!(S95, f0 {"first"} {i16}, f1 {"second"} {Vector4<u8>});
        is!(S96, f0 {"first"} {i32}, f1 {"second"} {u8});
        is!(S97, f0 {"first"} {i32}, f1 {"second"} {u16});
        is!(S98, f0 {"first"} {i32}, f1 {"second"} {u32});
        is!(S99, f0 {"first"} {i32}, f1 {"second"} {u64});
        is!(S100, f0 {"first"} {i32}, f1 {"second"} {i8});
        is!(S101, f0 {"first"} {i32}, f1 {"second"} {i16});
        is!(S102, f0 {"first"} {i32}, f1 {"second"} {i32});
        is!(S103, f0 {"first"} {i32}, f1 {"second"} {i64});
        is!(S104, f0 {"first"} {i32}, f1 {"second"} {f32});
        is!(S105, f0 {"first"} {i32}, f1 {"second"} {f64});
        is!(S106, f0 {"first"} {i32}, f1 {"second"} {Vector3<u8>});
        is!(S107, f0 {"first"} {i32}, f1 {"second"} {Vector3<u16>});
        is!(S108, f0 {"first"} {i32}, f1 {"second"} {Vector3<i32>});
        is!(S109, f0 {"first"} {i32}, f1 {"second"} {Vector3<f32>});
        is!(S110, f0 {"first"} {i32}, f1 {"second"} {Vector3<f64>});
        is!(S111, f0 {"first"} {i32}, f1 {"second"} {Vector4<u8>});
        is!(S112, f0 {"first"} {i64}, f1 {"second"} {u8});
        is!(S113, f0 {"first"} {i64}, f1 {"second"} {u16});
        is!(S114, f0 {"first"} {i64}, f1 {"second"} {u32});
        is!(S115, f0 {"first"} {i64}, f1 {"second"} {u64});
        is!(S116, f0 {"first"} {i64}, f1 {"second"} {i8});
        is!(S117, f0 {"first"} {i64}, f1 {"second"} {i16});
        is!(S118, f0 {"first"} {i64}, f1 {"second"} {i32});
        is!(S119, f0 {"first"} {i64}, f1 {"second"} {i64});
        is!(S120, f0 {"first"} {i64}, f1 {"second"} {f32});
        is!(S121, f0 {"first"} {i64}, f1 {"second"} {f64});
        is!(S122, f0 {"first"} {i64}, f1 {"second"} {Vector3<u8>});
        is!(S123, f0 {"first"} {i64}, f1 {"second"} {Vector3<u16>});
        is!(S124, f0 {"first"} {i64}, f1 {"second"} {Vector3<i32>});
        is!(S125, f0 {"first"} {i64}, f1 {"second"} {Vector3<f32>});
        is!(S126, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S127, f0 {"first"} {i64}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_c_2() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S128, f0 {"first"} {f32}, f1 {"second"} {u8});
        is!(S129, f0 {"first"} {f32}, f1 {"second"} {u16});
        is!(S130, f0 {"first"} {f32}, f1 {"second"} {u32});
        is!(S131, f0 {"first"} {f32}, f1 {"second"} {u64});
        is!(S132, f0 {"first"} {f32}, f1 {"second"} {i8});
        is!(S133, f0 {"first"} {f32}, f1 {"second"} {i16});
        is!(S134, f0 {"first"} {f32}, f1 {"second"} {i32});
        is!(S135, f0 {"first"} {f32}, f1 {"second"} {i64});
        is!(S136, f0 {"first"} {f32}, f1 {"second"} {f32});
        is!(S137, f0 {"first"} {f32}, f1 {"second"} {f64});
        is!(S138, f0 {"first"} {f32}, f1 {"second"} {Vector3<u8>});
        is!(S139, f0 {"first"} {f32}, f1 {"second"} {Vector3<u16>});
        is!(S140, f0 {"first"} {f32}, f1 {"second"} {Vector3<i32>});
        is!(S141, f0 {"first"} {f32}, f1 {"second"} {Vector3<f32>});
        is!(S142, f0 {"first"} {f32}, f1 {"second"} {Vector3<f64>});
        is!(S143, f0 {"first"} {f32}, f1 {"second"} {Vector4<u8>});
        is!(S144, f0 {"first"} {f64}, f1 {"second"} {u8});
        is!(S145, f0 {"first"} {f64}, f1 {"second"} {u16});
        is!(S146, f0 {"first"} {f64}, f1 {"second"} {u32});
        is!(S147, f0 {"first"} {f64}, f1 {"second"} {u64});
        is!(S148, f0 {"first"} {f64}, f1 {"second"} {i8});
        is!(S149, f0 {"first"} {f64}, f1 {"second"} {i16});
        is!(S150, f0 {"first"} {f64}, f1 {"second"} {i32});
        is!(S151, f0 {"first"} {f64}, f1 {"second"} {i64});
        is!(S152, f0 {"first"} {f64}, f1 {"second"} {f32});
        is!(S153, f0 {"first"} {f64}, f1 {"second"} {f64});
        is!(S154, f0 {"first"} {f64}, f1 {"second"} {Vector3<u8>});
        is!(S155, f0 {"first"} {f64}, f1 {"second"} {Vector3<u16>});
        is!(S156, f0 {"first"} {f64}, f1 {"second"} {Vector3<i32>});
        is!(S157, f0 {"first"} {f64}, f1 {"second"} {Vector3<f32>});
        is!(S158, f0 {"first"} {f64}, f1 {"second"} {Vector3<f64>});
        is!(S159, f0 {"first"} {f64}, f1 {"second"} {Vector4<u8>});
        is!(S160, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u8});
        is!(S161, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u16});
        is!(S162, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u32});
        is!(S163, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u64});
        is!(S164, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i8});
        is!(S165, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i16});
        is!(S166, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i32});
        is!(S167, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i64});
        is!(S168, f0 {"first"} {Vector3<u8>}, f1 {"second"} {f32});
        is!(S169, f0 {"first"} {Vector3<u8>}, f1 {"second"} {f64});
        is!(S170, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S171, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u16>});
        is!(S172, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<i32>});
        is!(S173, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<f32>});
        is!(S174, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<f64>});
        is!(S175, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S176, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u8});
        is!(S177, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u16});
        is!(S178, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u32});
        is!(S179, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u64});
        is!(S180, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i8});
        is!(S181, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i16});
        is!(S182, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i32});
        is!(S183, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i64});
        is!(S184, f0 {"first"} {Vector3<u16>}, f1 {"second"} {f32});
        is!(S185, f0 {"first"} {Vector3<u16>}, f1 {"second"} {f64});
        is!(S186, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u8>});
        is!(S187, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u16>});
        is!(S188, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<i32>});
        is!(S189, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<f32>});
        is!(S190, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<f64>});
        is!(S191, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_c_3() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S192, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u8});
        is!(S193, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u16});
        is!(S194, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u32});
        is!(S195, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u64});
        is!(S196, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i8});
        is!(S197, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i16});
        is!(S198, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i32});
        is!(S199, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i64});
        is!(S200, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f32});
        is!(S201, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f64});
        is!(S202, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u8>});
        is!(S203, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u16>});
        is!(S204, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<i32>});
        is!(S205, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<f32>});
        is!(S206, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<f64>});
        is!(S207, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector4<u8>});
        is!(S208, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u8});
        is!(S209, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u16});
        is!(S210, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u32});
        is!(S211, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u64});
        is!(S212, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i8});
        is!(S213, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i16});
        is!(S214, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i32});
        is!(S215, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i64});
        is!(S216, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f32});
        is!(S217, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f64});
        is!(S218, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<u8>});
        is!(S219, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<u16>});
        is!(S220, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<i32>});
        is!(S221, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<f32>});
        is!(S222, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<f64>});
        is!(S223, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector4<u8>});
        is!(S224, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u8});
        is!(S225, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u16});
        is!(S226, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u32});
        is!(S227, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u64});
        is!(S228, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i8});
        is!(S229, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i16});
        is!(S230, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i32});
        is!(S231, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i64});
        is!(S232, f0 {"first"} {Vector3<f64>}, f1 {"second"} {f32});
        is!(S233, f0 {"first"} {Vector3<f64>}, f1 {"second"} {f64});
        is!(S234, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<u8>});
        is!(S235, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<u16>});
        is!(S236, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<i32>});
        is!(S237, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f32>});
        is!(S238, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S239, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector4<u8>});
        is!(S240, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u8});
        is!(S241, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u16});
        is!(S242, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u32});
        is!(S243, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u64});
        is!(S244, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i8});
        is!(S245, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i16});
        is!(S246, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i32});
        is!(S247, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i64});
        is!(S248, f0 {"first"} {Vector4<u8>}, f1 {"second"} {f32});
        is!(S249, f0 {"first"} {Vector4<u8>}, f1 {"second"} {f64});
        is!(S250, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S251, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u16>});
        is!(S252, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<i32>});
        is!(S253, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<f32>});
        is!(S254, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<f64>});
        is!(S255, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_packed() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S256, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S257, f0 {"first"} {u8}, f1 {"second"} {i16});
        is!(S258, f0 {"first"} {u8}, f1 {"second"} {Vector3<u8>});
        is!(S259, f0 {"first"} {u8}, f1 {"second"} {Vector4<u8>});
        is!(S260, f0 {"first"} {u16}, f1 {"second"} {u16});
        is!(S261, f0 {"first"} {u16}, f1 {"second"} {i32});
        is!(S262, f0 {"first"} {u16}, f1 {"second"} {Vector3<u16>});
        is!(S263, f0 {"first"} {u32}, f1 {"second"} {u32});
        is!(S264, f0 {"first"} {u32}, f1 {"second"} {i64});
        is!(S265, f0 {"first"} {u32}, f1 {"second"} {Vector3<i32>});
        is!(S266, f0 {"first"} {u64}, f1 {"second"} {u64});
        is!(S267, f0 {"first"} {u64}, f1 {"second"} {f32});
        is!(S268, f0 {"first"} {u64}, f1 {"second"} {Vector3<f32>});
        is!(S269, f0 {"first"} {i8}, f1 {"second"} {i8});
        is!(S270, f0 {"first"} {i8}, f1 {"second"} {f64});
        is!(S271, f0 {"first"} {i8}, f1 {"second"} {Vector3<f64>});
        is!(S272, f0 {"first"} {i16}, f1 {"second"} {u8});
        is!(S273, f0 {"first"} {i16}, f1 {"second"} {i16});
        is!(S274, f0 {"first"} {i16}, f1 {"second"} {Vector3<u8>});
        is!(S275, f0 {"first"} {i16}, f1 {"second"} {Vector4<u8>});
        is!(S276, f0 {"first"} {i32}, f1 {"second"} {u16});
        is!(S277, f0 {"first"} {i32}, f1 {"second"} {i32});
        is!(S278, f0 {"first"} {i32}, f1 {"second"} {Vector3<u16>});
        is!(S279, f0 {"first"} {i64}, f1 {"second"} {u32});
        is!(S280, f0 {"first"} {i64}, f1 {"second"} {i64});
        is!(S281, f0 {"first"} {i64}, f1 {"second"} {Vector3<i32>});
        is!(S282, f0 {"first"} {f32}, f1 {"second"} {u64});
        is!(S283, f0 {"first"} {f32}, f1 {"second"} {f32});
        is!(S284, f0 {"first"} {f32}, f1 {"second"} {Vector3<f32>});
        is!(S285, f0 {"first"} {f64}, f1 {"second"} {i8});
        is!(S286, f0 {"first"} {f64}, f1 {"second"} {f64});
        is!(S287, f0 {"first"} {f64}, f1 {"second"} {Vector3<f64>});
        is!(S288, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u8});
        is!(S289, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i16});
        is!(S290, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S291, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S292, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u16});
        is!(S293, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i32});
        is!(S294, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u16>});
        is!(S295, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u32});
        is!(S296, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i64});
        is!(S297, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<i32>});
        is!(S298, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u64});
        is!(S299, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f32});
        is!(S300, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<f32>});
        is!(S301, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i8});
        is!(S302, f0 {"first"} {Vector3<f64>}, f1 {"second"} {f64});
        is!(S303, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S304, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u8});
        is!(S305, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i16});
        is!(S306, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S307, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S308, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S309, f0 {"first"} {u8}, f1 {"second"} {i64});
        is!(S310, f0 {"first"} {u8}, f1 {"second"} {Vector3<f64>});
        is!(S311, f0 {"first"} {u16}, f1 {"second"} {u32});
        is!(S312, f0 {"first"} {u16}, f1 {"second"} {f64});
        is!(S313, f0 {"first"} {u32}, f1 {"second"} {i8});
        is!(S314, f0 {"first"} {u32}, f1 {"second"} {Vector3<u16>});
        is!(S315, f0 {"first"} {u64}, f1 {"second"} {i32});
        is!(S316, f0 {"first"} {u64}, f1 {"second"} {Vector3<f32>});
        is!(S317, f0 {"first"} {i8}, f1 {"second"} {u16});
        is!(S318, f0 {"first"} {i8}, f1 {"second"} {f32});
        is!(S319, f0 {"first"} {i8}, f1 {"second"} {Vector4<u8>});
        is!(S320, f0 {"first"} {i16}, f1 {"second"} {u64});
        is!(S321, f0 {"first"} {i16}, f1 {"second"} {Vector3<u8>});
        is!(S322, f0 {"first"} {i32}, f1 {"second"} {i16});
        is!(S323, f0 {"first"} {i32}, f1 {"second"} {Vector3<i32>});
        is!(S324, f0 {"first"} {i64}, f1 {"second"} {u8});
        is!(S325, f0 {"first"} {i64}, f1 {"second"} {i64});
        is!(S326, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S327, f0 {"first"} {f32}, f1 {"second"} {u32});
        is!(S328, f0 {"first"} {f32}, f1 {"second"} {f64});
        is!(S329, f0 {"first"} {f64}, f1 {"second"} {i8});
        is!(S330, f0 {"first"} {f64}, f1 {"second"} {Vector3<u16>});
        is!(S331, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i32});
        is!(S332, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<f32>});
        is!(S333, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u16});
        is!(S334, f0 {"first"} {Vector3<u16>}, f1 {"second"} {f32});
        is!(S335, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector4<u8>});
        is!(S336, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u64});
        is!(S337, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u8>});
        is!(S338, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i16});
        is!(S339, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<i32>});
        is!(S340, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u8});
        is!(S341, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i64});
        is!(S342, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S343, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u32});
        is!(S344, f0 {"first"} {Vector4<u8>}, f1 {"second"} {f64});
    }
    fn q_pairs_packed_2() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S345, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S346, f0 {"first"} {u8}, f1 {"second"} {i16});
        is!(S347, f0 {"first"} {u8}, f1 {"second"} {Vector3<u8>});
        is!(S348, f0 {"first"} {u8}, f1 {"second"} {Vector4<u8>});
        is!(S349, f0 {"first"} {u16}, f1 {"second"} {u32});
        is!(S350, f0 {"first"} {u16}, f1 {"second"} {i64});
        is!(S351, f0 {"first"} {u16}, f1 {"second"} {Vector3<i32>});
        is!(S352, f0 {"first"} {u32}, f1 {"second"} {i8});
        is!(S353, f0 {"first"} {u32}, f1 {"second"} {f64});
        is!(S354, f0 {"first"} {u32}, f1 {"second"} {Vector3<f64>});
        is!(S355, f0 {"first"} {u64}, f1 {"second"} {u16});
        is!(S356, f0 {"first"} {u64}, f1 {"second"} {i32});
        is!(S357, f0 {"first"} {u64}, f1 {"second"} {Vector3<u16>});
        is!(S358, f0 {"first"} {i8}, f1 {"second"} {u64});
        is!(S359, f0 {"first"} {i8}, f1 {"second"} {f32});
        is!(S360, f0 {"first"} {i8}, f1 {"second"} {Vector3<f32>});
        is!(S361, f0 {"first"} {i16}, f1 {"second"} {u8});
        is!(S362, f0 {"first"} {i16}, f1 {"second"} {i16});
        is!(S363, f0 {"first"} {i16}, f1 {"second"} {Vector3<u8>});
        is!(S364, f0 {"first"} {i16}, f1 {"second"} {Vector4<u8>});
        is!(S365, f0 {"first"} {i32}, f1 {"second"} {u32});
        is!(S366, f0 {"first"} {i32}, f1 {"second"} {i64});
        is!(S367, f0 {"first"} {i32}, f1 {"second"} {Vector3<i32>});
        is!(S368, f0 {"first"} {i64}, f1 {"second"} {i8});
        is!(S369, f0 {"first"} {i64}, f1 {"second"} {f64});
        is!(S370, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S371, f0 {"first"} {f32}, f1 {"second"} {u16});
        is!(S372, f0 {"first"} {f32}, f1 {"second"} {i32});
        is!(S373, f0 {"first"} {f32}, f1 {"second"} {Vector3<u16>});
        is!(S374, f0 {"first"} {f64}, f1 {"second"} {u64});
        is!(S375, f0 {"first"} {f64}, f1 {"second"} {f32});
        is!(S376, f0 {"first"} {f64}, f1 {"second"} {Vector3<f32>});
        is!(S377, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u8});
        is!(S378, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i16});
        is!(S379, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S380, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S381, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u32});
        is!(S382, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i64});
        is!(S383, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<i32>});
        is!(S384, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i8});
        is!(S385, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f64});
        is!(S386, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<f64>});
        is!(S387, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u16});
        is!(S388, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i32});
        is!(S389, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<u16>});
        is!(S390, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u64});
        is!(S391, f0 {"first"} {Vector3<f64>}, f1 {"second"} {f32});
        is!(S392, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f32>});
        is!(S393, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u8});
        is!(S394, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i16});
        is!(S395, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S396, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_packed_4() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S397, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S398, f0 {"first"} {u8}, f1 {"second"} {i16});
        is!(S399, f0 {"first"} {u8}, f1 {"second"} {Vector3<u8>});
        is!(S400, f0 {"first"} {u8}, f1 {"second"} {Vector4<u8>});
        is!(S401, f0 {"first"} {u16}, f1 {"second"} {u64});
        is!(S402, f0 {"first"} {u16}, f1 {"second"} {f32});
        is!(S403, f0 {"first"} {u16}, f1 {"second"} {Vector3<f32>});
        is!(S404, f0 {"first"} {u32}, f1 {"second"} {u16});
        is!(S405, f0 {"first"} {u32}, f1 {"second"} {i32});
        is!(S406, f0 {"first"} {u32}, f1 {"second"} {Vector3<u16>});
        is!(S407, f0 {"first"} {u64}, f1 {"second"} {i8});
        is!(S408, f0 {"first"} {u64}, f1 {"second"} {f64});
        is!(S409, f0 {"first"} {u64}, f1 {"second"} {Vector3<f64>});
        is!(S410, f0 {"first"} {i8}, f1 {"second"} {u32});
        is!(S411, f0 {"first"} {i8}, f1 {"second"} {i64});
        is!(S412, f0 {"first"} {i8}, f1 {"second"} {Vector3<i32>});
        is!(S413, f0 {"first"} {i16}, f1 {"second"} {u8});
        is!(S414, f0 {"first"} {i16}, f1 {"second"} {i16});
        is!(S415, f0 {"first"} {i16}, f1 {"second"} {Vector3<u8>});
        is!(S416, f0 {"first"} {i16}, f1 {"second"} {Vector4<u8>});
        is!(S417, f0 {"first"} {i32}, f1 {"second"} {u64});
        is!(S418, f0 {"first"} {i32}, f1 {"second"} {f32});
        is!(S419, f0 {"first"} {i32}, f1 {"second"} {Vector3<f32>});
        is!(S420, f0 {"first"} {i64}, f1 {"second"} {u16});
        is!(S421, f0 {"first"} {i64}, f1 {"second"} {i32});
        is!(S422, f0 {"first"} {i64}, f1 {"second"} {Vector3<u16>});
        is!(S423, f0 {"first"} {f32}, f1 {"second"} {i8});
        is!(S424, f0 {"first"} {f32}, f1 {"second"} {f64});
        is!(S425, f0 {"first"} {f32}, f1 {"second"} {Vector3<f64>});
        is!(S426, f0 {"first"} {f64}, f1 {"second"} {u32});
        is!(S427, f0 {"first"} {f64}, f1 {"second"} {i64});
        is!(S428, f0 {"first"} {f64}, f1 {"second"} {Vector3<i32>});
        is!(S429, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u8});
        is!(S430, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i16});
        is!(S431, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S432, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S433, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u64});
        is!(S434, f0 {"first"} {Vector3<u16>}, f1 {"second"} {f32});
        is!(S435, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<f32>});
        is!(S436, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u16});
        is!(S437, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i32});
        is!(S438, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u16>});
        is!(S439, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i8});
        is!(S440, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f64});
        is!(S441, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector3<f64>});
        is!(S442, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u32});
        is!(S443, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i64});
        is!(S444, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<i32>});
        is!(S445, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u8});
        is!(S446, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i16});
        is!(S447, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S448, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_packed_8() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S449, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S450, f0 {"first"} {u8}, f1 {"second"} {i64});
        is!(S451, f0 {"first"} {u8}, f1 {"second"} {Vector3<f64>});
        is!(S452, f0 {"first"} {u16}, f1 {"second"} {i32});
        is!(S453, f0 {"first"} {u16}, f1 {"second"} {Vector3<f32>});
        is!(S454, f0 {"first"} {u32}, f1 {"second"} {i16});
        is!(S455, f0 {"first"} {u32}, f1 {"second"} {Vector3<i32>});
        is!(S456, f0 {"first"} {u64}, f1 {"second"} {i8});
        is!(S457, f0 {"first"} {u64}, f1 {"second"} {Vector3<u16>});
        is!(S458, f0 {"first"} {i8}, f1 {"second"} {u64});
        is!(S459, f0 {"first"} {i8}, f1 {"second"} {Vector3<u8>});
        is!(S460, f0 {"first"} {i16}, f1 {"second"} {u32});
        is!(S461, f0 {"first"} {i16}, f1 {"second"} {f64});
        is!(S462, f0 {"first"} {i32}, f1 {"second"} {u16});
        is!(S463, f0 {"first"} {i32}, f1 {"second"} {f32});
        is!(S464, f0 {"first"} {i32}, f1 {"second"} {Vector4<u8>});
        is!(S465, f0 {"first"} {i64}, f1 {"second"} {u8});
        is!(S466, f0 {"first"} {i64}, f1 {"second"} {i64});
        is!(S467, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S468, f0 {"first"} {f32}, f1 {"second"} {i32});
        is!(S469, f0 {"first"} {f32}, f1 {"second"} {Vector3<f32>});
        is!(S470, f0 {"first"} {f64}, f1 {"second"} {i16});
        is!(S471, f0 {"first"} {f64}, f1 {"second"} {Vector3<i32>});
        is!(S472, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i8});
        is!(S473, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<u16>});
        is!(S474, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u64});
        is!(S475, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u8>});
        is!(S476, f0 {"first"} {Vector3<i32>}, f1 {"second"} {u32});
        is!(S477, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f64});
        is!(S478, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u16});
        is!(S479, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f32});
        is!(S480, f0 {"first"} {Vector3<f32>}, f1 {"second"} {Vector4<u8>});
        is!(S481, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u8});
        is!(S482, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i64});
        is!(S483, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S484, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i32});
        is!(S485, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<f32>});
    }
    fn q_pairs_reordered() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S486, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S487, f0 {"first"} {u8}, f1 {"second"} {i64});
        is!(S488, f0 {"first"} {u8}, f1 {"second"} {Vector3<f64>});
        is!(S489, f0 {"first"} {u16}, f1 {"second"} {i16});
        is!(S490, f0 {"first"} {u16}, f1 {"second"} {Vector3<i32>});
        is!(S491, f0 {"first"} {u32}, f1 {"second"} {u64});
        is!(S492, f0 {"first"} {u32}, f1 {"second"} {Vector3<u8>});
        is!(S493, f0 {"first"} {u64}, f1 {"second"} {u16});
        is!(S494, f0 {"first"} {u64}, f1 {"second"} {f32});
        is!(S495, f0 {"first"} {u64}, f1 {"second"} {Vector4<u8>});
        is!(S496, f0 {"first"} {i8}, f1 {"second"} {i32});
        is!(S497, f0 {"first"} {i8}, f1 {"second"} {Vector3<f32>});
        is!(S498, f0 {"first"} {i16}, f1 {"second"} {i8});
        is!(S499, f0 {"first"} {i16}, f1 {"second"} {Vector3<u16>});
        is!(S500, f0 {"first"} {i32}, f1 {"second"} {u32});
        is!(S501, f0 {"first"} {i32}, f1 {"second"} {f64});
        is!(S502, f0 {"first"} {i64}, f1 {"second"} {u8});
        is!(S503, f0 {"first"} {i64}, f1 {"second"} {i64});
        is!(S504, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S505, f0 {"first"} {f32}, f1 {"second"} {i16});
        is!(S506, f0 {"first"} {f32}, f1 {"second"} {Vector3<i32>});
        is!(S507, f0 {"first"} {f64}, f1 {"second"} {u64});
        is!(S508, f0 {"first"} {f64}, f1 {"second"} {Vector3<u8>});
        is!(S509, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u16});
        is!(S510, f0 {"first"} {Vector3<u8>}, f1 {"second"} {f32});
        is!(S511, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S512, f0 {"first"} {Vector3<u16>}, f1 {"second"} {i32});
        is!(S513, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<f32>});
        is!(S514, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i8});
        is!(S515, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u16>});
        is!(S516, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u32});
        is!(S517, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f64});
        is!(S518, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u8});
        is!(S519, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i64});
        is!(S520, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S521, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i16});
        is!(S522, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<i32>});
        is!(S523, f0 {"first"} {u8}, f1 {"second"} {i16});
        is!(S524, f0 {"first"} {u8}, f1 {"second"} {Vector3<i32>});
        is!(S525, f0 {"first"} {u16}, f1 {"second"} {u16});
        is!(S526, f0 {"first"} {u16}, f1 {"second"} {f32});
        is!(S527, f0 {"first"} {u16}, f1 {"second"} {Vector4<u8>});
        is!(S528, f0 {"first"} {u32}, f1 {"second"} {i8});
        is!(S529, f0 {"first"} {u32}, f1 {"second"} {Vector3<u16>});
        is!(S530, f0 {"first"} {u64}, f1 {"second"} {u8});
        is!(S531, f0 {"first"} {u64}, f1 {"second"} {i64});
        is!(S532, f0 {"first"} {u64}, f1 {"second"} {Vector3<f64>});
        is!(S533, f0 {"first"} {i8}, f1 {"second"} {u64});
        is!(S534, f0 {"first"} {i8}, f1 {"second"} {Vector3<u8>});
        is!(S535, f0 {"first"} {i16}, f1 {"second"} {i32});
        is!(S536, f0 {"first"} {i16}, f1 {"second"} {Vector3<f32>});
        is!(S537, f0 {"first"} {i32}, f1 {"second"} {u32});
        is!(S538, f0 {"first"} {i32}, f1 {"second"} {f64});
        is!(S539, f0 {"first"} {i64}, f1 {"second"} {i16});
        is!(S540, f0 {"first"} {i64}, f1 {"second"} {Vector3<i32>});
        is!(S541, f0 {"first"} {f32}, f1 {"second"} {u16});
        is!(S542, f0 {"first"} {f32}, f1 {"second"} {f32});
        is!(S543, f0 {"first"} {f32}, f1 {"second"} {Vector4<u8>});
        is!(S544, f0 {"first"} {f64}, f1 {"second"} {i8});
        is!(S545, f0 {"first"} {f64}, f1 {"second"} {Vector3<u16>});
        is!(S546, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u8});
        is!(S547, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i64});
        is!(S548, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<f64>});
        is!(S549, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u64});
        is!(S550, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u8>});
        is!(S551, f0 {"first"} {Vector3<i32>}, f1 {"second"} {i32});
        is!(S552, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<f32>});
        is!(S553, f0 {"first"} {Vector3<f32>}, f1 {"second"} {u32});
        is!(S554, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f64});
        is!(S555, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i16});
        is!(S556, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<i32>});
        is!(S557, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u16});
        is!(S558, f0 {"first"} {Vector4<u8>}, f1 {"second"} {f32});
        is!(S559, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector4<u8>});
    }
    fn q_pairs_aligned() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S560, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S561, f0 {"first"} {u8}, f1 {"second"} {Vector3<u16>});
        is!(S562, f0 {"first"} {u16}, f1 {"second"} {f32});
        is!(S563, f0 {"first"} {u32}, f1 {"second"} {i16});
        is!(S564, f0 {"first"} {u64}, f1 {"second"} {u32});
        is!(S565, f0 {"first"} {u64}, f1 {"second"} {Vector3<f32>});
        is!(S566, f0 {"first"} {i8}, f1 {"second"} {Vector3<u8>});
        is!(S567, f0 {"first"} {i16}, f1 {"second"} {i64});
        is!(S568, f0 {"first"} {i32}, f1 {"second"} {i8});
        is!(S569, f0 {"first"} {i32}, f1 {"second"} {Vector4<u8>});
        is!(S570, f0 {"first"} {i64}, f1 {"second"} {u16});
        is!(S571, f0 {"first"} {i64}, f1 {"second"} {Vector3<i32>});
        is!(S572, f0 {"first"} {f32}, f1 {"second"} {f64});
        is!(S573, f0 {"first"} {f64}, f1 {"second"} {i32});
        is!(S574, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u64});
        is!(S575, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<f64>});
        is!(S576, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u8});
        is!(S577, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u16>});
        is!(S578, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f32});
        is!(S579, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i16});
        is!(S580, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u32});
        is!(S581, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f32>});
        is!(S582, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u8>});
        is!(S583, f0 {"first"} {u8}, f1 {"second"} {u8});
        is!(S584, f0 {"first"} {u8}, f1 {"second"} {Vector3<u16>});
        is!(S585, f0 {"first"} {u16}, f1 {"second"} {Vector3<u8>});
        is!(S586, f0 {"first"} {u32}, f1 {"second"} {f64});
        is!(S587, f0 {"first"} {u64}, f1 {"second"} {f32});
        is!(S588, f0 {"first"} {i8}, f1 {"second"} {i64});
        is!(S589, f0 {"first"} {i16}, f1 {"second"} {i32});
        is!(S590, f0 {"first"} {i32}, f1 {"second"} {i16});
        is!(S591, f0 {"first"} {i64}, f1 {"second"} {i8});
        is!(S592, f0 {"first"} {i64}, f1 {"second"} {Vector4<u8>});
        is!(S593, f0 {"first"} {f32}, f1 {"second"} {u64});
        is!(S594, f0 {"first"} {f32}, f1 {"second"} {Vector3<f64>});
        is!(S595, f0 {"first"} {f64}, f1 {"second"} {u32});
        is!(S596, f0 {"first"} {f64}, f1 {"second"} {Vector3<f32>});
        is!(S597, f0 {"first"} {Vector3<u8>}, f1 {"second"} {u16});
        is!(S598, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector3<i32>});
        is!(S599, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u8});
        is!(S600, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<u16>});
        is!(S601, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u8>});
        is!(S602, f0 {"first"} {Vector3<f32>}, f1 {"second"} {f64});
        is!(S603, f0 {"first"} {Vector3<f64>}, f1 {"second"} {f32});
        is!(S604, f0 {"first"} {Vector4<u8>}, f1 {"second"} {i64});
    }
    fn q_pairs_several() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S605, f0 {"first"} {u8}, f1 {"second"} {u16});
        is!(S606, f0 {"first"} {u8}, f1 {"second"} {Vector3<i32>});
        is!(S607, f0 {"first"} {u16}, f1 {"second"} {f64});
        is!(S608, f0 {"first"} {u32}, f1 {"second"} {i32});
        is!(S609, f0 {"first"} {u64}, f1 {"second"} {u64});
        is!(S610, f0 {"first"} {u64}, f1 {"second"} {Vector3<f64>});
        is!(S611, f0 {"first"} {i8}, f1 {"second"} {u8});
        is!(S612, f0 {"first"} {i8}, f1 {"second"} {Vector3<u16>});
        is!(S613, f0 {"first"} {i16}, f1 {"second"} {f32});
        is!(S614, f0 {"first"} {i32}, f1 {"second"} {i16});
        is!(S615, f0 {"first"} {i64}, f1 {"second"} {u32});
        is!(S616, f0 {"first"} {i64}, f1 {"second"} {Vector3<f32>});
        is!(S617, f0 {"first"} {f32}, f1 {"second"} {Vector3<u8>});
        is!(S618, f0 {"first"} {f64}, f1 {"second"} {i64});
        is!(S619, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i8});
        is!(S620, f0 {"first"} {Vector3<u8>}, f1 {"second"} {Vector4<u8>});
        is!(S621, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u16});
        is!(S622, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<i32>});
        is!(S623, f0 {"first"} {Vector3<i32>}, f1 {"second"} {f64});
        is!(S624, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i32});
        is!(S625, f0 {"first"} {Vector3<f64>}, f1 {"second"} {u64});
        is!(S626, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector3<f64>});
        is!(S627, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u8});
        is!(S628, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<u16>});
        is!(S629, f0 {"first"} {u8}, f1 {"second"} {u32});
        is!(S630, f0 {"first"} {u8}, f1 {"second"} {Vector3<f32>});
        is!(S631, f0 {"first"} {u16}, f1 {"second"} {Vector3<u8>});
        is!(S632, f0 {"first"} {u32}, f1 {"second"} {i64});
        is!(S633, f0 {"first"} {u64}, f1 {"second"} {i8});
        is!(S634, f0 {"first"} {u64}, f1 {"second"} {Vector4<u8>});
        is!(S635, f0 {"first"} {i8}, f1 {"second"} {u16});
        is!(S636, f0 {"first"} {i8}, f1 {"second"} {Vector3<i32>});
        is!(S637, f0 {"first"} {i16}, f1 {"second"} {f64});
        is!(S638, f0 {"first"} {i32}, f1 {"second"} {i32});
        is!(S639, f0 {"first"} {i64}, f1 {"second"} {u64});
        is!(S640, f0 {"first"} {i64}, f1 {"second"} {Vector3<f64>});
        is!(S641, f0 {"first"} {f32}, f1 {"second"} {u8});
        is!(S642, f0 {"first"} {f32}, f1 {"second"} {Vector3<u16>});
        is!(S643, f0 {"first"} {f64}, f1 {"second"} {f32});
        is!(S644, f0 {"first"} {Vector3<u8>}, f1 {"second"} {i16});
        is!(S645, f0 {"first"} {Vector3<u16>}, f1 {"second"} {u32});
        is!(S646, f0 {"first"} {Vector3<u16>}, f1 {"second"} {Vector3<f32>});
        is!(S647, f0 {"first"} {Vector3<i32>}, f1 {"second"} {Vector3<u8>});
        is!(S648, f0 {"first"} {Vector3<f32>}, f1 {"second"} {i64});
        is!(S649, f0 {"first"} {Vector3<f64>}, f1 {"second"} {i8});
        is!(S650, f0 {"first"} {Vector3<f64>}, f1 {"second"} {Vector4<u8>});
        is!(S651, f0 {"first"} {Vector4<u8>}, f1 {"second"} {u16});
        is!(S652, f0 {"first"} {Vector4<u8>}, f1 {"second"} {Vector3<i32>});
    }
    fn q_many_0() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S653, f0 {"attribute 0"} {Vector3<i32>}, f1 {attributes::RETURN_NUMBER.name()} {u32}, f2 {"attribute 2"} {Vector3<f32>}, f3 {attributes::USER_DATA.name()} {i8}, f4 {"attribute 4"} {u32});
        is!(S654, f0 {attributes::COLOR_RGB.name()} {Vector3<u16>}, f1 {"attribute 1"} {f32}, f2 {"attribute 2"} {u8}, f3 {attributes::NIR.name()} {u32}, f4 {"attribute 4"} {i32});
        is!(S655, f0 {"attribute 0"} {u32}, f1 {"attribute 1"} {Vector4<u8>}, f2 {"attribute 2"} {u16}, f3 {"attribute 3"} {u64}, f4 {"attribute 4"} {Vector3<u8>});
        is!(S656, f0 {"attribute 0"} {f32}, f1 {attributes::SCAN_ANGLE_RANK.name()} {f32}, f2 {"attribute 2"} {Vector3<u8>}, f3 {"attribute 3"} {u8});
        is!(S657, f0 {"attribute 0"} {i8}, f1 {attributes::NORMAL.name()} {u8}, f2 {attributes::INTENSITY.name()} {Vector3<u16>});
        is!(S658, f0 {"attribute 0"} {Vector3<f64>}, f1 {"attribute 1"} {Vector3<f64>}, f2 {"attribute 2"} {Vector3<f32>}, f3 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {i8}, f4 {"attribute 4"} {u64});
        is!(S659, f0 {"attribute 0"} {u64}, f1 {"attribute 1"} {Vector4<u8>}, f2 {"attribute 2"} {u16}, f3 {attributes::WAVEFORM_PARAMETERS.name()} {i16}, f4 {"attribute 4"} {i16});
        is!(S660, 0 {"attribute 0"} {u16}, 1 {"attribute 1"} {u8}, 2 {"attribute 2"} {Vector3<u8>}, 3 {"attribute 3"} {Vector3<i32>}, 4 {"attribute 4"} {Vector4<u8>});
        is!(S661, f0 {attributes::POINT_ID.name()} {Vector3<i32>}, f1 {"attribute 1"} {i16}, f2 {attributes::COLOR_RGB.name()} {Vector3<f64>}, f3 {attributes::USER_DATA.name()} {Vector3<f64>}, f4 {"attribute 4"} {i16}, f5 {"attribute 5"} {Vector3<u8>});
        is!(S662, f0 {attributes::SCAN_ANGLE_RANK.name()} {Vector3<f64>}, f1 {"attribute 1"} {Vector3<i32>}, f2 {attributes::SCAN_ANGLE.name()} {i32}, f3 {"attribute 3"} {i16});
        is!(S663, f0 {"attribute 0"} {Vector3<u8>}, f1 {"attribute 1"} {u8}, f2 {"attribute 2"} {i32}, f3 {"attribute 3"} {Vector3<u16>});
        is!(S664, f0 {attributes::POSITION_3D.name()} {Vector3<u8>}, f1 {attributes::EDGE_OF_FLIGHT_LINE.name()} {f32}, f2 {attributes::COLOR_RGB.name()} {Vector3<u16>}, f3 {attributes::POINT_ID.name()} {u8}, f4 {"attribute 4"} {u32}, f5 {"attribute 5"} {u8});
        is!(S665, f0 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {f64}, f1 {"attribute 1"} {i64}, f2 {"attribute 2"} {i64}, f3 {attributes::GPS_TIME.name()} {u16}, f4 {"attribute 4"} {u16});
        is!(S666, f0 {"attribute 0"} {u16}, f1 {"attribute 1"} {u32}, f2 {attributes::CLASSIFICATION_FLAGS.name()} {Vector3<u8>}, f3 {"attribute 3"} {Vector3<f64>}, f4 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<i32>}, f5 {"attribute 5"} {f64});
        is!(S667, f0 {"attribute 0"} {Vector3<f64>}, f1 {"attribute 1"} {i32}, f2 {"attribute 2"} {Vector3<f32>}, f3 {"attribute 3"} {Vector3<u8>});
        is!(S668, f0 {attributes::USER_DATA.name()} {u8}, f1 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f32>}, f2 {"attribute 2"} {f64}, f3 {"attribute 3"} {u64}, f4 {attributes::SCANNER_CHANNEL.name()} {u8}, f5 {attributes::NUMBER_OF_RETURNS.name()} {Vector3<f64>});
        is!(S669, f0 {"attribute 0"} {i64}, f1 {attributes::SCANNER_CHANNEL.name()} {Vector3<f32>}, f2 {"attribute 2"} {u32}, f3 {"attribute 3"} {u32}, f4 {"attribute 4"} {i8}, f5 {attributes::INTENSITY.name()} {Vector3<i32>});
        is!(S670, 0 {"attribute 0"} {i8}, 1 {"attribute 1"} {u64}, 2 {attributes::RETURN_NUMBER.name()} {i8}, 3 {"attribute 3"} {Vector3<i32>}, 4 {"attribute 4"} {Vector3<u8>});
        is!(S671, f0 {"attribute 0"} {Vector3<u8>}, f1 {"attribute 1"} {f64}, f2 {"attribute 2"} {Vector3<i32>}, f3 {attributes::POINT_ID.name()} {i32});
        is!(S672, f0 {"attribute 0"} {f64}, f1 {attributes::SCAN_ANGLE.name()} {Vector3<f64>}, f2 {attributes::POINT_ID.name()} {u8}, f3 {"attribute 3"} {f64});
        is!(S673, f0 {"attribute 0"} {u16}, f1 {"attribute 1"} {i8}, f2 {"attribute 2"} {u64}, f3 {"attribute 3"} {u16}, f4 {"attribute 4"} {Vector4<u8>}, f5 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {u16});
        is!(S674, f0 {"attribute 0"} {u32}, f1 {attributes::RETURN_NUMBER.name()} {i32}, f2 {"attribute 2"} {i16}, f3 {"attribute 3"} {u8}, f4 {"attribute 4"} {i16});
        is!(S675, f0 {"attribute 0"} {i64}, f1 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {Vector3<u16>}, f2 {attributes::COLOR_RGB.name()} {f64}, f3 {"attribute 3"} {u64}, f4 {"attribute 4"} {u16}, f5 {"attribute 5"} {i32});
        is!(S676, f0 {"attribute 0"} {Vector3<u8>}, f1 {attributes::EDGE_OF_FLIGHT_LINE.name()} {Vector3<i32>}, f2 {attributes::USER_DATA.name()} {f32});
        is!(S677, f0 {"attribute 0"} {i16}, f1 {"attribute 1"} {u32}, f2 {"attribute 2"} {u64});
        is!(S678, f0 {"attribute 0"} {u64}, f1 {"attribute 1"} {Vector4<u8>}, f2 {"attribute 2"} {Vector3<f64>}, f3 {"attribute 3"} {Vector3<f32>}, f4 {attributes::WAVEFORM_DATA_OFFSET.name()} {u32}, f5 {attributes::NIR.name()} {i8});
        is!(S679, f0 {"attribute 0"} {i64}, f1 {"attribute 1"} {Vector3<f64>}, f2 {"attribute 2"} {i32});
        is!(S680, 0 {attributes::NUMBER_OF_RETURNS.name()} {f32}, 1 {"attribute 1"} {Vector3<i32>}, 2 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f64>}, 3 {"attribute 3"} {f64}, 4 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {Vector3<f32>});
        is!(S681, f0 {"attribute 0"} {u16}, f1 {"attribute 1"} {Vector3<u16>}, f2 {"attribute 2"} {i32}, f3 {"attribute 3"} {f64}, f4 {"attribute 4"} {u64}, f5 {"attribute 5"} {i8});
        is!(S682, f0 {"attribute 0"} {f64}, f1 {attributes::NIR.name()} {i16}, f2 {attributes::RETURN_NUMBER.name()} {f32});
    }
    fn q_many_1() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S683, f0 {"attribute 0"} {u16}, f1 {"attribute 1"} {i16}, f2 {"attribute 2"} {Vector3<u16>}, f3 {"attribute 3"} {Vector3<f32>});
        is!(S684, f0 {"attribute 0"} {f32}, f1 {"attribute 1"} {f64}, f2 {"attribute 2"} {u64}, f3 {"attribute 3"} {u16});
        is!(S685, f0 {"attribute 0"} {u32}, f1 {attributes::NUMBER_OF_RETURNS.name()} {u8}, f2 {"attribute 2"} {i16}, f3 {"attribute 3"} {Vector3<u16>});
        is!(S686, f0 {"attribute 0"} {Vector3<u8>}, f1 {"attribute 1"} {Vector3<u8>}, f2 {"attribute 2"} {i8}, f3 {attributes::POINT_SOURCE_ID.name()} {Vector3<u16>}, f4 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {u16}, f5 {"attribute 5"} {Vector4<u8>});
        is!(S687, f0 {"attribute 0"} {u32}, f1 {attributes::CLASSIFICATION.name()} {f32}, f2 {"attribute 2"} {u8}, f3 {attributes::SCAN_ANGLE.name()} {Vector3<i32>}, f4 {"attribute 4"} {i16});
        is!(S688, f0 {"attribute 0"} {f64}, f1 {"attribute 1"} {Vector3<u8>}, f2 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {f64}, f3 {"attribute 3"} {u32}, f4 {"attribute 4"} {Vector3<i32>});
        is!(S689, f0 {attributes::USER_DATA.name()} {f64}, f1 {attributes::WAVEFORM_PACKET_SIZE.name()} {Vector4<u8>}, f2 {"attribute 2"} {Vector3<u8>}, f3 {"attribute 3"} {i16}, f4 {attributes::NIR.name()} {u8}, f5 {"attribute 5"} {f64});
        is!(S690, 0 {"attribute 0"} {u32}, 1 {"attribute 1"} {Vector3<u16>}, 2 {"attribute 2"} {u16});
        is!(S691, f0 {"attribute 0"} {Vector3<u8>}, f1 {attributes::POSITION_3D.name()} {Vector3<u16>}, f2 {attributes::NORMAL.name()} {u32});
        is!(S692, f0 {"attribute 0"} {u16}, f1 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {Vector3<u16>}, f2 {attributes::WAVEFORM_PACKET_SIZE.name()} {Vector3<f32>}, f3 {"attribute 3"} {u64});
        is!(S693, f0 {"attribute 0"} {Vector4<u8>}, f1 {"attribute 1"} {i64}, f2 {attributes::COLOR_RGB.name()} {Vector3<u16>});
        is!(S694, f0 {attributes::CLASSIFICATION_FLAGS.name()} {f64}, f1 {"attribute 1"} {u8}, f2 {"attribute 2"} {Vector3<u16>}, f3 {"attribute 3"} {i8});
        is!(S695, f0 {"attribute 0"} {f32}, f1 {"attribute 1"} {u64}, f2 {attributes::POINT_SOURCE_ID.name()} {u8}, f3 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {u16});
        is!(S696, f0 {"attribute 0"} {u8}, f1 {attributes::NORMAL.name()} {Vector4<u8>}, f2 {attributes::NIR.name()} {Vector3<f64>});
        is!(S697, f0 {"attribute 0"} {u32}, f1 {"attribute 1"} {u32}, f2 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<u16>});
        is!(S698, f0 {"attribute 0"} {Vector3<u8>}, f1 {"attribute 1"} {f32}, f2 {"attribute 2"} {Vector4<u8>}, f3 {attributes::SCANNER_CHANNEL.name()} {i8});
        is!(S699, f0 {"attribute 0"} {u32}, f1 {"attribute 1"} {i8}, f2 {"attribute 2"} {f32}, f3 {"attribute 3"} {Vector3<i32>}, f4 {"attribute 4"} {Vector3<f64>});
        is!(S700, 0 {"attribute 0"} {Vector3<f32>}, 1 {"attribute 1"} {Vector4<u8>}, 2 {"attribute 2"} {u16});
        is!(S701, f0 {"attribute 0"} {Vector4<u8>}, f1 {attributes::NORMAL.name()} {i64}, f2 {"attribute 2"} {i32}, f3 {attributes::POINT_SOURCE_ID.name()} {i16});
        is!(S702, f0 {"attribute 0"} {i32}, f1 {attributes::EDGE_OF_FLIGHT_LINE.name()} {i16}, f2 {"attribute 2"} {i32}, f3 {"attribute 3"} {u16}, f4 {"attribute 4"} {i16});
        is!(S703, f0 {attributes::CLASSIFICATION.name()} {u32}, f1 {"attribute 1"} {i64}, f2 {attributes::POINT_SOURCE_ID.name()} {Vector3<f64>});
        is!(S704, f0 {"attribute 0"} {f64}, f1 {"attribute 1"} {u8}, f2 {"attribute 2"} {Vector3<u16>}, f3 {"attribute 3"} {i64});
        is!(S705, f0 {"attribute 0"} {i16}, f1 {"attribute 1"} {f32}, f2 {"attribute 2"} {Vector4<u8>});
        is!(S706, f0 {"attribute 0"} {f64}, f1 {"attribute 1"} {Vector3<u8>}, f2 {"attribute 2"} {Vector3<f32>});
        is!(S707, f0 {attributes::CLASSIFICATION.name()} {u16}, f1 {"attribute 1"} {Vector3<i32>}, f2 {attributes::RETURN_NUMBER.name()} {Vector3<u16>}, f3 {"attribute 3"} {f32});
        is!(S708, f0 {"attribute 0"} {u16}, f1 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {f32}, f2 {"attribute 2"} {u8});
        is!(S709, f0 {"attribute 0"} {f64}, f1 {attributes::SCAN_ANGLE.name()} {i8}, f2 {"attribute 2"} {Vector3<f64>}, f3 {"attribute 3"} {Vector3<u16>}, f4 {attributes::POSITION_3D.name()} {i32});
        is!(S710, 0 {"attribute 0"} {i8}, 1 {"attribute 1"} {f64}, 2 {attributes::NORMAL.name()} {u64}, 3 {attributes::SCAN_DIRECTION_FLAG.name()} {u8}, 4 {attributes::WAVEFORM_PACKET_SIZE.name()} {u32});
        is!(S711, f0 {"attribute 0"} {u16}, f1 {"attribute 1"} {u64}, f2 {"attribute 2"} {u64}, f3 {attributes::NUMBER_OF_RETURNS.name()} {Vector4<u8>});
        is!(S712, f0 {"attribute 0"} {Vector3<f64>}, f1 {"attribute 1"} {Vector3<f64>}, f2 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {Vector3<f64>});
    }
    fn q_builtins() {
        bound("a catalogue of 739 derived structs with all bytes symbolic");
        is!(S713, f0 {attributes::POSITION_3D.name()} {Vector3<f64>}, f1 {attributes::INTENSITY.name()} {u16}, f2 {attributes::RETURN_NUMBER.name()} {u8}, f3 {attributes::NUMBER_OF_RETURNS.name()} {u8}, f4 {attributes::CLASSIFICATION_FLAGS.name()} {u8}, f5 {attributes::SCANNER_CHANNEL.name()} {u8}, f6 {attributes::SCAN_DIRECTION_FLAG.name()} {u8}, f7 {attributes::EDGE_OF_FLIGHT_LINE.name()} {u8}, f8 {attributes::CLASSIFICATION.name()} {u8}, f9 {attributes::SCAN_ANGLE_RANK.name()} {i8}, f10 {attributes::SCAN_ANGLE.name()} {i16}, f11 {attributes::USER_DATA.name()} {u8}, f12 {attributes::POINT_SOURCE_ID.name()} {u16}, f13 {attributes::COLOR_RGB.name()} {Vector3<u16>}, f14 {attributes::GPS_TIME.name()} {f64}, f15 {attributes::NIR.name()} {u16}, f16 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {u8}, f17 {attributes::WAVEFORM_DATA_OFFSET.name()} {u64}, f18 {attributes::WAVEFORM_PACKET_SIZE.name()} {u32}, f19 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {f32}, f20 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f32>}, f21 {attributes::POINT_ID.name()} {u64}, f22 {attributes::NORMAL.name()} {Vector3<f32>});
        is!(S714, f0 {attributes::NORMAL.name()} {Vector3<f32>}, f1 {attributes::POINT_ID.name()} {u64}, f2 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f32>}, f3 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {f32}, f4 {attributes::WAVEFORM_PACKET_SIZE.name()} {u32}, f5 {attributes::WAVEFORM_DATA_OFFSET.name()} {u64}, f6 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {u8}, f7 {attributes::NIR.name()} {u16}, f8 {attributes::GPS_TIME.name()} {f64}, f9 {attributes::COLOR_RGB.name()} {Vector3<u16>}, f10 {attributes::POINT_SOURCE_ID.name()} {u16}, f11 {attributes::USER_DATA.name()} {u8}, f12 {attributes::SCAN_ANGLE.name()} {i16}, f13 {attributes::SCAN_ANGLE_RANK.name()} {i8}, f14 {attributes::CLASSIFICATION.name()} {u8}, f15 {attributes::EDGE_OF_FLIGHT_LINE.name()} {u8}, f16 {attributes::SCAN_DIRECTION_FLAG.name()} {u8}, f17 {attributes::SCANNER_CHANNEL.name()} {u8}, f18 {attributes::CLASSIFICATION_FLAGS.name()} {u8}, f19 {attributes::NUMBER_OF_RETURNS.name()} {u8}, f20 {attributes::RETURN_NUMBER.name()} {u8}, f21 {attributes::INTENSITY.name()} {u16}, f22 {attributes::POSITION_3D.name()} {Vector3<f64>});
        is!(S715, f0 {attributes::POSITION_3D.name()} {Vector3<f64>}, f1 {attributes::RETURN_NUMBER.name()} {u8}, f2 {attributes::CLASSIFICATION_FLAGS.name()} {u8}, f3 {attributes::SCAN_DIRECTION_FLAG.name()} {u8}, f4 {attributes::CLASSIFICATION.name()} {u8}, f5 {attributes::SCAN_ANGLE.name()} {i16}, f6 {attributes::POINT_SOURCE_ID.name()} {u16}, f7 {attributes::GPS_TIME.name()} {f64}, f8 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {u8}, f9 {attributes::WAVEFORM_PACKET_SIZE.name()} {u32}, f10 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f32>}, f11 {attributes::NORMAL.name()} {Vector3<f32>}, f12 {attributes::INTENSITY.name()} {u16}, f13 {attributes::NUMBER_OF_RETURNS.name()} {u8}, f14 {attributes::SCANNER_CHANNEL.name()} {u8}, f15 {attributes::EDGE_OF_FLIGHT_LINE.name()} {u8}, f16 {attributes::SCAN_ANGLE_RANK.name()} {i8}, f17 {attributes::USER_DATA.name()} {u8}, f18 {attributes::COLOR_RGB.name()} {Vector3<u16>}, f19 {attributes::NIR.name()} {u16}, f20 {attributes::WAVEFORM_DATA_OFFSET.name()} {u64}, f21 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {f32}, f22 {attributes::POINT_ID.name()} {u64});
        is!(S716, f0 {attributes::POSITION_3D.name()} {Vector3<f64>});
        is!(S717, f0 {attributes::INTENSITY.name()} {u16});
        is!(S718, f0 {attributes::RETURN_NUMBER.name()} {u8});
        is!(S719, f0 {attributes::NUMBER_OF_RETURNS.name()} {u8});
        is!(S720, f0 {attributes::CLASSIFICATION_FLAGS.name()} {u8});
        is!(S721, f0 {attributes::SCANNER_CHANNEL.name()} {u8});
        is!(S722, f0 {attributes::SCAN_DIRECTION_FLAG.name()} {u8});
        is!(S723, f0 {attributes::EDGE_OF_FLIGHT_LINE.name()} {u8});
        is!(S724, f0 {attributes::CLASSIFICATION.name()} {u8});
        is!(S725, f0 {attributes::SCAN_ANGLE_RANK.name()} {i8});
        is!(S726, f0 {attributes::SCAN_ANGLE.name()} {i16});
        is!(S727, f0 {attributes::USER_DATA.name()} {u8});
        is!(S728, f0 {attributes::POINT_SOURCE_ID.name()} {u16});
        is!(S729, f0 {attributes::COLOR_RGB.name()} {Vector3<u16>});
        is!(S730, f0 {attributes::GPS_TIME.name()} {f64});
        is!(S731, f0 {attributes::NIR.name()} {u16});
        is!(S732, f0 {attributes::WAVE_PACKET_DESCRIPTOR_INDEX.name()} {u8});
        is!(S733, f0 {attributes::WAVEFORM_DATA_OFFSET.name()} {u64});
        is!(S734, f0 {attributes::WAVEFORM_PACKET_SIZE.name()} {u32});
        is!(S735, f0 {attributes::RETURN_POINT_WAVEFORM_LOCATION.name()} {f32});
        is!(S736, f0 {attributes::WAVEFORM_PARAMETERS.name()} {Vector3<f32>});
        is!(S737, f0 {attributes::POINT_ID.name()} {u64});
        is!(S738, f0 {attributes::NORMAL.name()} {Vector3<f32>});
    }
}

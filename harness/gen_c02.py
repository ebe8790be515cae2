#!/usr/bin/env python3
"""Writes src/bin/c02.rs: the catalogue of derived structs (run by hand, the result is committed)."""
T = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64",
     "Vector3<u8>", "Vector3<u16>", "Vector3<i32>", "Vector3<f32>", "Vector3<f64>", "Vector4<u8>"]
B = [("POSITION_3D", "Vector3<f64>"), ("INTENSITY", "u16"), ("RETURN_NUMBER", "u8"), ("NUMBER_OF_RETURNS", "u8"),
     ("CLASSIFICATION_FLAGS", "u8"), ("SCANNER_CHANNEL", "u8"), ("SCAN_DIRECTION_FLAG", "u8"), ("EDGE_OF_FLIGHT_LINE", "u8"),
     ("CLASSIFICATION", "u8"), ("SCAN_ANGLE_RANK", "i8"), ("SCAN_ANGLE", "i16"), ("USER_DATA", "u8"), ("POINT_SOURCE_ID", "u16"),
     ("COLOR_RGB", "Vector3<u16>"), ("GPS_TIME", "f64"), ("NIR", "u16"), ("WAVE_PACKET_DESCRIPTOR_INDEX", "u8"),
     ("WAVEFORM_DATA_OFFSET", "u64"), ("WAVEFORM_PACKET_SIZE", "u32"), ("RETURN_POINT_WAVEFORM_LOCATION", "f32"),
     ("WAVEFORM_PARAMETERS", "Vector3<f32>"), ("POINT_ID", "u64"), ("NORMAL", "Vector3<f32>")]
out, checks = [], {}
n = 0
def struct(group, reprs, fields, tup=False):
    """fields: (attribute token, expected name expression, type)"""
    global n
    s = "S%d" % n
    n += 1
    attrs = "".join("#[repr(%s)]" % r for r in reprs)
    if tup:
        body = "(" + ", ".join("#[pasture(%s)] %s" % (a, t) for a, _, t in fields) + ");"
        names = [str(i) for i in range(len(fields))]
    else:
        names = ["f%d" % i for i in range(len(fields))]
        body = "{ " + ", ".join("#[pasture(%s)] %s: %s" % (a, f, t) for f, (a, _, t) in zip(names, fields)) + " }"
    out.append("%s #[derive(PointType, Clone, Copy)] struct %s %s" % (attrs, s, body))
    out.append("pod!(%s);" % s)
    checks.setdefault(group, []).append("is!(%s, %s);" % (s, ", ".join("%s %s %s" % (f, "{%s}" % e, "{%s}" % t) for f, (_, e, t) in zip(names, fields))))
def custom(name, t):
    return ('attribute = "%s"' % name, '"%s"' % name, t)
def builtin(b, t):
    return ("BUILTIN_" + b, "attributes::%s.name()" % b, t)
def pairs(group, reprs, pick):
    for i, a in enumerate(T):
        for j, b in enumerate(T):
            if pick(i, j):
                struct(group if isinstance(group, str) else group(i), reprs, [custom("first", a), custom("second", b)])
pairs(lambda i: "q_pairs_c_%d" % (i // 4), ["C"], lambda i, j: True)
pairs("q_pairs_packed", ["C, packed"], lambda i, j: (i * 7 + j * 3) % 5 == 0)
pairs("q_pairs_packed", ["packed"], lambda i, j: (i * 5 + j) % 7 == 0)
pairs("q_pairs_packed_2", ["C, packed(2)"], lambda i, j: (i * 3 + j) % 5 == 0)
pairs("q_pairs_packed_4", ["packed(4), C"], lambda i, j: (i + j * 3) % 5 == 0)
pairs("q_pairs_packed_8", ["C, packed(8)"], lambda i, j: (i + j) % 7 == 0)
# the order of the fields in memory is the compiler's
pairs("q_pairs_reordered", ["packed(2)"], lambda i, j: (i * 3 + j * 5) % 7 == 0)
pairs("q_pairs_reordered", ["packed(4)"], lambda i, j: (i * 5 + j * 3) % 7 == 1)
pairs("q_pairs_aligned", ["C, align(16)"], lambda i, j: (i * 3 + j) % 11 == 0)
pairs("q_pairs_aligned", ["C", "align(4)"], lambda i, j: (i + j) % 11 == 0)
pairs("q_pairs_several", ["C", "packed"], lambda i, j: (i * 3 + j) % 11 == 1)
pairs("q_pairs_several", ["packed(2)", "C"], lambda i, j: (i * 3 + j) % 11 == 2)
x = 12345
def rnd(k):
    global x
    x = (x * 1103515245 + 12345) & 0x7fffffff
    return (x >> 8) % k
for k in range(60):
    r = [["C"], ["C, packed"], ["C, packed(2)"], ["C, packed(4)"], ["packed"], ["C, align(8)"]][k % 6]
    fs = []
    for i in range(3 + rnd(4)):
        if rnd(3) == 0:
            b = B[rnd(len(B))]
            if all("attributes::%s.name()" % b[0] != f[1] for f in fs):
                fs.append(builtin(b[0], T[rnd(16)]))
                continue
        fs.append(custom("attribute %d" % i, T[rnd(16)]))
    struct("q_many_%d" % (k // 30), r, fs, tup=k % 10 == 7)
# every builtin attribute in its own type, both ways round
struct("q_builtins", ["C, packed"], [builtin(*b) for b in B])
struct("q_builtins", ["C"], [builtin(*b) for b in B[::-1]])
struct("q_builtins", ["C, packed(2)"], [builtin(*b) for b in B[::2] + B[1::2]])
for b in B:
    struct("q_builtins", ["C"], [builtin(*b)])
src = '''//! C02: derived layouts describe the memory of the struct. Written by gen_c02.py.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;
use std::borrow::Cow;
use sxh::*;

// with padding, too: only the bytes of fields are looked at
macro_rules! pod { ($t:ident) => {
    unsafe impl bytemuck::NoUninit for $t {}
    unsafe impl bytemuck::Zeroable for $t {}
    unsafe impl bytemuck::AnyBitPattern for $t {}
} }
fn part<T: bytemuck::NoUninit>(t: &T) -> &[u8] {
    bytemuck::bytes_of(t)
}
/// The layout against the compiler's offsets; the bytes at each range against the field.
macro_rules! is { ($s:ident, $($f:tt {$n:expr} {$t:ty}),+) => {{
    const Z: usize = std::mem::size_of::<$s>();
    let l = <$s as PointType>::layout();
    let b: [u8; Z] = sym_arr("bytes");
    let v: $s = bytemuck::pod_read_unaligned(&b);
    // some byte of the struct
    let p: usize = sym::<u8>("position") as usize;
    assume(p < Z);
    let mut members = vec![];
    let mut it = l.attributes();
    let mut buf = VectorBuffer::new_from_layout(l.clone());
    unsafe { buf.push_points(&b) };
    $( {
        let m = it.next().expect("an attribute per field");
        check(m.name() == $n, "name of a derived attribute");
        check(m.datatype() == <$t as PrimitiveType>::data_type(), "data type of a derived attribute");
        check(m.offset() as usize == std::mem::offset_of!($s, $f), "offset of a derived attribute");
        check(m.size() as usize == std::mem::size_of::<$t>(), "size of a derived attribute");
        let x: $t = v.$f;
        check(bytes_eq(part(&x), &b[m.byte_range_within_point()]), "the bytes of a field");
        let r = m.byte_range_within_point();
        let inside = (p >= r.start) & (p < r.end);
        let q = if inside { p - r.start } else { 0 };
        check(!inside | (b[p] == part(&x)[q]), "a byte of the struct is a byte of the field whose range it is in");
        let y: $t = buf.view_attribute::<$t>(m.attribute_definition()).at(0);
        check(bytes_eq(part(&x), part(&y)), "a field through a buffer of the derived layout");
        members.push(PointAttributeDefinition::custom(Cow::Owned($n.to_string()), <$t as PrimitiveType>::data_type()).at_offset_in_type(m.offset()));
    } )+
    check(it.next().is_none(), "one attribute per field");
    check(l.size_of_point_entry() as usize == Z, "size of the struct");
    check(buf.len() == 1, "number of points");
    let w = buf.view::<$s>().at(0);
    $( { let (x, y): ($t, $t) = (v.$f, w.$f); check(bytes_eq(part(&x), part(&y)), "a struct through a buffer"); } )+
    check(PointLayout::from_members_and_alignment(&members, std::mem::align_of::<$s>() as u64) == l, "alignment of the struct");
}} }
''' + "\n".join(out) + "\n\nharness! {\n"
for g in checks:
    src += "    fn %s() {\n        bound(\"a catalogue of %d derived structs with all bytes symbolic\");\n        %s\n    }\n" % (g, n, "\n        ".join(checks[g]))
src += "}\n"
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/bin/c02.rs"), "w").write(src)
print(n)

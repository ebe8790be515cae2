//! C22: layouts and metadata survive serialisation.
use pasture_core::layout::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::Point3;
use serde::{de::DeserializeOwned, Serialize};
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;
use PointAttributeDataType as D;

const PLAIN: [D; 17] = [
    D::U8, D::I8, D::U16, D::I16, D::U32, D::I32, D::U64, D::I64, D::F32, D::F64, D::Vec3u8, D::Vec3u16, D::Vec3f32, D::Vec3i32,
    D::Vec3f64, D::Vec4u8, D::U8,
];
/// Forms in which a value is written: a tree of named fields, bytes with named and with
/// positional fields.
fn through<T: Serialize + DeserializeOwned>(v: &T, form: usize) -> T {
    match form {
        0 => serde_json::from_value(serde_json::to_value(v).unwrap()).unwrap(),
        1 => serde_cbor::from_slice(&serde_cbor::to_vec(v).unwrap()).unwrap(),
        _ => serde_cbor::from_slice(&serde_cbor::ser::to_vec_packed(v).unwrap()).unwrap(),
    }
}
fn uuid(form: usize) -> uuid::Uuid {
    // as text in JSON: there, one of a few
    if form == 0 {
        uuid::Uuid::from_u128([0, 0x0123_4567_89ab_cdef_0011_2233_4455_6677, u128::MAX][choice(3, "identifier")])
    } else {
        uuid::Uuid::from_u128(sym("identifier"))
    }
}
fn any_type(form: usize) -> D {
    let k = choice(PLAIN.len() + 1, "type");
    if k + 1 < PLAIN.len() {
        return PLAIN[k];
    }
    if k + 1 == PLAIN.len() {
        return D::ByteArray(sym("size"));
    }
    D::Custom { size: sym("size"), min_alignment: sym("alignment"), name: uuid(form) }
}
/// Field by field, as equality is code under test too.
fn same_type(a: D, b: D) {
    match (a, b) {
        (D::ByteArray(x), D::ByteArray(y)) => check(x == y, "size of a byte array"),
        (D::Custom { size: s, min_alignment: m, name: n }, D::Custom { size: t, min_alignment: o, name: p }) => {
            check(s == t, "size of a custom type");
            check(m == o, "alignment of a custom type");
            check(bytes_eq(n.as_bytes(), p.as_bytes()), "identifier of a custom type");
        }
        _ => check(a == b, "data type"),
    }
}
fn same_member(a: &PointAttributeMember, b: &PointAttributeMember) {
    check(a.name() == b.name(), "name of a member");
    same_type(a.datatype(), b.datatype());
    check(a.offset() == b.offset(), "offset of a member");
    check(a.size() == b.size(), "size of a member");
}
fn same_layout(a: &PointLayout, b: &PointLayout) {
    check(a.size_of_point_entry() == b.size_of_point_entry(), "size of the points");
    check(a.attributes().count() == b.attributes().count(), "number of attributes");
    for (x, y) in a.attributes().zip(b.attributes()) {
        same_member(x, y);
    }
    // the alignment has no accessor, but another attribute reaches it
    check(a == b, "equality of the layouts");
}
const NAMES: [&str; 5] = ["a", "", "Position3D", "\u{e4}\u{1f30d}\"\\\n", "a rather long name of an attribute that fills more than one byte of length, as it has well above two hundred and fifty-six characters, which is where a length takes another form: 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789 0123456789"];
fn name() -> Cow<'static, str> {
    Cow::Borrowed(NAMES[choice(NAMES.len(), "name")])
}

/// Members at chosen offsets, in an order that is not that of their offsets.
fn explicit_layouts(f: usize) {
    bound("layouts of 2 members, one of a symbolic size below 2^8, at symbolic offsets below 2^8, in 2 orders, of alignment 1, 8 and 64");
    let (s, g): (u8, u8) = (sym("size"), sym("gap"));
    assume(s > 0);
    let o = g as u64 + s as u64;
    let a = PointAttributeDefinition::custom(Cow::Borrowed("a"), D::ByteArray(s as u64)).at_offset_in_type(g as u64);
    let b = PointAttributeDefinition::custom(Cow::Borrowed("b"), D::F64).at_offset_in_type(o);
    let align = [1, 8, 64][choice(3, "alignment")];
    let l = if sym_bool("order") {
        PointLayout::from_members_and_alignment(&[b, a], align)
    } else {
        PointLayout::from_members_and_alignment(&[a, b], align)
    };
    let mut l = l;
    let mut m: PointLayout = through(&l, f);
    same_layout(&l, &m);
    // both lay out a further attribute in the same way
    let d = PointAttributeDefinition::custom(Cow::Borrowed("d"), D::U32);
    l.add_attribute(d.clone(), FieldAlignment::Default);
    m.add_attribute(d, FieldAlignment::Default);
    same_layout(&l, &m);
}
fn derived_layouts(f: usize) {
    bound("packed and natural layouts of 2 attributes, one of each of 4 types, one of a symbolic size below 2^8 and an alignment up to 8");
    let x = [D::U8, D::I16, D::F64, D::Vec3f32][choice(4, "type")];
    let y = D::Custom { size: sym::<u8>("size") as u64, min_alignment: 1 << choice(4, "log2 of the alignment"), name: uuid::Uuid::from_u128(7) };
    let defs = [PointAttributeDefinition::custom(Cow::Borrowed("x"), x), PointAttributeDefinition::custom(Cow::Borrowed("y"), y)];
    let l = if sym_bool("packed") { PointLayout::from_attributes_packed(&defs, 2) } else { PointLayout::from_attributes(&defs) };
    same_layout(&l, &through(&l, f));
}

harness! {
    fn q_types() {
        bound("every data type, with every 64-bit size and alignment and (as bytes) every identifier");
        let f = choice(3, "form");
        let t = any_type(f);
        same_type(t, through(&t, f));
    }
    fn q_definitions() {
        bound("every data type under one name; 5 names; every 64-bit size and alignment");
        let f = choice(3, "form");
        let d = if sym_bool("vary the name") {
            PointAttributeDefinition::custom(name(), D::ByteArray(sym("size")))
        } else {
            PointAttributeDefinition::custom(Cow::Borrowed("a"), any_type(f))
        };
        let e: PointAttributeDefinition = through(&d, f);
        check(d.name() == e.name(), "name of a definition");
        same_type(d.datatype(), e.datatype());
        check(d == e, "equality of the definitions");
    }
    fn q_members() {
        bound("members of 4 types with every 64-bit size and offset");
        let f = choice(3, "form");
        let t = match choice(4, "type") {
            0 => D::U8,
            1 => D::Vec3f64,
            2 => D::ByteArray(sym("size")),
            _ => D::Custom { size: sym("size"), min_alignment: 8, name: uuid::Uuid::from_u128(7) },
        };
        let m = PointAttributeDefinition::custom(Cow::Borrowed("a"), t).at_offset_in_type(sym("offset"));
        let n: PointAttributeMember = through(&m, f);
        same_member(&m, &n);
        check(m == n, "equality of the members");
    }
    fn q_builtin_layouts() {
        bound("6 layouts, the empty one and derived ones");
        let f = choice(3, "form");
        let k = choice(LAYOUTS + 2, "layout");
        let l = if k == LAYOUTS { PointLayout::default() } else if k > LAYOUTS { Al::layout() } else { layout(k) };
        same_layout(&l, &through(&l, f));
    }
    fn q_explicit_layouts_as_json() { explicit_layouts(0) }
    fn q_explicit_layouts_as_cbor() { explicit_layouts(1) }
    fn q_explicit_layouts_as_packed_cbor() { explicit_layouts(2) }
    fn q_derived_layouts_as_json() { derived_layouts(0) }
    fn q_derived_layouts_as_cbor() { derived_layouts(1) }
    fn q_derived_layouts_as_packed_cbor() { derived_layouts(2) }
    fn q_refused_alignment() {
        bound("points of every 64-bit size and alignment");
        let (size, align): (u64, u64) = (sym("size"), sym("alignment"));
        let mut v = serde_json::to_value(&PointLayout::default()).unwrap();
        v["memory_layout"]["size"] = size.into();
        v["memory_layout"]["align"] = align.into();
        let ok = std::alloc::Layout::from_size_align(size as usize, align as usize).is_ok();
        let r: Result<PointLayout, _> = serde_json::from_value(v);
        match r {
            Ok(l) => {
                cover("a valid alignment");
                check(ok, "an impossible size or alignment was accepted");
                check(l.size_of_point_entry() == size, "size of the points");
            }
            Err(_) => check(!ok, "a possible size and alignment was refused"),
        }
    }
    fn q_boxes_of_f64() {
        bound("boxes with any one finite coordinate at a time");
        let f = choice(3, "form");
        let mut c = [-1.5, 2.25, -1e300, 4.0, 1e-310, 1e300];
        let x: f64 = sym("coordinate");
        assume(x.is_finite());
        c[choice(6, "which")] = x;
        let b = AABB::from_min_max_unchecked(Point3::new(c[0], c[1], c[2]), Point3::new(c[3], c[4], c[5]));
        let d: AABB<f64> = through(&b, f);
        for i in 0..3 {
            check(b.min()[i].to_bits() == d.min()[i].to_bits() && b.max()[i].to_bits() == d.max()[i].to_bits(), "corners of a box");
        }
    }
    fn q_boxes_of_f32() {
        bound("boxes with any one finite coordinate at a time");
        let f = choice(3, "form");
        let mut c = [-1.5, 2.25, -1e30, 4.0, 1e-40, 1e30];
        let x: f32 = sym("coordinate");
        assume(x.is_finite());
        c[choice(6, "which")] = x;
        let b = AABB::from_min_max_unchecked(Point3::new(c[0], c[1], c[2]), Point3::new(c[3], c[4], c[5]));
        let d: AABB<f32> = through(&b, f);
        for i in 0..3 {
            check(b.min()[i].to_bits() == d.min()[i].to_bits() && b.max()[i].to_bits() == d.max()[i].to_bits(), "corners of a box");
        }
    }
    fn q_boxes_of_i32() {
        bound("boxes with any one coordinate at a time");
        let f = choice(3, "form");
        let mut c = [-1, 70000, i32::MIN, 4, 300, i32::MAX];
        c[choice(6, "which")] = sym("coordinate");
        let b = AABB::from_min_max_unchecked(Point3::new(c[0], c[1], c[2]), Point3::new(c[3], c[4], c[5]));
        let d: AABB<i32> = through(&b, f);
        for i in 0..3 {
            check(b.min()[i] == d.min()[i] && b.max()[i] == d.max()[i], "corners of a box");
        }
    }
    fn q_boxes_as_json() {
        bound("boxes of all finite coordinates");
        let c: [f64; 6] = sym_arr("corner");
        for i in 0..6 { assume(c[i].is_finite()) }
        let b = AABB::from_min_max_unchecked(Point3::new(c[0], c[1], c[2]), Point3::new(c[3], c[4], c[5]));
        let d: AABB<f64> = through(&b, 0);
        for i in 0..3 {
            check(b.min()[i].to_bits() == d.min()[i].to_bits() && b.max()[i].to_bits() == d.max()[i].to_bits(), "corners of a box");
        }
    }
}

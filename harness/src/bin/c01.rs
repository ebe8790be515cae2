//! C01: layouts place attributes disjointly, aligned and in bounds.
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use std::borrow::Cow;
use std::mem::{align_of, size_of};
use sxh::*;
use PointAttributeDataType as D;

const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];
fn def(k: usize, t: D) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(NAMES[k]), t)
}
fn sym_size() -> u64 {
    sym::<u32>("size") as u64
}
fn custom(size: u64, min_alignment: u64) -> D {
    D::Custom { size, min_alignment, name: pasture_uuid() }
}
fn pasture_uuid() -> uuid::Uuid {
    uuid::Uuid::from_u128(77)
}
/// (data type, size, alignment): the size of byte arrays and custom types is symbolic
fn any_type(wide: bool) -> (D, u64, u64) {
    let fixed: &[(D, u64, u64)] = &[
        (D::U8, 1, 1), (D::F64, 8, 8), (D::Vec3u16, 6, 2), (D::U16, 2, 2), (D::F32, 4, 4), (D::Vec3f32, 12, 4),
        (D::Vec3f64, 24, 8), (D::Vec3u8, 3, 1), (D::Vec4u8, 4, 1), (D::I8, 1, 1), (D::I16, 2, 2), (D::I32, 4, 4),
        (D::U32, 4, 4), (D::U64, 8, 8), (D::I64, 8, 8), (D::Vec3i32, 12, 4),
    ];
    let n = if wide { fixed.len() } else { 3 };
    let k = choice(n + 2, "type");
    if k < n {
        return fixed[k];
    }
    let s = if wide { sym_size() } else { sym::<u16>("size") as u64 };
    if k == n {
        return (D::ByteArray(s), s, 1);
    }
    let a = if wide { 1u64 << choice(7, "log2 of the alignment") } else { 4u64 << (2 * choice(2, "log2 of the alignment")) };
    (custom(s, a), s, a)
}
fn up(x: u64, a: u64) -> u64 {
    (x + (a - 1)) & !(a - 1)
}
/// What every layout must satisfy.
fn sound(l: &PointLayout, what: &str) {
    let ms: Vec<&PointAttributeMember> = l.attributes().collect();
    let size = l.size_of_point_entry();
    let mut ok = true;
    for (i, m) in ms.iter().enumerate() {
        check(m.size() == m.datatype().size() && m.size() == m.attribute_definition().size(), "size of a member");
        let r = m.byte_range_within_point();
        ok = ok & (r.start as u64 == m.offset()) & (r.end as u64 == m.offset() + m.size()) & (r.end as u64 <= size);
        for n in &ms[..i] {
            let s = n.byte_range_within_point();
            ok = ok & ((r.end <= s.start) | (s.end <= r.start) | (r.start == r.end) | (s.start == s.end));
            check(m.name() != n.name(), "names of attributes are distinct");
        }
    }
    check(ok, what);
}
/// Finding attributes again.
fn lookup(l: &PointLayout, defs: &[PointAttributeDefinition]) {
    check(l.attributes().count() == defs.len(), "number of attributes");
    for (i, d) in defs.iter().enumerate() {
        check(l.at(i).attribute_definition() == d, "at");
        check(l.has_attribute(d) && l.has_attribute_with_name(d.name()), "has_attribute");
        check(l.index_of(d) == Some(i), "index_of");
        check(l.offset_of(d) == Some(l.at(i).offset()), "offset_of");
        check(l.get_attribute(d).map_or(false, |m| std::ptr::eq(m, l.at(i))), "get_attribute");
        check(l.get_attribute_by_name(d.name()).map_or(false, |m| std::ptr::eq(m, l.at(i))), "get_attribute_by_name");
        let other = d.with_custom_datatype(if d.datatype() == D::I64 { D::U64 } else { D::I64 });
        check(other != *d && other.name() == d.name(), "with_custom_datatype");
        check(!l.has_attribute(&other) && l.index_of(&other).is_none(), "has_attribute of another type");
        check(l.get_attribute(&other).is_none() && l.offset_of(&other).is_none(), "get_attribute of another type");
    }
    for i in defs.len()..NAMES.len() {
        check(!l.has_attribute_with_name(NAMES[i]) && l.get_attribute_by_name(NAMES[i]).is_none(), "an attribute that is not there");
    }
}
fn c_struct(n: usize, wide: bool, how: usize) {
    c_struct_from(n, wide, how, None)
}
fn c_struct_from(n: usize, wide: bool, how: usize, first: Option<(D, u64, u64)>) {
    bound("layouts of up to 3 attributes (2 over all data types), symbolic sizes below 2^32 (2^16 with three attributes), alignments 1 to 64");
    let mut defs = vec![];
    let mut l = PointLayout::default();
    let (mut off, mut align) = (0, 1);
    let mut offs = vec![];
    for k in 0..n {
        let (t, s, a) = match first {
            Some(f) if k == 0 => f,
            _ => any_type(wide),
        };
        check(t.size() == s && t.min_alignment() == a, "size and alignment of a data type");
        defs.push(def(k, t));
        let o = up(off, a);
        offs.push(o);
        off = o + s;
        align = align.max(a);
        if how == 0 {
            l.add_attribute(defs[k].clone(), FieldAlignment::Default);
            for i in 0..=k {
                check(l.at(i).offset() == offs[i], "offset as in a C struct");
            }
            check(l.size_of_point_entry() == up(off, align), "size as of a C struct");
        }
    }
    if how == 1 {
        l = PointLayout::from_attributes(&defs);
    }
    if how == 2 {
        l = defs.iter().cloned().collect();
    }
    for i in 0..n {
        check(l.at(i).offset() == offs[i], "offset as in a C struct");
    }
    check(l.size_of_point_entry() == up(off, align), "size as of a C struct");
    sound(&l, "members are disjoint and in bounds");
    lookup(&l, &defs);
    // the same members given explicitly are the same layout
    let members: Vec<PointAttributeMember> = (0..n).map(|i| defs[i].at_offset_in_type(offs[i])).collect();
    let zero_sized = defs.iter().any(|d| d.size() == 0);
    if !zero_sized {
        let e = PointLayout::from_members_and_alignment(&members, align);
        check(e == l, "a layout and its members with its alignment");
        check(l.compare_without_offsets(&e), "compare_without_offsets of equal layouts");
    }
    observe(l.size_of_point_entry());
}
fn packed(n: usize, wide: bool, p: u64) {
    let mut defs = vec![];
    let (mut off, mut align) = (0, 1);
    let mut offs = vec![];
    for k in 0..n {
        let (t, s, a) = any_type(wide);
        defs.push(def(k, t));
        let a = a.min(p);
        let o = up(off, a);
        offs.push(o);
        off = o + s;
        align = align.max(a);
    }
    let l = PointLayout::from_attributes_packed(&defs, p);
    for i in 0..n {
        check(l.at(i).offset() == offs[i], "offset as in a packed struct");
    }
    check(l.size_of_point_entry() == up(off, align), "size as of a packed struct");
    if !defs.iter().any(|d| d.size() == 0) {
        let members: Vec<PointAttributeMember> = (0..n).map(|i| defs[i].at_offset_in_type(offs[i])).collect();
        check(PointLayout::from_members_and_alignment(&members, align) == l, "a packed layout and its members");
    }
    sound(&l, "members are disjoint and in bounds");
    lookup(&l, &defs);
    observe(l.size_of_point_entry());
}
/// Explicit members: refused exactly if two overlap, else taken as they are.
fn explicit(n: usize) -> Option<PointLayout> {
    let align = 1u64 << choice(4, "log2 of the alignment");
    let mut ms = vec![];
    let mut defs = vec![];
    let mut over = false;
    let mut end = 0;
    let mut rs: Vec<(u64, u64)> = vec![];
    for k in 0..n {
        let o = sym::<u32>("offset") as u64;
        let s = sym_size();
        assume(s > 0);
        let d = def(k, D::ByteArray(s));
        ms.push(d.at_offset_in_type(o));
        defs.push(d);
        for (p, q) in &rs {
            over = over | !((o + s <= *p) | (*q <= o));
        }
        rs.push((o, o + s));
        end = if o + s > end { o + s } else { end };
    }
    if over {
        cover("overlapping members");
        must_panic("overlapping members were accepted", || PointLayout::from_members_and_alignment(&ms, align));
        return None;
    }
    cover("disjoint members");
    let l = PointLayout::from_members_and_alignment(&ms, align);
    for k in 0..n {
        check(*l.at(k) == ms[k], "members are taken as they are");
        check(l.at(k).offset() == rs[k].0 && l.at(k).size() == rs[k].1 - rs[k].0, "members are taken as they are");
    }
    check(l.size_of_point_entry() == up(end, align), "size of explicit members");
    sound(&l, "explicit members are disjoint and in bounds");
    lookup(&l, &defs);
    Some(l)
}
fn mixed(n: usize) {
    let mut end = 0;
    let mut l = PointLayout::default();
    let mut offs: Vec<u64> = vec![];
    let mut defs = vec![];
    for k in 0..n {
        let (t, d_size, a) = any_type(false);
        let d = def(k, t);
        let req = match choice(3, "field alignment") {
            0 => {
                l.add_attribute(d.clone(), FieldAlignment::Default);
                a
            }
            1 => {
                l.add_attribute(d.clone(), FieldAlignment::Packed(1));
                1
            }
            _ => {
                l.add_attribute(d.clone(), FieldAlignment::Packed(4));
                a.min(4)
            }
        };
        defs.push(d);
        for i in 0..k {
            check(l.at(i).offset() == offs[i], "adding an attribute moves another");
        }
        let o = l.at(k).offset();
        check(o & (req - 1) == 0, "alignment of a member");
        check(o == up(end, req), "a member is put at the next aligned place");
        end = o + d_size;
        offs.push(o);
        sound(&l, "members are disjoint and in bounds");
    }
    lookup(&l, &defs);
}

/// Many attributes, some of a symbolic size.
fn many(p: u64) {
    bound("layouts of 36 attributes, two of them (at the end) of symbolic sizes below 2^32");
    const N: usize = 36;
    let types = [(D::U8, 1, 1), (D::F64, 8, 8), (D::Vec3u16, 6, 2), (D::U16, 2, 2), (D::F32, 4, 4), (D::Vec3f64, 24, 8), (D::Vec4u8, 4, 1)];
    let (i, j) = (33, 35);
    let mut defs = vec![];
    let (mut off, mut align) = (0, 1);
    let mut offs = vec![];
    for k in 0..N {
        let (t, s, a) = if k == i {
            let s = sym_size();
            assume(s > 0);
            (D::ByteArray(s), s, 1)
        } else if k == j {
            let s = sym_size();
            assume(s > 0);
            (custom(s, 16), s, 16)
        } else {
            types[k * 5 % 7]
        };
        let a = a.min(p);
        defs.push(PointAttributeDefinition::custom(Cow::Owned(format!("attribute {}", k)), t));
        let o = up(off, a);
        offs.push(o);
        off = o + s;
        align = align.max(a);
    }
    let l = if p == 1024 { PointLayout::from_attributes(&defs) } else { PointLayout::from_attributes_packed(&defs, p) };
    let mut ok = true;
    for k in 0..N {
        ok = ok & (l.at(k).offset() == offs[k]);
        check(l.at(k).attribute_definition() == &defs[k] && l.index_of(&defs[k]) == Some(k), "looking up one of many attributes");
        check(l.offset_of(&defs[k]) == Some(l.at(k).offset()), "looking up one of many attributes");
        check(l.get_attribute(&defs[k]).map_or(false, |m| std::ptr::eq(m, l.at(k))), "looking up one of many attributes");
        check(l.get_attribute_by_name(defs[k].name()).map_or(false, |m| std::ptr::eq(m, l.at(k))), "looking up one of many attributes");
    }
    check(ok, "offsets of many attributes");
    check(l.size_of_point_entry() == up(off, align), "size of many attributes");
    // in another order
    let members: Vec<PointAttributeMember> = (0..N).map(|k| k * 7 % N).map(|k| defs[k].at_offset_in_type(offs[k])).collect();
    let e = PointLayout::from_members_and_alignment(&members, align);
    check(e.size_of_point_entry() == up(off, align), "size of many explicit members");
    check(l.compare_without_offsets(&e) && e != l, "comparing layouts of many attributes");
}
/// One member among many overlaps another one, or none.
fn many_explicit() {
    const N: u64 = 30;
    let i = choice(3, "place") as u64 * 14;
    let (o, s) = (sym::<u16>("offset") as u64, sym::<u8>("size") as u64);
    assume(s > 0);
    let ms: Vec<PointAttributeMember> = (0..N)
        .map(|k| {
            let d = |t| PointAttributeDefinition::custom(Cow::Owned(format!("attribute {}", k)), t);
            if k == i { d(D::ByteArray(s)).at_offset_in_type(o) } else { d(D::F32).at_offset_in_type((k * 11 % N) * 20 + 3) }
        })
        .collect();
    let mut over = false;
    let mut end = o + s;
    for k in (0..N).filter(|k| *k != i) {
        let p = (k * 11 % N) * 20 + 3;
        over = over | !((o + s <= p) | (p + 4 <= o));
        end = if p + 4 > end { p + 4 } else { end };
    }
    if over {
        must_panic("overlapping members were accepted", || PointLayout::from_members_and_alignment(&ms, 4));
    } else {
        let l = PointLayout::from_members_and_alignment(&ms, 4);
        check(l.size_of_point_entry() == up(end, 4), "size of many explicit members");
    }
}

harness! {
fn q_many_c_struct() { many(1024) }
fn q_many_packed() { many([1, 4][choice(2, "packing")]) }
fn q_many_explicit() { many_explicit() }
fn q_c_struct2_wide() { c_struct(2, true, 1) }
fn q_c_struct2() { c_struct(2, false, choice(3, "how")) }
fn q_c_struct3_f64() { c_struct_from(3, false, 0, Some((D::F64, 8, 8))) }
fn q_c_struct3_bytes() { let s = sym_size(); c_struct_from(3, false, 0, Some((D::ByteArray(s), s, 1))) }
fn q_c_struct3_custom() { let s = sym_size(); c_struct_from(3, false, 0, Some((custom(s, 16), s, 16))) }
fn q_packed2_wide() { packed(2, true, [1, 2, 4, 16][choice(4, "packing")]) }
fn q_packed3_1() { packed(3, false, 1) }
fn q_packed3_2() { packed(3, false, 2) }
fn q_packed3_4() { packed(3, false, 4) }
fn t_packed3_16() { packed(3, false, 16) }
fn t_c_struct3() { c_struct(3, false, choice(3, "how")) }
fn q_explicit2() { explicit(2); }
fn q_explicit3() { explicit(3); }
fn q_mixed2() { mixed(2) }
fn t_c_struct4() { c_struct(4, false, 1) }
fn t_packed4() { packed(4, false, [1, 2, 4, 16][choice(4, "packing")]) }
fn t_mixed3() { mixed(3) }
fn t_explicit4() { explicit(4); }
/// Attributes added to a layout of explicit members, whatever their order.
fn q_add_to_explicit() {
    if let Some(mut l) = explicit(2) {
        let (t, s, a) = any_type(false);
        assume(s > 0);
        let old = l.clone();
        match choice(2, "field alignment") {
            0 => {
                l.add_attribute(def(2, t), FieldAlignment::Default);
                check(l.at(2).offset() & (a - 1) == 0, "alignment of an added member");
            }
            _ => l.add_attribute(def(2, t), FieldAlignment::Packed(1)),
        }
        check(l.at(0) == old.at(0) && l.at(1) == old.at(1), "adding an attribute moves another");
        check(l.size_of_point_entry() >= old.size_of_point_entry(), "adding an attribute shrinks the point");
        sound(&l, "an added attribute overlaps the others");
    }
}
/// A name can only be used once.
fn q_names() {
    let k = choice(3, "name");
    let j = choice(3, "name");
    let (t, s, _) = any_type(false);
    let (u, r, _) = any_type(false);
    assume(s > 0 && r > 0);
    let dup = k == j;
    let (a, b) = (def(k, t), def(j, u));
    check((a == b) == (dup && t == u), "equality of definitions");
    let m = "a name was accepted twice";
    match choice(4, "how") {
        0 if dup => must_panic(m, || PointLayout::from_attributes(&[a, b])),
        1 if dup => must_panic(m, || PointLayout::from_attributes_packed(&[a, def(4, D::U8), b], 1)),
        2 if dup => must_panic(m, || PointLayout::from_members_and_alignment(&[a.at_offset_in_type(0), b.at_offset_in_type(1 << 41)], 1)),
        3 if dup => must_panic(m, || {
            let mut l = PointLayout::from_attributes(&[def(4, D::U8), a]);
            l.add_attribute(b, FieldAlignment::Packed(2));
        }),
        _ => {
            let l = PointLayout::from_attributes(&[a.clone(), b.clone()]);
            check(l.has_attribute(&a) && l.has_attribute(&b), "different names");
        }
    }
}
/// Layouts are equal exactly if attributes, offsets, size and alignment are.
fn q_equality() {
    let (o, p) = (sym::<u32>("offset") as u64, sym::<u32>("offset") as u64);
    let (s, r) = (sym_size(), sym_size());
    assume(s > 0 && r > 0 && o > 0 && p > 0);
    let (i, j) = (choice(2, "name"), choice(2, "name"));
    let (x, y) = (1u64 << choice(2, "align"), 1u64 << choice(2, "align"));
    let (a, b) = (def(i, D::ByteArray(s)), def(j, D::ByteArray(r)));
    let l = PointLayout::from_members_and_alignment(&[def(3, D::I8).at_offset_in_type(0), a.at_offset_in_type(o)], x);
    let m = PointLayout::from_members_and_alignment(&[def(3, D::I8).at_offset_in_type(0), b.at_offset_in_type(p)], y);
    check((l == m) == ((i == j) & (s == r) & (o == p) & (x == y)), "equality of layouts");
    check(l.compare_without_offsets(&m) == ((i == j) & (s == r)), "comparison without offsets");
    let n = PointLayout::from_members_and_alignment(&[a.at_offset_in_type(o), def(3, D::I8).at_offset_in_type(0)], x);
    check(l != n && l.compare_without_offsets(&n), "order of attributes");
    let sub = PointLayout::from_members_and_alignment(&[a.at_offset_in_type(o)], x);
    check(!l.compare_without_offsets(&sub) && !sub.compare_without_offsets(&l), "a missing attribute");
    let signed = PointLayout::from_members_and_alignment(&[def(3, D::U8).at_offset_in_type(0), a.at_offset_in_type(o)], x);
    check(!l.compare_without_offsets(&signed) && l != signed, "data types of the same size");
}
/// Sizes and alignments of the data types are those of their Rust types.
fn q_types() {
    macro_rules! t { ($($t:ty = $d:expr),*) => { $(
        check(<$t as PrimitiveType>::data_type() == $d, "data type of a primitive type");
        check($d.size() == size_of::<$t>() as u64, "size of a data type");
        check($d.min_alignment() == align_of::<$t>() as u64, "alignment of a data type");
    )* } }
    t!(u8 = D::U8, i8 = D::I8, u16 = D::U16, i16 = D::I16, u32 = D::U32, i32 = D::I32, u64 = D::U64, i64 = D::I64,
       f32 = D::F32, f64 = D::F64, Vector3<u8> = D::Vec3u8, Vector3<u16> = D::Vec3u16, Vector3<i32> = D::Vec3i32,
       Vector3<f32> = D::Vec3f32, Vector3<f64> = D::Vec3f64, Vector4<u8> = D::Vec4u8);
    let n: u64 = sym("length");
    let a: u64 = sym("alignment");
    check(D::ByteArray(n).size() == n && D::ByteArray(n).min_alignment() == 1, "byte arrays");
    check(custom(n, a).size() == n && custom(n, a).min_alignment() == a, "custom types");
    let m = PointAttributeMember::custom("m", D::ByteArray(n), a);
    check(m.size() == n && m.offset() == a && m.name() == "m" && m.datatype() == D::ByteArray(n), "custom members");
}
/// The builtin attributes have distinct names.
fn q_builtins() {
    use attributes::*;
    let all = [POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION_FLAGS, SCANNER_CHANNEL,
        SCAN_DIRECTION_FLAG, EDGE_OF_FLIGHT_LINE, CLASSIFICATION, SCAN_ANGLE_RANK, SCAN_ANGLE, USER_DATA, POINT_SOURCE_ID,
        COLOR_RGB, GPS_TIME, NIR, WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE,
        RETURN_POINT_WAVEFORM_LOCATION, WAVEFORM_PARAMETERS, POINT_ID, NORMAL];
    let l = PointLayout::from_attributes(&all);
    sound(&l, "all builtin attributes");
    let p = PointLayout::from_attributes_packed(&all, 1);
    check(p.size_of_point_entry() == all.iter().map(|a| a.size()).sum::<u64>(), "packed builtin attributes");
}
}

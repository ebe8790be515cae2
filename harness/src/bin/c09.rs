//! C09: layout conversion moves each mapped attribute, and only those.
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::borrow::Cow;
use std::ops::Range;
use sxh::model::*;
use sxh::*;
use PointAttributeDataType as D;

fn at(name: &'static str, t: D) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), t)
}
fn d<T: PrimitiveType>() -> D {
    T::data_type()
}
/// Source and target layouts with the same names, other types, orders and paddings.
fn layouts(k: usize) -> (PointLayout, PointLayout) {
    match k {
        0 => (
            PointLayout::from_attributes_packed(
                &[at("pos", d::<Vector3<i32>>()), at("class", d::<u8>()), at("color", d::<Vector3<u16>>()), at("int", d::<u16>())],
                1,
            ),
            PointLayout::from_attributes(&[at("color", d::<Vector3<u8>>()), at("pos", d::<Vector3<f64>>()), at("int", d::<u16>()), at("class", d::<u32>())]),
        ),
        1 => (
            PointLayout::from_attributes(&[at("time", d::<f64>()), at("blob", D::ByteArray(3)), at("angle", d::<i16>()), at("id", d::<u64>())]),
            PointLayout::from_members_and_alignment(
                &[
                    at("blob", D::ByteArray(3)).at_offset_in_type(9),
                    at("id", d::<u64>()).at_offset_in_type(16),
                    at("time", d::<f32>()).at_offset_in_type(0),
                    at("angle", d::<i16>()).at_offset_in_type(6),
                ],
                8,
            ),
        ),
        // the target also has attributes that the source has not, and the reverse
        _ => (
            PointLayout::from_attributes_packed(&[at("id", d::<u8>()), at("only source", d::<u16>()), at("pos", d::<Vector3<f32>>())], 2),
            PointLayout::from_attributes_packed(&[at("only target", d::<u32>()), at("pos", d::<Vector3<f64>>()), at("id", d::<i64>())], 1),
        ),
    }
}
trait Num: Copy + bytemuck::AnyBitPattern {
    fn same(self, o: Self) -> bool;
}
macro_rules! num_int { ($($t:ty)*) => { $(impl Num for $t { fn same(self, o: $t) -> bool { self == o } })* } }
num_int!(u8 u16 u32 u64 i16 i32 i64);
macro_rules! num_fp { ($($t:ty)*) => { $(impl Num for $t {
    fn same(self, o: $t) -> bool { (self.to_bits() == o.to_bits()) | (self.is_nan() & o.is_nan()) }
})* } }
num_fp!(f32 f64);
fn get<T: bytemuck::AnyBitPattern>(b: &[u8]) -> T {
    bytemuck::pod_read_unaligned(b)
}
/// `to` holds what `as` makes of `from`.
fn converted(ft: D, tt: D, from: &[u8], to: &[u8]) -> bool {
    if ft == tt {
        return bytes_eq(from, to);
    }
    macro_rules! s { ($f:ty, $t:ty) => { if ft == d::<$f>() && tt == d::<$t>() { return get::<$t>(to).same(get::<$f>(from) as $t) } } }
    macro_rules! v { ($f:ty, $t:ty) => {
        if ft == d::<Vector3<$f>>() && tt == d::<Vector3<$t>>() {
            let (a, b) = (get::<[$f; 3]>(from), get::<[$t; 3]>(to));
            return b[0].same(a[0] as $t) & b[1].same(a[1] as $t) & b[2].same(a[2] as $t);
        }
    } }
    s!(u8, u32);
    s!(u8, i64);
    s!(u8, u16);
    s!(u16, u8);
    s!(i16, i64);
    s!(f64, f32);
    s!(u16, u32);
    v!(i32, f64);
    v!(u16, u8);
    v!(f32, f64);
    unreachable!()
}
fn find<'m>(m: &'m Model, name: &str) -> Option<&'m (PointAttributeDefinition, Range<usize>)> {
    m.mem.iter().find(|(a, _)| a.name() == name)
}
/// Point `t` of the target against the source point `s` (or, without one, `before`).
fn is_converted(src: &Model, dst: &Model, s: Option<&[u8]>, before: &[u8], got: &[u8]) {
    for (ta, tr) in &dst.mem {
        match (s, find(src, ta.name())) {
            (Some(s), Some((sa, sr))) => {
                check(converted(sa.datatype(), ta.datatype(), &s[sr.clone()], &got[tr.clone()]), "a converted attribute");
            }
            _ => check(bytes_eq(&before[tr.clone()], &got[tr.clone()]), "an attribute or point without a source"),
        }
    }
}
fn points_of<'a, B: BorrowedBuffer<'a>>(b: &B) -> Vec<Vec<u8>> {
    let s = b.point_layout().size_of_point_entry() as usize;
    (0..b.len())
        .map(|i| {
            let mut p = vec![0u8; s];
            b.get_point(i, &mut p);
            p
        })
        .collect()
}
fn converter<'a>(from: &'a PointLayout, to: &'a PointLayout, k: usize) -> BufferLayoutConverter<'a> {
    if k == 2 {
        BufferLayoutConverter::for_layouts_with_default(from, to)
    } else {
        BufferLayoutConverter::for_layouts(from, to)
    }
}

/// convert() into both owning buffers.
fn whole<'a, B: BorrowedBuffer<'a>>(b: &B, src: &Model, k: usize) {
    let (from, to) = layouts(k);
    let dst = Model::new(to.clone());
    let c = converter(&from, &to, k);
    let zero = vec![0u8; dst.size()];
    let v = c.convert::<VectorBuffer, _>(b);
    let h = c.convert::<HashMapBuffer, _>(b);
    check(v.len() == src.pts.len() && h.len() == src.pts.len(), "number of converted points");
    check(*v.point_layout() == to && *h.point_layout() == to, "layout of the converted points");
    let (pv, ph) = (points_of(&v), points_of(&h));
    for i in 0..src.pts.len() {
        is_converted(src, &dst, Some(&src.pts[i]), &zero, &pv[i]);
        is_converted(src, &dst, Some(&src.pts[i]), &zero, &ph[i]);
    }
    same_points(b, src, "the source changes");
    observe_points(&v);
}
macro_rules! whole { ($make:expr, $n:expr) => {{
    bound("sources of up to 2 points (thorough 3) with all bytes symbolic, 3 pairs of layouts");
    let k = choice(3, "layouts");
    let n = choice($n, "points");
    let src = Model::sym(layouts(k).0, n, "source");
    let b = $make(&src);
    whole(&b, &src, k);
}} }

/// convert_into_range() over points that are already there.
fn ranges<'a, 'b, S: BorrowedBuffer<'a>, T: BorrowedMutBuffer<'b>>(s: &S, t: &mut T, src: &Model, dst: &Model, k: usize) {
    let n = src.pts.len();
    let m = dst.pts.len();
    let i = choice(n + 1, "from");
    let j = i + choice(n + 1 - i, "count");
    let o = choice(m + 1 - (j - i), "target");
    let c = converter(&src.layout, &dst.layout, k);
    if i == 0 && j == n && o == 0 && m == n {
        c.convert_into(s, t);
    } else {
        c.convert_into_range(s, i..j, t, o..o + (j - i));
    }
    check(t.len() == m, "the length of the target");
    let got = points_of(t);
    for p in 0..m {
        let sp = if p >= o && p < o + (j - i) { Some(&src.pts[i + p - o][..]) } else { None };
        is_converted(src, dst, sp, &dst.pts[p], &got[p]);
    }
    same_points(s, src, "the source changes");
    observe_points(t);
}
macro_rules! ranges { ($s:expr, $t:expr, $n:expr, $m:expr) => {{
    bound("every range of 2 points (thorough 3) into every place of a target of 2 (3) points, all bytes symbolic");
    let k = choice(3, "layouts");
    let (from, to) = layouts(k);
    let src = Model::sym(from, $n, "source");
    let dst = Model::sym(to, $m, "target");
    let s = $s(&src);
    let mut t = $t(&dst);
    ranges(&s, &mut t, &src, &dst, k);
}} }

/// Transformations before or behind the conversion, overridden and added mappings.
fn transformed<'a, 'b, S: BorrowedBuffer<'a>, T: BorrowedMutBuffer<'b>>(s: &S, t: &mut T, src: &Model, dst: &Model) {
    let n = src.pts.len();
    let (x, y): (u16, u32) = (sym("transform"), sym("transform"));
    let (z, w): (u8, u16) = (sym("transform"), sym("transform"));
    let mut c = BufferLayoutConverter::for_layouts_with_default(&src.layout, &dst.layout);
    let g = |a: &str| find(src, a).unwrap().0.clone();
    let h = |a: &str| find(dst, a).unwrap().0.clone();
    let first = sym_bool("equal types transformed as source");
    // same name and type, transformed
    c.set_custom_mapping_with_transformation(&g("a"), &h("a"), move |v: u16| v ^ x, first);
    // same name, other type, transformed behind the conversion
    c.set_custom_mapping_with_transformation(&g("b"), &h("b"), move |v: u32| v.wrapping_add(y), false);
    // another target from the same source, transformed before the conversion
    c.set_custom_mapping_with_transformation(&g("b"), &h("c"), move |v: u8| v ^ z, true);
    // mapped again: the last one holds
    c.set_custom_mapping(&g("a"), &h("e"));
    c.set_custom_mapping_with_transformation(&g("a"), &h("e"), move |v: u8| v ^ z, false);
    c.set_custom_mapping(&g("vec"), &h("f"));
    c.set_custom_mapping_with_transformation(&g("a"), &h("g"), move |v: u16| v | w, true);
    c.set_custom_mapping(&g("a"), &h("g"));
    c.convert_into(s, t);
    check(t.len() == n, "the length of the target");
    let got = points_of(t);
    for i in 0..n {
        let sp = |a: &str| &src.pts[i][find(src, a).unwrap().1.clone()];
        let tp = |a: &str| &got[i][find(dst, a).unwrap().1.clone()];
        let (a, b): (u16, u8) = (get(sp("a")), get(sp("b")));
        check(get::<u16>(tp("a")) == a ^ x, "a transformed attribute of the same type");
        check(get::<u32>(tp("b")) == (b as u32).wrapping_add(y), "an attribute transformed behind its conversion");
        check(get::<i64>(tp("c")) == (b ^ z) as i64, "an attribute transformed before its conversion");
        check(bytes_eq(tp("d"), &dst.pts[i][find(dst, "d").unwrap().1.clone()]), "an attribute without a source");
        check(get::<u8>(tp("e")) == (a as u8) ^ z, "an attribute mapped twice");
        check(converted(d::<Vector3<u16>>(), d::<Vector3<u8>>(), sp("vec"), tp("f")), "an attribute mapped from another name");
        check(get::<u32>(tp("g")) == a as u32, "a transformation that was replaced");
    }
    same_points(s, src, "the source changes");
}
macro_rules! transformed { ($s:expr, $t:expr) => {{
    bound("transformations with symbolic constants, buffers of 2 points with all bytes symbolic");
    let from = PointLayout::from_attributes_packed(&[at("vec", d::<Vector3<u16>>()), at("b", d::<u8>()), at("a", d::<u16>())], 1);
    let to = PointLayout::from_attributes(&[
        at("a", d::<u16>()), at("b", d::<u32>()), at("c", d::<i64>()), at("d", d::<f32>()), at("e", d::<u8>()),
        at("f", d::<Vector3<u8>>()), at("g", d::<u32>()),
    ]);
    let src = Model::sym(from, 2, "source");
    let dst = Model::sym(to, 2, "target");
    let s = $s(&src);
    let mut t = $t(&dst);
    transformed(&s, &mut t, &src, &dst);
}} }

/// Any mapping between similar layouts: equal ones, other order or padding, subsets and other types.
fn any_mapping<'a, 'b, S: BorrowedBuffer<'a>, T: BorrowedMutBuffer<'b>>(s: &S, t: &mut T, src: &Model, dst: &Model, customs: usize) {
    let c_all = choice(2, "all attributes have a source") == 0;
    assume(!c_all || dst.mem.iter().all(|(a, _)| find(src, a.name()).is_some()));
    let mut c = if c_all {
        BufferLayoutConverter::for_layouts(&src.layout, &dst.layout)
    } else {
        BufferLayoutConverter::for_layouts_with_default(&src.layout, &dst.layout)
    };
    // source attribute of every target attribute, and what is xored to its first byte
    let mut map: Vec<Option<(usize, u8, bool)>> =
        dst.mem.iter().map(|(a, _)| src.mem.iter().position(|(b, _)| b.name() == a.name()).map(|i| (i, 0, false))).collect();
    for _ in 0..customs {
        let ti = choice(dst.mem.len(), "mapped target");
        let si = choice(src.mem.len(), "mapped source");
        let (sa, ta) = (&src.mem[si].0, &dst.mem[ti].0);
        assume(ok(sa.datatype(), ta.datatype()));
        if choice(2, "transformed") == 0 {
            c.set_custom_mapping(sa, ta);
            map[ti] = Some((si, 0, false));
        } else {
            assume(sa.datatype() != D::ByteArray(3));
            let x: u8 = sym("transform");
            let first = choice(2, "transform the source") == 1;
            if (if first { sa } else { ta }).datatype() == d::<u16>() {
                c.set_custom_mapping_with_transformation(sa, ta, move |v: u16| v ^ x as u16, first);
            } else {
                c.set_custom_mapping_with_transformation(sa, ta, move |v: u8| v ^ x, first);
            }
            map[ti] = Some((si, x, first));
        }
    }
    // ranges of one point less than the buffer too
    let n = src.pts.len();
    let o = choice(2, "part of the points");
    c.convert_into_range(s, o..n, t, 0..n - o);
    let got = points_of(t);
    for p in 0..n {
        for (ti, (ta, tr)) in dst.mem.iter().enumerate() {
            let g = &got[p][tr.clone()];
            match map[ti] {
                Some((si, x, first)) if p < n - o => {
                    let (sa, sr) = &src.mem[si];
                    let mut v = src.pts[p + o][sr.clone()].to_vec();
                    let mut g = g.to_vec();
                    if first { v[0] ^= x } else { g[0] ^= x }
                    check(converted(sa.datatype(), ta.datatype(), &v, &g), "an attribute under a chosen mapping");
                }
                _ => check(bytes_eq(&dst.pts[p][tr.clone()], g), "an attribute or point without a source"),
            }
        }
    }
    same_points(s, src, "the source changes");
}
fn ok(a: D, b: D) -> bool {
    a == b || (a != D::ByteArray(3) && b != D::ByteArray(3))
}
fn similar(k: usize) -> (PointLayout, PointLayout) {
    let base = [at("a", d::<u16>()), at("b", d::<u16>()), at("c", d::<u8>())];
    let p = |x: &[PointAttributeDefinition]| PointLayout::from_attributes_packed(x, 1);
    match k {
        0 => (p(&base), p(&base)),
        1 => (p(&base), PointLayout::from_attributes(&base)),
        2 => (PointLayout::from_attributes(&base), p(&[base[2].clone(), base[0].clone(), base[1].clone()])),
        3 => (p(&base), p(&[base[1].clone(), base[0].clone()])),
        4 => (p(&base[..2]), p(&base)),
        5 => (p(&base), p(&[at("a", d::<u8>()), at("b", d::<u16>()), at("c", d::<u16>())])),
        _ => (p(&[at("a", D::ByteArray(3)), at("b", d::<u8>())]), p(&[at("b", d::<u8>()), at("a", D::ByteArray(3)), at("z", D::ByteArray(3))])),
    }
}
macro_rules! any_mapping { ($s:expr, $t:expr, $c:expr) => {{
    bound("7 pairs of similar layouts (equal, reordered, padded, subsets, other types), one chosen mapping (thorough two) with or without a transformation by a symbolic constant, buffers of 2 points with all bytes symbolic");
    let k = choice(7, "similar layouts");
    let (from, to) = similar(k);
    let src = Model::sym(from, 2, "source");
    let dst = Model::sym(to, 2, "target");
    let s = $s(&src);
    let mut t = $t(&dst);
    any_mapping(&s, &mut t, &src, &dst, $c);
}} }

/// Many points.
macro_rules! large { ($s:expr, $t:expr) => {{
    bound("ranges of 130 points, all bytes symbolic");
    let k = choice(3, "layouts");
    let (from, to) = layouts(k);
    let n = 130;
    let src = Model::sym(from, n, "source");
    let dst = Model::sym(to, n, "target");
    let s = $s(&src);
    let mut t = $t(&dst);
    let (i, j, o) = [(0, n, 0), (3, 103, 29), (60, 130, 1)][choice(3, "range")];
    let c = converter(&src.layout, &dst.layout, k);
    c.convert_into_range(&s, i..j, &mut t, o..o + (j - i));
    let got = points_of(&t);
    for p in 0..n {
        let sp = if p >= o && p < o + (j - i) { Some(&src.pts[i + p - o][..]) } else { None };
        is_converted(&src, &dst, sp, &dst.pts[p], &got[p]);
    }
    same_points(&s, &src, "the source changes");
}} }

harness! {
    fn q_large_vv() { large!(vector, vector) }
    fn q_large_vc() { large!(vector, columnar) }
    fn q_large_cv() { large!(columnar, vector) }
    fn q_large_cc() { large!(columnar, columnar) }
    fn q_mapping_vv() { any_mapping!(vector, vector, 1) }
    fn q_mapping_vc() { any_mapping!(vector, columnar, 1) }
    fn q_mapping_cv() { any_mapping!(columnar, vector, 1) }
    fn q_mapping_cc() { any_mapping!(columnar, columnar, 1) }
    fn t_mapping2_vv() { any_mapping!(vector, vector, 2) }
    fn t_mapping2_vc() { any_mapping!(vector, columnar, 2) }
    fn t_mapping2_cv() { any_mapping!(columnar, vector, 2) }
    fn t_mapping2_cc() { any_mapping!(columnar, columnar, 2) }
    fn q_whole_vector() { whole!(vector, 3) }
    fn q_whole_columnar() { whole!(columnar, 3) }
    fn q_whole_external() { whole!(external, 3) }
    fn q_whole_slice() {
        bound("sources of up to 2 points (thorough 3) with all bytes symbolic, 3 pairs of layouts");
        let k = choice(3, "layouts");
        let all = Model::sym(layouts(k).0, 3, "source");
        let i = choice(4, "start");
        let j = i + choice(4 - i, "count");
        let mut src = all.clone();
        src.pts = all.pts[i..j].to_vec();
        if choice(2, "memory") == 0 {
            let b = vector(&all);
            whole(&b.slice(i..j), &src, k);
        } else {
            let b = columnar(&all);
            whole(&b.slice(i..j), &src, k);
        }
    }
    fn q_vv() { ranges!(vector, vector, 2, 2) }
    fn q_vc() { ranges!(vector, columnar, 2, 2) }
    fn q_cv() { ranges!(columnar, vector, 2, 2) }
    fn q_cc() { ranges!(columnar, columnar, 2, 2) }
    fn q_ev() { ranges!(external, vector, 1, 2) }
    fn q_ce() { ranges!(columnar, external, 2, 1) }
    fn t_vv3() { ranges!(vector, vector, 3, 3) }
    fn t_vc3() { ranges!(vector, columnar, 3, 3) }
    fn t_cv3() { ranges!(columnar, vector, 3, 3) }
    fn t_cc3() { ranges!(columnar, columnar, 3, 3) }
    fn t_whole_vector() { whole!(vector, 4) }
    fn t_whole_columnar() { whole!(columnar, 4) }
    fn q_into_slices() {
        bound("every slice of a target of 3 points");
        let k = choice(3, "layouts");
        let (from, to) = layouts(k);
        let i = choice(3, "start");
        let n = choice(4 - i, "count");
        let src = Model::sym(from, n, "source");
        let dst = Model::sym(to, 3, "target");
        let s = vector(&src);
        let c = converter(&src.layout, &dst.layout, k);
        let got = if choice(2, "memory") == 0 {
            let mut t = vector(&dst);
            c.convert_into(&s, &mut t.slice_mut(i..i + n));
            points_of(&t)
        } else {
            let mut t = columnar(&dst);
            c.convert_into(&s, &mut t.slice_mut(i..i + n));
            points_of(&t)
        };
        for p in 0..3 {
            let sp = if p >= i && p < i + n { Some(&src.pts[p - i][..]) } else { None };
            is_converted(&src, &dst, sp, &dst.pts[p], &got[p]);
        }
    }
    fn q_transformed_vv() { transformed!(vector, vector) }
    fn q_transformed_vc() { transformed!(vector, columnar) }
    fn q_transformed_cv() { transformed!(columnar, vector) }
    fn q_transformed_cc() { transformed!(columnar, columnar) }
    fn q_refused_ranges() {
        bound("ranges of every 64-bit start and end on buffers of 2 and 3 points");
        let (from, to) = layouts(0);
        let src = Model::sym(from, 2, "source");
        let dst = Model::sym(to, 3, "target");
        let (a, b, p, q): (usize, usize, usize, usize) = (sym("range"), sym("range"), sym("range"), sym("range"));
        assume(a <= b && p <= q);
        assume(b > 2 || q > 3 || b - a != q - p);
        cover("unfit ranges");
        let which = choice(4, "memory");
        let c = converter(&src.layout, &dst.layout, 0);
        must_panic("unfit ranges were accepted", || {
            if which == 0 {
                c.convert_into_range(&vector(&src), a..b, &mut vector(&dst), p..q);
            } else if which == 1 {
                c.convert_into_range(&vector(&src), a..b, &mut columnar(&dst), p..q);
            } else if which == 2 {
                c.convert_into_range(&columnar(&src), a..b, &mut vector(&dst), p..q);
            } else {
                c.convert_into_range(&columnar(&src), a..b, &mut columnar(&dst), p..q);
            }
        });
    }
    fn q_refused() {
        bound("every unfit layout, mapping and transformation of a catalogue");
        let (from, to) = layouts(0);
        let (f2, t2) = layouts(2);
        let src = Model::sym(from.clone(), 1, "source");
        let dst = Model::sym(to.clone(), 1, "target");
        let g = |a: &str| find(&src, a).unwrap().0.clone();
        let h = |a: &str| find(&dst, a).unwrap().0.clone();
        let case = choice(10, "case");
        must_panic("an unfit conversion was accepted", || match case {
            // an attribute of the target that is not in the source
            0 => { BufferLayoutConverter::for_layouts(&f2, &t2); }
            // other source, other target than announced
            1 => converter(&from, &to, 0).convert_into(&vector(&Model::sym(f2.clone(), 1, "other")), &mut vector(&dst)),
            2 => converter(&from, &to, 0).convert_into(&vector(&src), &mut columnar(&Model::sym(t2.clone(), 1, "other"))),
            // a target of another length
            3 => converter(&from, &to, 0).convert_into(&vector(&src), &mut vector(&Model::new(to.clone()))),
            // no conversion between the types
            4 => converter(&from, &to, 0).set_custom_mapping(&g("pos"), &h("int")),
            // attributes that are not in the layouts (in this type)
            5 => converter(&from, &to, 0).set_custom_mapping(&h("pos"), &h("pos")),
            6 => converter(&from, &to, 0).set_custom_mapping(&g("pos"), &g("pos")),
            // transformations of another type
            7 => converter(&from, &to, 0).set_custom_mapping_with_transformation(&g("class"), &h("class"), |v: u8| v, false),
            8 => converter(&from, &to, 0).set_custom_mapping_with_transformation(&g("class"), &h("class"), |v: u32| v, true),
            _ => { BufferLayoutConverter::for_layouts(&PointLayout::from_attributes(&[at("x", d::<Vector3<f64>>())]), &PointLayout::from_attributes(&[at("x", d::<f64>())])); }
        });
    }
    fn q_raw_points() {
        bound("single points with all bytes symbolic, 3 pairs of layouts and the reverse direction");
        let k = choice(4, "layouts");
        let (from, to) = layouts(k % 3);
        let (from, to) = if k == 3 { (to, from) } else { (from, to) };
        let src = Model::sym(from.clone(), 1, "source");
        let dst = Model::sym(to.clone(), 1, "target");
        let c = RawPointConverter::from_to(&from, &to);
        let mut got = dst.pts[0].clone();
        unsafe { c.convert(&src.pts[0], &mut got) };
        if k < 3 {
            is_converted(&src, &dst, Some(&src.pts[0]), &dst.pts[0], &got);
        } else {
            let r = |m: &Model, a: &str| find(m, a).unwrap().1.clone();
            check(bytes_eq(&src.pts[0][r(&src, "int")], &got[r(&dst, "int")]), "an attribute of the same type");
            check(get::<u8>(&got[r(&dst, "class")]) == get::<u32>(&src.pts[0][r(&src, "class")]) as u8, "an attribute of another type");
        }
        observe_bytes(&got);
    }
}

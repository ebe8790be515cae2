//! C21: wrong requests are refused before any memory is touched.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::borrow::Cow;
use std::ops::Range;
use sxh::model::*;
use sxh::*;

fn def<T: PrimitiveType>(name: &'static str) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), T::data_type())
}
/// An index outside of `n` elements.
fn out(n: usize) -> usize {
    let i: usize = sym("index");
    assume(i >= n);
    i
}
/// A range that is not empty and reaches outside of `n` elements.
fn out_range(n: usize) -> Range<usize> {
    let (i, j): (usize, usize) = (sym("range"), sym("range"));
    assume(i < j && j > n);
    i..j
}
fn member(m: &Model) -> (PointAttributeDefinition, Range<usize>) {
    m.mem[choice(m.mem.len(), "attribute")].clone()
}
/// An attribute that is not in the layout: another name, or another type.
fn stranger(m: &Model) -> PointAttributeDefinition {
    let k = choice(m.mem.len() + 1, "unknown attribute");
    if k == m.mem.len() {
        def::<u8>("nobody")
    } else {
        let a = &m.mem[k].0;
        if a.datatype() == PointAttributeDataType::I64 {
            a.with_custom_datatype(PointAttributeDataType::U64)
        } else {
            a.with_custom_datatype(PointAttributeDataType::I64)
        }
    }
}
/// A size below `n`.
fn less(n: usize) -> usize {
    let k = choice(3, "size");
    let s = if k == 0 { 0 } else if k == 1 { n / 2 } else { n.wrapping_sub(1) };
    assume(s < n);
    s
}
const MSG: &str = "a wrong request was accepted";

fn reads<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model) {
    let n = m.pts.len();
    let s = m.size();
    let used = m.mem.iter().map(|x| x.1.end).max().unwrap_or(0);
    let mut point = vec![0u8; s];
    match choice(11, "request") {
        0 => {
            let i = out(n);
            must_panic(MSG, || b.get_point(i, &mut point));
        }
        1 => {
            let r = out_range(n);
            let mut d = vec![0u8; s * choice(n + 2, "room")];
            must_panic(MSG, || b.get_point_range(r, &mut d));
        }
        2 => {
            let (a, r) = member(m);
            let i = out(n);
            must_panic(MSG, || b.get_attribute(&a, i, &mut point[..r.len()]));
        }
        3 => {
            let (a, x) = member(m);
            let r = out_range(n);
            let mut d = vec![0u8; x.len() * choice(n + 2, "room")];
            must_panic(MSG, || b.get_attribute_range(&a, r, &mut d));
        }
        4 => {
            let (a, r) = member(m);
            let i = out(n);
            let am = b.point_layout().get_attribute(&a).unwrap().clone();
            must_panic(MSG, || unsafe { b.get_attribute_unchecked(&am, i, &mut point[..r.len()]) });
        }
        // memory that is too small
        5 => {
            assume(n > 0);
            let k = less(used);
            must_panic(MSG, || b.get_point(n - 1, &mut point[..k]));
        }
        6 => {
            assume(n > 0);
            let i = choice(n, "from");
            let k = less((n - i - 1) * s + used);
            let mut d = vec![0u8; k];
            must_panic(MSG, || b.get_point_range(i..n, &mut d));
        }
        7 => {
            assume(n > 0);
            let (a, r) = member(m);
            let k = choice(r.len() + 3, "size");
            assume(k != r.len());
            let mut d = vec![0u8; k];
            must_panic(MSG, || b.get_attribute(&a, n - 1, &mut d));
        }
        8 => {
            assume(n > 0);
            let (a, r) = member(m);
            let i = choice(n, "from");
            let k = less((n - i) * r.len());
            let mut d = vec![0u8; k];
            must_panic(MSG, || b.get_attribute_range(&a, i..n, &mut d));
        }
        // unknown attributes
        9 => {
            assume(n > 0);
            let a = stranger(m);
            let i = choice(n + 1, "index");
            let mut d = vec![0u8; a.size() as usize];
            must_panic(MSG, || b.get_attribute(&a, i, &mut d));
        }
        _ => {
            assume(n > 0);
            let a = stranger(m);
            let i = choice(n, "from");
            let mut d = vec![0u8; (n - i) * a.size() as usize];
            must_panic(MSG, || b.get_attribute_range(&a, i..n, &mut d));
        }
    }
}
fn interleaved<'a, B: InterleavedBuffer<'a>>(b: &B, m: &Model) {
    let n = m.pts.len();
    match choice(3, "request") {
        0 => {
            let i = out(n);
            must_panic(MSG, || b.get_point_ref(i).len());
        }
        1 => {
            let r = out_range(n);
            must_panic(MSG, || b.get_point_range_ref(r).len());
        }
        _ => {
            let a = b.point_layout().get_attribute(&member(m).0).unwrap().clone();
            let i = out(n);
            must_panic(MSG, || b.view_raw_attribute(&a)[i].len());
        }
    }
}
fn interleaved_mut<'a, B: InterleavedBufferMut<'a>>(b: &mut B, m: &Model) {
    let n = m.pts.len();
    match choice(3, "request") {
        0 => {
            let i = out(n);
            must_panic(MSG, || b.get_point_mut(i).len());
        }
        1 => {
            let r = out_range(n);
            must_panic(MSG, || b.get_point_range_mut(r).len());
        }
        _ => {
            let a = b.point_layout().get_attribute(&member(m).0).unwrap().clone();
            let i = out(n);
            let write = sym_bool("write");
            must_panic(MSG, || {
                let mut v = b.view_raw_attribute_mut(&a);
                if write { v[i].fill(0x77) } else { assert!(v[i].len() < 100) }
            });
        }
    }
}
fn col<'a, B: ColumnarBuffer<'a>>(b: &B, m: &Model) {
    let n = m.pts.len();
    match choice(4, "request") {
        0 => {
            let (a, i) = (member(m).0, out(n));
            must_panic(MSG, || b.get_attribute_ref(&a, i).len());
        }
        1 => {
            let (a, r) = (member(m).0, out_range(n));
            must_panic(MSG, || b.get_attribute_range_ref(&a, r).len());
        }
        2 => {
            let a = b.point_layout().get_attribute(&member(m).0).unwrap().clone();
            let i = out(n);
            must_panic(MSG, || b.view_raw_attribute(&a)[i].len());
        }
        _ => {
            let a = stranger(m);
            let k = choice(2, "range");
            must_panic(MSG, || if k == 0 { b.get_attribute_ref(&a, 0).len() } else { b.get_attribute_range_ref(&a, 0..n).len() });
        }
    }
}
fn col_mut<'a, B: ColumnarBufferMut<'a>>(b: &mut B, m: &Model) {
    let n = m.pts.len();
    match choice(4, "request") {
        0 => {
            let (a, i) = (member(m).0, out(n));
            must_panic(MSG, || b.get_attribute_mut(&a, i).len());
        }
        1 => {
            let (a, r) = (member(m).0, out_range(n));
            must_panic(MSG, || b.get_attribute_range_mut(&a, r).len());
        }
        2 => {
            let a = b.point_layout().get_attribute(&member(m).0).unwrap().clone();
            let i = out(n);
            must_panic(MSG, || b.view_raw_attribute_mut(&a)[i].fill(0x77));
        }
        _ => {
            let a = stranger(m);
            let k = choice(2, "range");
            must_panic(MSG, || if k == 0 { b.get_attribute_mut(&a, 0).len() } else { b.get_attribute_range_mut(&a, 0..n).len() });
        }
    }
}
/// Requests that write; `freeze` marks the memory of the points.
fn writes<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, m: &Model, freeze: impl Fn(&B)) {
    let n = m.pts.len();
    let s = m.size();
    let req = choice(9, "request");
    // the ranged writes are unsafe functions: they are refused, but may have written a part
    if req != 1 && req != 3 {
        freeze(b);
    }
    match req {
        0 => {
            let i = out(n);
            must_panic(MSG, || unsafe { b.set_point(i, &vec![0x77; s]) });
        }
        1 => {
            let r = out_range(n);
            let d = vec![0x77u8; s * choice(n + 2, "room")];
            must_panic(MSG, || unsafe { b.set_point_range(r, &d) });
        }
        2 => {
            let (a, r) = member(m);
            let i = out(n);
            must_panic(MSG, || unsafe { b.set_attribute(&a, i, &vec![0x77; r.len()]) });
        }
        3 => {
            let (a, x) = member(m);
            let r = out_range(n);
            let d = vec![0x77u8; x.len() * choice(n + 2, "room")];
            must_panic(MSG, || unsafe { b.set_attribute_range(&a, r, &d) });
        }
        4 => {
            let (i, j): (usize, usize) = (sym("index"), sym("index"));
            assume(i >= n || j >= n);
            must_panic(MSG, || b.swap(i, j));
        }
        5 => {
            assume(n > 0);
            let a = stranger(m);
            let k = choice(2, "range");
            let d = vec![0x77u8; a.size() as usize];
            must_panic(MSG, || unsafe { if k == 0 { b.set_attribute(&a, 0, &d) } else { b.set_attribute_range(&a, 0..1, &d) } });
        }
        6 => {
            assume(n > 0);
            let (a, r) = member(m);
            let k = choice(r.len() + 3, "size");
            assume(k != r.len());
            must_panic(MSG, || unsafe { b.set_attribute(&a, 0, &vec![0x77u8; k]) });
        }
        7 => {
            let a = stranger(m);
            assume(a.datatype() == PointAttributeDataType::I64);
            must_panic(MSG, || b.transform_attribute(&a, |_, v: i64| v));
        }
        _ => {
            // the type is not that of the attribute
            let (a, _) = member(m);
            assume(a.datatype() != PointAttributeDataType::F32);
            must_panic(MSG, || b.transform_attribute(&a, |_, v: f32| v));
        }
    }
}
fn typed_views<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model) {
    match choice(6, "request") {
        0 => {
            assume(m.layout != Pk::layout());
            must_panic(MSG, || b.view::<Pk>());
        }
        1 => {
            // equal attributes in another order or padding are another layout
            must_panic(MSG, || b.view::<Al>());
        }
        2 => {
            let (a, _) = member(m);
            assume(a.datatype() != PointAttributeDataType::F32);
            must_panic(MSG, || b.view_attribute::<f32>(&a));
        }
        3 => {
            let a = stranger(m);
            if a.datatype() == PointAttributeDataType::I64 {
                must_panic(MSG, || b.view_attribute::<i64>(&a));
            } else {
                assume(a.datatype() == PointAttributeDataType::U8);
                must_panic(MSG, || b.view_attribute::<u8>(&a));
            }
        }
        4 => {
            let a = def::<f64>("nobody");
            must_panic(MSG, || b.view_attribute_with_conversion::<f64>(&a).is_ok());
        }
        _ => {
            // announced as one type, requested as another
            let (a, _) = member(m);
            assume(a.datatype() != PointAttributeDataType::F32);
            must_panic(MSG, || b.view_attribute_with_conversion::<f32>(&a).is_ok());
        }
    }
}
fn sized<B: for<'a> OwningBuffer<'a>>(b: &mut B, m: &Model, k: usize, requests: usize) {
    let n = m.pts.len();
    match choice(requests, "request") {
        0 => {
            let len = choice(2 * m.size() + 2, "size");
            assume(len % m.size() != 0);
            must_panic(MSG, || unsafe { b.push_points(&vec![0x77u8; len]) });
        }
        1 => {
            let o = Model::sym(layout((k + 1) % LAYOUTS), 1, "other");
            let w = choice(4, "memory");
            must_panic(MSG, || match w {
                0 => b.append(&vector(&o)),
                1 => b.append(&columnar(&o)),
                2 => b.append_interleaved(&vector(&o)),
                _ => b.append_columnar(&columnar(&o)),
            });
        }
        2 => {
            // the same attributes at other places
            assume(m.mem.len() > 1);
            let mut defs: Vec<_> = m.mem.iter().map(|x| x.0.clone()).collect();
            defs.reverse();
            let o = Model::sym(PointLayout::from_attributes_packed(&defs, 1), 1, "other");
            assume(o.layout != m.layout);
            let w = choice(2, "memory");
            must_panic(MSG, || if w == 0 { b.append(&vector(&o)) } else { b.append(&columnar(&o)) });
        }
        _ => {
            let i = out(n + 1);
            // more points than memory could ever hold
            assume(i > usize::MAX / m.size());
            must_panic(MSG, || b.resize(i));
        }
    }
}
fn freeze_v<'a, B: InterleavedBuffer<'a>>(b: &B) {
    frozen(b.get_point_range_ref(0..b.len()));
}
fn freeze_c<'a, B: ColumnarBuffer<'a>>(b: &B) {
    let n = b.len();
    for (a, _) in members(b.point_layout()) {
        frozen(b.get_attribute_range_ref(&a, 0..n));
    }
}
fn points() -> (Model, usize) {
    bound("6 layouts, buffers of 0 and 2 points with all bytes symbolic; indices and ranges of every 64-bit value");
    let k = choice(LAYOUTS, "layout");
    let n = 2 * choice(2, "points");
    (Model::sym(layout(k), n, "point"), k)
}
/// A slice of the middle of 3 points (or an empty one).
fn sub() -> (Model, Model, Range<usize>) {
    bound("slices of 1 point (or none) in the middle of 3");
    let all = Model::sym(layout(choice(LAYOUTS, "layout")), 3, "point");
    let r = if sym_bool("empty") { 1..1 } else { 1..2 };
    let mut part = all.clone();
    part.pts = all.pts[r.clone()].to_vec();
    (all, part, r)
}
macro_rules! typed_access {
    ($b:expr, $n:expr, $freeze:expr) => {{
        // a view of a whole point type, one of an attribute, a converting one
        let i = out($n);
        let id = def::<u64>("PointID");
        match choice(6, "request") {
            0 => must_panic(MSG, || $b.view::<Al>().at(i).id),
            1 => must_panic(MSG, || $b.view_attribute::<u64>(&id).at(i)),
            2 => must_panic(MSG, || $b.view_attribute_with_conversion::<f64>(&def::<f64>("PointID")).unwrap().at(i)),
            3 => {
                $freeze(&$b);
                must_panic(MSG, || $b.view_mut::<Al>().set_at(i, sym_pod("value")));
            }
            4 => {
                $freeze(&$b);
                must_panic(MSG, || $b.view_attribute_mut::<u64>(&id).set_at(i, 0x7777));
            }
            _ => {
                let t = choice(2, "view");
                must_panic(MSG, || if t == 0 { $b.view_mut::<Al>().at(i).id } else { $b.view_attribute_mut::<u64>(&id).at(i) });
            }
        }
    }};
}
fn typed() -> (Model, usize) {
    bound("typed views of 0 and 2 points with all bytes symbolic; indices of every 64-bit value");
    let n = 2 * choice(2, "points");
    (Model::sym(Al::layout(), n, "point"), n)
}

harness! {
    fn q_reads_vector() { let (m, _) = points(); reads(&vector(&m), &m) }
    fn q_reads_columnar() { let (m, _) = points(); reads(&columnar(&m), &m) }
    fn q_reads_external() { let (m, _) = points(); reads(&external(&m), &m) }
    fn q_reads_slice_vector() { let (a, m, r) = sub(); reads(&vector(&a).slice(r), &m) }
    fn q_reads_slice_columnar() { let (a, m, r) = sub(); reads(&columnar(&a).slice(r), &m) }
    fn q_reads_slice_mut() {
        let (a, m, r) = sub();
        if sym_bool("columnar") { reads(&columnar(&a).slice_mut(r), &m) } else { reads(&vector(&a).slice_mut(r), &m) }
    }
    fn q_interleaved() {
        let (m, _) = points();
        match choice(4, "buffer") {
            0 => interleaved(&vector(&m), &m),
            1 => interleaved(&external(&m), &m),
            2 => interleaved_mut(&mut vector(&m), &m),
            _ => interleaved_mut(&mut external(&m), &m),
        }
    }
    fn q_interleaved_slices() {
        let (a, m, r) = sub();
        match choice(3, "buffer") {
            0 => interleaved(&vector(&a).slice(r), &m),
            1 => interleaved(&vector(&a).slice_mut(r), &m),
            _ => interleaved_mut(&mut vector(&a).slice_mut(r), &m),
        }
    }
    fn q_columnar() {
        let (m, _) = points();
        if sym_bool("mutable") { col_mut(&mut columnar(&m), &m) } else { col(&columnar(&m), &m) }
    }
    fn q_columnar_slices() {
        let (a, m, r) = sub();
        match choice(3, "buffer") {
            0 => col(&columnar(&a).slice(r), &m),
            1 => col(&columnar(&a).slice_mut(r), &m),
            _ => col_mut(&mut columnar(&a).slice_mut(r), &m),
        }
    }
    fn q_writes_vector() { let (m, _) = points(); writes(&mut vector(&m), &m, freeze_v) }
    fn q_writes_columnar() { let (m, _) = points(); writes(&mut columnar(&m), &m, freeze_c) }
    fn q_writes_external() { let (m, _) = points(); writes(&mut external(&m), &m, freeze_v) }
    fn q_writes_slice_vector() {
        let (a, m, r) = sub();
        let mut b = vector(&a);
        let whole = b.get_point_range_ref(0..3) as *const [u8];
        writes(&mut b.slice_mut(r), &m, move |_| frozen(unsafe { &*whole }));
    }
    fn q_writes_slice_columnar() {
        let (a, m, r) = sub();
        let mut b = columnar(&a);
        let cols: Vec<*const [u8]> = m.mem.iter().map(|(d, _)| b.get_attribute_range_ref(d, 0..3) as *const [u8]).collect();
        writes(&mut b.slice_mut(r), &m, move |_| cols.iter().for_each(|c| frozen(unsafe { &**c })));
    }
    fn q_typed_views() {
        let (m, _) = points();
        match choice(4, "buffer") {
            0 => typed_views(&vector(&m), &m),
            1 => typed_views(&columnar(&m), &m),
            2 => typed_views(&external(&m), &m),
            _ => typed_views(&vector(&m).slice(0..m.pts.len()), &m),
        }
    }
    fn q_typed_mut_views() {
        let (m, _) = points();
        let mut b = vector(&m);
        let mut c = columnar(&m);
        freeze_v(&b);
        freeze_c(&c);
        let (a, _) = member(&m);
        match choice(6, "request") {
            0 => { assume(m.layout != Pk::layout()); must_panic(MSG, || { b.view_mut::<Pk>(); }) }
            1 => { assume(m.layout != Pk::layout()); must_panic(MSG, || { c.view_mut::<Pk>(); }) }
            2 => { assume(a.datatype() != PointAttributeDataType::F32); must_panic(MSG, || { b.view_attribute_mut::<f32>(&a); }) }
            3 => { assume(a.datatype() != PointAttributeDataType::F32); must_panic(MSG, || { c.view_attribute_mut::<f32>(&a); }) }
            4 => must_panic(MSG, || { b.view_attribute_mut::<u16>(&def::<u16>("nobody")); }),
            _ => must_panic(MSG, || { c.view_attribute_mut::<u16>(&def::<u16>("nobody")); }),
        }
    }
    fn q_typed_access_vector() {
        let (m, n) = typed();
        let mut b = vector(&m);
        typed_access!(b, n, freeze_v);
    }
    fn q_typed_access_columnar() {
        let (m, n) = typed();
        let mut b = columnar(&m);
        typed_access!(b, n, freeze_c);
    }
    fn q_typed_access_external() {
        let (m, n) = typed();
        let mut b = external(&m);
        typed_access!(b, n, freeze_v);
    }
    fn q_typed_refs() {
        let (m, n) = typed();
        let id = def::<u64>("PointID");
        let i = out(n);
        let mut b = vector(&m);
        let mut c = columnar(&m);
        match choice(8, "request") {
            0 => must_panic(MSG, || b.view::<Al>().at_ref(i).id),
            1 => must_panic(MSG, || b.view_mut::<Al>().at_mut(i).id = 7),
            2 => must_panic(MSG, || c.view_attribute::<u64>(&id).at_ref(i).count_ones()),
            3 => must_panic(MSG, || { let mut v = c.view_attribute_mut::<u64>(&id); *v.at_mut(i) = 7; }),
            4 => must_panic(MSG, || b.slice(0..n).view::<Al>().at(i).id),
            5 => must_panic(MSG, || c.slice(0..n).view_attribute::<u64>(&id).at(i)),
            6 => must_panic(MSG, || b.view_mut::<Al>().at_ref(i).id),
            _ => must_panic(MSG, || c.view_attribute_mut::<u64>(&id).at_ref(i).count_ones()),
        }
    }
    fn q_sizes_vector() {
        let (m, k) = points();
        let mut b = vector(&m);
        freeze_v(&b);
        sized(&mut b, &m, k, 4);
    }
    fn q_sizes_columnar() {
        let (m, k) = points();
        let mut b = columnar(&m);
        freeze_c(&b);
        // without growing beyond all memory: a column of bytes would be allocated first
        sized(&mut b, &m, k, 3);
    }
    fn q_sizes_external() {
        bound("external memory of every size up to two points and a bit");
        let k = choice(LAYOUTS + 1, "layout");
        let l = if k == LAYOUTS { PointLayout::default() } else { layout(k) };
        let s = l.size_of_point_entry() as usize;
        let len = choice(2 * s + 3, "size");
        assume(if s == 0 { len > 0 } else { len % s != 0 });
        must_panic(MSG, || ExternalMemoryBuffer::new(vec![0u8; len], l));
    }
    fn q_pusher() {
        bound("every unfit column of up to 2 values pushed in every order");
        let m = Model::sym(Al::layout(), 2, "point");
        let mut b = columnar(&m);
        freeze_c(&b);
        let (t, i, c, n) = (def::<f64>("GpsTime"), def::<u64>("PointID"), def::<Vector3<u16>>("ColorRGB"), def::<u16>("Intensity"));
        let case = choice(8, "request");
        must_panic(MSG, || {
            let mut p = b.begin_push_attributes();
            match case {
                // another type, an unknown attribute
                0 => p.push_attribute_range::<u64>(&t, &[1]),
                1 => p.push_attribute_range::<u64>(&t.with_custom_datatype(PointAttributeDataType::U64), &[1]),
                2 => p.push_attribute_range::<u8>(&def::<u8>("nobody"), &[1]),
                // columns of different lengths
                3 => { p.push_attribute_range::<f64>(&t, &[1.0]); p.push_attribute_range::<u64>(&i, &[1, 2]) }
                4 => { p.push_attribute_range::<f64>(&t, &[1.0, 2.0]); p.push_attribute_range::<u64>(&i, &[]) }
                // a missing column, the same twice
                5 => { p.push_attribute_range::<f64>(&t, &[1.0]); p.push_attribute_range::<u64>(&i, &[1]); p.push_attribute_range::<u16>(&n, &[1]); p.done(); return }
                6 => { p.push_attribute_range::<Vector3<u16>>(&c, &[Vector3::new(1, 2, 3)]); p.push_attribute_range::<Vector3<u16>>(&c, &[Vector3::new(1, 2, 3)]) }
                _ => { p.push_attribute_range::<u16>(&n, &[1]); p.done(); return }
            }
        });
    }
}

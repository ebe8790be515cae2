//! C03: points stored in a buffer read back byte for byte through every accessor.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use sxh::model::*;
use sxh::*;

const N: usize = 3;

fn typed_pk<'a, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, m: &Model)
where
    'a: 'b,
{
    let v = b.view::<Pk>();
    for i in 0..m.pts.len() {
        check(bytes_eq(&raw(&v.at(i)), &m.pts[i]), "point view");
    }
    let mut k = 0;
    for p in b.view::<Pk>() {
        check(bytes_eq(&raw(&p), &m.pts[k]), "iterating a point view");
        k += 1;
    }
    check(k == m.pts.len(), "number of points iterated");
    let v = b.view_attribute::<Vector3<f64>>(&attributes::POSITION_3D);
    let w = b.view_attribute::<u16>(&attributes::INTENSITY);
    let c = b.view_attribute::<u8>(&attributes::CLASSIFICATION);
    for i in 0..m.pts.len() {
        check(bytes_eq(&raw(&v.at(i)), &m.pts[i][0..24]), "attribute view");
        check(bytes_eq(&raw(&w.at(i)), &m.pts[i][24..26]), "attribute view");
        check(bytes_eq(&raw(&c.at(i)), &m.pts[i][26..27]), "attribute view");
    }
    let mut k = 0;
    for p in b.view_attribute::<u16>(&attributes::INTENSITY) {
        check(bytes_eq(&raw(&p), &m.pts[k][24..26]), "iterating an attribute view");
        k += 1;
    }
    check(k == m.pts.len(), "number of values iterated");
}

fn untyped<'a, B: BorrowedBuffer<'a>>(make: fn(&Model) -> B) {
    let k = choice(LAYOUTS, "layout");
    let n = choice(N + 1, "points");
    bound("0..=3 points with symbolic bytes; 6 layouts (packed, padded, reordered members, byte arrays, custom types)");
    let m = Model::sym(layout(k), n, "p");
    let b = make(&m);
    all_reads(&b, &m, "points read back");
    if n == 3 {
        cover("three points");
    }
    observe_points(&b);
}

/// The bytes arrive in several pushes.
fn pushes<'a, B: OwningBuffer<'a> + MakeBufferFromLayout<'a>>() {
    let k = choice(LAYOUTS, "layout");
    let m = Model::sym(layout(k), 4, "p");
    let mut b = B::new_from_layout(m.layout.clone());
    let i = choice(5, "cut1");
    let j = choice(5, "cut2");
    assume(i <= j);
    unsafe {
        b.push_points(&m.pts[0..i].concat());
        b.push_points(&m.pts[i..j].concat());
        b.push_points(&m.pts[j..4].concat());
    }
    same_points(&b, &m, "points pushed in parts");
    observe_points(&b);
}

/// Many points at once and in several pushes.
fn large<'a, B: OwningBuffer<'a> + MakeBufferFromLayout<'a>>(n: usize) {
    bound("130 points (1100 of one byte) with symbolic bytes");
    let k = if n > 500 { 4 } else { choice(LAYOUTS, "layout") };
    let m = Model::sym(layout(k), n, "p");
    let mut b = B::new_from_layout(m.layout.clone());
    let cut = [0, 1, n / 2, n - 1][choice(4, "cut")];
    unsafe {
        b.push_points(&m.pts[..cut].concat());
        b.push_points(&m.pts[cut..].concat());
    }
    large_reads(&b, &m, "many points");
}

fn al_points(n: usize) -> (Vec<Al>, Model) {
    let mut m = Model::new(Al::layout());
    let mut v = vec![];
    for _ in 0..n {
        let a: Al = sym_pod("al");
        m.pts.push(raw(&a));
        v.push(a);
    }
    (v, m)
}

harness! {
fn q_vector() { untyped(vector) }
fn q_hashmap() { untyped(columnar) }
fn q_external() { untyped(external) }
fn q_vector_pushes() { pushes::<VectorBuffer>() }
fn q_hashmap_pushes() { pushes::<HashMapBuffer>() }
fn q_typed_vector() { let m = Model::sym(Pk::layout(), 3, "p"); typed_pk(&vector(&m), &m) }
fn q_typed_hashmap() { let m = Model::sym(Pk::layout(), 3, "p"); typed_pk(&columnar(&m), &m) }
fn q_typed_external() { let m = Model::sym(Pk::layout(), 3, "p"); typed_pk(&external(&m), &m) }
/// Collecting typed points and viewing them by reference.
fn q_collect_vector() {
    let n = choice(4, "points");
    let (v, m) = al_points(n);
    let b: VectorBuffer = v.iter().copied().collect();
    all_reads(&b, &m, "collected points");
    let w = b.view::<Al>();
    let mut k = 0;
    for r in w.iter() {
        check(bytes_eq(&raw(r), &m.pts[k]), "point by reference");
        check(bytes_eq(&raw(w.at_ref(k)), &m.pts[k]), "at_ref");
        k += 1;
    }
    check(k == n, "number of references");
    observe_points(&b);
}
fn q_collect_hashmap() {
    let n = choice(4, "points");
    let (v, m) = al_points(n);
    let b: HashMapBuffer = v.iter().copied().collect();
    all_reads(&b, &m, "collected points");
    let w = b.view_attribute::<u64>(&attributes::POINT_ID);
    let c = b.view_attribute::<Vector3<u16>>(&attributes::COLOR_RGB);
    let mut k = 0;
    for r in w.iter() {
        check(bytes_eq(&raw(r), &m.pts[k][8..16]), "value by reference");
        check(bytes_eq(&raw(w.at_ref(k)), &m.pts[k][8..16]), "at_ref");
        check(bytes_eq(&raw(c.at_ref(k)), &m.pts[k][16..22]), "at_ref");
        k += 1;
    }
    check(k == n, "number of references");
    observe_points(&b);
}
/// Collecting from iterators that do not know, or over-estimate, their length.
fn q_collect_filtered() {
    let (v, m) = al_points(3);
    let keep: [bool; 3] = [sym_bool("k"), sym_bool("k"), sym_bool("k")];
    let mut want = Model::new(m.layout.clone());
    for i in 0..3 {
        if keep[i] {
            want.pts.push(m.pts[i].clone());
        }
    }
    let b: VectorBuffer = v.iter().copied().enumerate().filter(|(i, _)| keep[*i]).map(|(_, p)| p).collect();
    same_points(&b, &want, "points collected from a filtered iterator");
    let h: HashMapBuffer = v.iter().copied().enumerate().filter(|(i, _)| keep[*i]).map(|(_, p)| p).collect();
    same_points(&h, &want, "points collected from a filtered iterator");
    let mut it = v.iter().copied();
    let c: VectorBuffer = std::iter::from_fn(|| it.next()).collect();
    same_points(&c, &m, "points collected from an iterator of unknown length");
    observe_points(&b);
}
fn q_large_vector() { large::<VectorBuffer>(130) }
fn q_large_hashmap() { large::<HashMapBuffer>(130) }
fn q_huge_vector() { large::<VectorBuffer>(1100) }
fn q_huge_hashmap() { large::<HashMapBuffer>(1100) }
fn q_large_external() {
    let m = Model::sym(layout(choice(LAYOUTS, "layout")), 130, "p");
    large_reads(&external(&m), &m, "many points");
}
/// Many typed points collected, viewed and iterated.
fn q_large_typed() {
    let n = [17, 70, 300][choice(3, "points")];
    let (v, m) = al_points(n);
    let b: VectorBuffer = v.iter().copied().collect();
    let h: HashMapBuffer = v.iter().copied().collect();
    let u: VectorBuffer = v.iter().copied().filter(|_| true).collect();
    same_points(&b, &m, "collected points");
    same_points(&h, &m, "collected points");
    same_points(&u, &m, "collected points");
    let mut k = 0;
    for ((p, q), r) in b.view::<Al>().into_iter().zip(h.view::<Al>().into_iter()).zip(b.view::<Al>().iter()) {
        check(bytes_eq(&raw(&p), &m.pts[k]) & bytes_eq(&raw(&q), &m.pts[k]) & bytes_eq(&raw(r), &m.pts[k]), "iterating many points");
        k += 1;
    }
    check(k == n, "number of points iterated");
    let mut k = 0;
    for ((p, q), r) in b.view_attribute::<u64>(&attributes::POINT_ID).into_iter().zip(h.view_attribute::<u64>(&attributes::POINT_ID)).zip(h.view_attribute::<u64>(&attributes::POINT_ID).iter()) {
        check((p == v[k].id) & (q == v[k].id) & (*r == v[k].id), "iterating many values");
        k += 1;
    }
    check(k == n, "number of values iterated");
    let mut h = HashMapBuffer::new_from_layout(Al::layout());
    let mut p = h.begin_push_attributes();
    p.push_attribute_range(&attributes::GPS_TIME, &v.iter().map(|a| a.gps).collect::<Vec<f64>>());
    p.push_attribute_range(&attributes::POINT_ID, &v.iter().map(|a| a.id).collect::<Vec<u64>>());
    p.push_attribute_range(&attributes::COLOR_RGB, &v.iter().map(|a| a.color).collect::<Vec<Vector3<u16>>>());
    p.push_attribute_range(&attributes::INTENSITY, &v.iter().map(|a| a.intensity).collect::<Vec<u16>>());
    p.done();
    same_points(&h, &m, "points pushed as columns");
}
/// Whole columns pushed attribute by attribute.
fn q_push_attributes() {
    let n = choice(4, "points");
    let (v, m) = al_points(n);
    let (v2, m2) = al_points(2);
    let mut b = HashMapBuffer::new_from_layout(Al::layout());
    for v in [&v, &v2] {
        let order = choice(2, "order");
        let mut p = b.begin_push_attributes();
        let gps: Vec<f64> = v.iter().map(|a| a.gps).collect();
        let id: Vec<u64> = v.iter().map(|a| a.id).collect();
        let col: Vec<Vector3<u16>> = v.iter().map(|a| a.color).collect();
        let int: Vec<u16> = v.iter().map(|a| a.intensity).collect();
        if order == 0 {
            p.push_attribute_range(&attributes::GPS_TIME, &gps);
            p.push_attribute_range(&attributes::POINT_ID, &id);
            p.push_attribute_range(&attributes::COLOR_RGB, &col);
            p.push_attribute_range(&attributes::INTENSITY, &int);
        } else {
            p.push_attribute_range(&attributes::INTENSITY, &int);
            p.push_attribute_range(&attributes::COLOR_RGB, &col);
            p.push_attribute_range(&attributes::GPS_TIME, &gps);
            p.push_attribute_range(&attributes::POINT_ID, &id);
        }
        p.done();
    }
    let mut want = m.clone();
    want.pts.extend(m2.pts.iter().cloned());
    all_reads(&b, &want, "points pushed as columns");
    observe_points(&b);
}
/// External memory that the caller owns: reads see it, and it comes back unchanged.
fn q_external_slices() {
    let m = Model::sym(Pk::layout(), 3, "p");
    let mem = m.concat();
    {
        let b = ExternalMemoryBuffer::new(&mem[..], m.layout.clone());
        all_reads(&b, &m, "points in borrowed memory");
        typed_pk(&b, &m);
    }
    check(bytes_eq(&mem, &m.concat()), "reading changes the memory");
}
}

//! C07: iterators deliver every element once and in order; views compare and sort elementwise.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use sxh::model::*;
use sxh::*;

/// Any mix of stepping and skipping, against the position in a list.
fn drive<I: Iterator>(mut it: I, len: usize, calls: usize, same: impl Fn(I::Item, usize) -> bool) {
    bound("sequences of up to 3 calls of next / nth with a fully symbolic 64-bit skip, on 0..=3 elements with symbolic bytes");
    let mut pos = 0;
    for _ in 0..calls {
        let (lo, hi) = it.size_hint();
        check(lo <= len - pos && hi.map_or(true, |h| h >= len - pos), "size_hint");
        let (r, skip) = if choice(2, "call") == 0 {
            (it.next(), 0)
        } else {
            let n: usize = sym("skip");
            (it.nth(n), n)
        };
        if skip < len - pos {
            pos += concretize(skip);
            match r {
                Some(v) => check(same(v, pos), "another element was delivered"),
                None => check(false, "an element was left out"),
            }
            pos += 1;
        } else {
            cover("skipped past the end");
            check(r.is_none(), "an element was delivered after the end");
            pos = len;
        }
    }
    while pos < len {
        match it.next() {
            Some(v) => check(same(v, pos), "another element was delivered"),
            None => check(false, "an element was left out"),
        }
        pos += 1;
    }
    check(it.next().is_none(), "an element was delivered after the end");
    check(it.next().is_none(), "an element was delivered after the end");
}
fn al(calls: usize) -> (Model, usize) {
    let n = choice(4, "points");
    let _ = calls;
    (Model::sym(Al::layout(), n, "p"), n)
}
const ID: PointAttributeDefinition = attributes::POINT_ID;
const RGB: PointAttributeDefinition = attributes::COLOR_RGB;

fn by_value<'a, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, m: &Model, calls: usize) where 'a: 'b {
    let n = m.pts.len();
    match choice(3, "iterator") {
        0 => drive(b.view::<Al>().into_iter(), n, calls, |p, i| bytes_eq(&raw(&p), &m.pts[i])),
        1 => drive(b.view_attribute::<u64>(&ID).into_iter(), n, calls, |p, i| bytes_eq(&raw(&p), &m.pts[i][8..16])),
        _ => drive(b.view_attribute::<Vector3<u16>>(&RGB).into_iter(), n, calls, |p, i| bytes_eq(&raw(&p), &m.pts[i][16..22])),
    }
}
fn by_ref(calls: usize) {
    let (m, n) = al(calls);
    match choice(5, "iterator") {
        0 => drive(vector(&m).view::<Al>().iter(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i])),
        1 => drive(vector(&m).view_mut::<Al>().iter(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i])),
        2 => drive(columnar(&m).view_attribute::<u64>(&ID).iter(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i][8..16])),
        3 => drive(columnar(&m).view_attribute_mut::<u64>(&ID).iter(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i][8..16])),
        _ => drive(external(&m).view::<Al>().iter(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i])),
    }
}
fn by_mut(calls: usize) {
    let (m, n) = al(calls);
    match choice(4, "iterator") {
        0 => drive(vector(&m).view_mut::<Al>().iter_mut(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i])),
        1 => drive(columnar(&m).view_attribute_mut::<u64>(&ID).iter_mut(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i][8..16])),
        2 => drive(columnar(&m).view_attribute_mut::<Vector3<u16>>(&RGB).iter_mut(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i][16..22])),
        _ => drive(external(&m).view_mut::<Al>().iter_mut(), n, calls, |p, i| bytes_eq(&raw(p), &m.pts[i])),
    }
}
fn converting(calls: usize) {
    let (m, n) = al(calls);
    let d = ID.with_custom_datatype(PointAttributeDataType::U32);
    let same = |p: u32, i: usize| p == u64::from_le_bytes(m.pts[i][8..16].try_into().unwrap()) as u32;
    if choice(2, "buffer") == 0 {
        drive(vector(&m).view_attribute_with_conversion::<u32>(&d).unwrap().into_iter(), n, calls, same)
    } else {
        drive(columnar(&m).view_attribute_with_conversion::<u32>(&d).unwrap().into_iter(), n, calls, same)
    }
}

fn val(b: &[u8]) -> Al {
    bytemuck::pod_read_unaligned(b)
}
fn sorting(n: usize) {
    let mut m = Model::new(Al::layout());
    for i in 0..n {
        let mut p = m.fresh("p");
        p[8..16].copy_from_slice(&(i as u64).to_le_bytes());
        m.pts.push(p);
    }
    let descending = sym_bool("descending");
    let slot = choice(2, "buffer");
    let mut v = vector(&m);
    let mut e = external(&m);
    let cmp = |a: &Al, b: &Al| if descending { b.intensity.cmp(&a.intensity) } else { a.intensity.cmp(&b.intensity) };
    if slot == 0 {
        v.view_mut::<Al>().sort_by(cmp);
        sorted(&v, &m, descending);
    } else {
        e.view_mut::<Al>().sort_by(cmp);
        sorted(&e, &m, descending);
    }
}
fn sorted<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model, descending: bool) {
    let n = m.pts.len();
    check(b.len() == n, "sorting changes the number of points");
    let mut seen = vec![false; n];
    let mut last: Option<u16> = None;
    for k in 0..n {
        let mut d = vec![0u8; 24];
        b.get_point(k, &mut d);
        let p = val(&d);
        check(p.id < n as u64, "sorting invents a point");
        let id = concretize(p.id as usize);
        check(!seen[id], "sorting duplicates a point");
        seen[id] = true;
        check(bytes_eq(&d, &m.pts[id]), "sorting tears a point");
        if let Some(l) = last {
            check(if descending { l >= p.intensity } else { l <= p.intensity }, "not sorted");
        }
        last = Some(p.intensity);
        observe(id as u64);
    }
}

/// Skipping through many elements.
fn large_drive<I: Iterator>(mut it: I, len: usize, same: impl Fn(I::Item, usize) -> bool) {
    bound("130 elements with symbolic bytes, stepping after skips at several places");
    let a = [0, 7, 63, 64, 100][choice(5, "skip")];
    let b = [0, 1, 29, 66][choice(4, "skip")];
    let mut pos = 0;
    for k in [a, b] {
        if pos + k < len {
            match it.nth(k) {
                Some(v) => check(same(v, pos + k), "another element was delivered"),
                None => check(false, "an element was left out"),
            }
            pos += k + 1;
        } else {
            check(it.nth(k).is_none(), "an element was delivered after the end");
            pos = len;
        }
    }
    let mut rest = 0;
    while let Some(v) = it.next() {
        check(pos < len && same(v, pos), "another element was delivered");
        pos += 1;
        rest += 1;
        if rest > len { break }
    }
    check(pos == len, "an element was left out");
    check(it.next().is_none(), "an element was delivered after the end");
}
/// Sorting many points one of which has any key; the sort must also be a permutation of whole points.
fn large_sort(n: usize) {
    bound("sorting 24 points with one symbolic key");
    let mut m = Model::new(Al::layout());
    for i in 0..n {
        let mut p = m.fresh("p");
        p[8..16].copy_from_slice(&(i as u64).to_le_bytes());
        p[22..24].copy_from_slice(&(((i * 37) % n) as u16 * 5).to_le_bytes());
        m.pts.push(p);
    }
    let w = [0, n / 2, n - 1][choice(3, "place")];
    let key: u16 = sym("key");
    m.pts[w][22..24].copy_from_slice(&key.to_le_bytes());
    let mut v = vector(&m);
    v.view_mut::<Al>().sort_by(|a: &Al, b: &Al| a.intensity.cmp(&b.intensity));
    sorted(&v, &m, false);
}

harness! {
fn q_large() {
    let n = 130;
    let m = Model::sym(Al::layout(), n, "p");
    let d = ID.with_custom_datatype(PointAttributeDataType::U32);
    match choice(10, "iterator") {
        0 => large_drive(vector(&m).view::<Al>().into_iter(), n, |p, i| bytes_eq(&raw(&p), &m.pts[i])),
        1 => large_drive(columnar(&m).view::<Al>().into_iter(), n, |p, i| bytes_eq(&raw(&p), &m.pts[i])),
        2 => large_drive(columnar(&m).view_attribute::<u64>(&ID).into_iter(), n, |p, i| bytes_eq(&raw(&p), &m.pts[i][8..16])),
        3 => large_drive(external(&m).view_attribute::<u64>(&ID).into_iter(), n, |p, i| bytes_eq(&raw(&p), &m.pts[i][8..16])),
        4 => large_drive(vector(&m).view::<Al>().iter(), n, |p, i| bytes_eq(&raw(p), &m.pts[i])),
        5 => large_drive(vector(&m).view_mut::<Al>().iter_mut(), n, |p, i| bytes_eq(&raw(p), &m.pts[i])),
        6 => large_drive(columnar(&m).view_attribute::<Vector3<u16>>(&RGB).iter(), n, |p, i| bytes_eq(&raw(p), &m.pts[i][16..22])),
        7 => large_drive(columnar(&m).view_attribute_mut::<u64>(&ID).iter_mut(), n, |p, i| bytes_eq(&raw(p), &m.pts[i][8..16])),
        8 => large_drive(vector(&m).view_attribute_with_conversion::<u32>(&d).unwrap().into_iter(), n, |p, i| p == val(&m.pts[i]).id as u32),
        _ => large_drive(columnar(&m).slice(0..n).view_attribute::<u64>(&ID).into_iter(), n, |p, i| bytes_eq(&raw(&p), &m.pts[i][8..16])),
    }
}
fn q_large_sort() { large_sort(24) }
/// Views of many points that differ in one byte, or nowhere, at any place.
fn q_large_equality() {
    bound("equality of views of 40 points that differ in one symbolic byte at any place");
    let a = Model::sym(Al::layout(), 40, "a");
    let mut b = a.clone();
    let (i, x) = (choice(40, "place"), sym::<u8>("byte"));
    b.pts[i][8] ^= x;
    let (va, hb) = (vector(&a), columnar(&b));
    let same = (x == 0) | (val(&a.pts[0]).gps != val(&a.pts[0]).gps);
    for p in &a.pts {
        let g = val(p).gps;
        assume(g == g);
    }
    check((va.view::<Al>() == hb.view::<Al>()) == same, "equality of point views");
    check((va.view_attribute::<u64>(&ID) == hb.view_attribute::<u64>(&ID)) == (x == 0), "equality of attribute views");
}
fn q_value_vector() { let (m, _) = al(2); by_value(&vector(&m), &m, 2) }
fn q_value_hashmap() { let (m, _) = al(2); by_value(&columnar(&m), &m, 2) }
fn q_value_external() { let (m, _) = al(2); by_value(&external(&m), &m, 2) }
fn q_value_slice() { let m = Model::sym(Al::layout(), 4, "p"); let mut s = m.clone(); s.pts = m.pts[1..3].to_vec(); by_value(&vector(&m).slice(1..3), &s, 2) }
fn q_value_slice_hashmap() { let m = Model::sym(Al::layout(), 4, "p"); let mut s = m.clone(); s.pts = m.pts[1..3].to_vec(); by_value(&columnar(&m).slice(1..3), &s, 2) }
fn q_ref() { by_ref(2) }
fn q_mut() { by_mut(2) }
fn q_converting() { converting(2) }
fn q_value_vector3() { let (m, _) = al(3); by_value(&vector(&m), &m, 3) }
fn q_ref3() { by_ref(3) }
fn q_mut3() { by_mut(3) }
fn t_value_hashmap4() { let (m, _) = al(4); by_value(&columnar(&m), &m, 4) }
fn t_ref4() { by_ref(4) }
fn t_mut4() { by_mut(4) }
fn t_converting4() { converting(4) }
/// The references of one mutable iteration are all alive together: each is its own element.
fn q_mut_disjoint() {
    let (mut m, n) = al(0);
    let new: Vec<Al> = (0..n).map(|_| sym_pod("new")).collect();
    let skip = choice(2, "skip");
    let mut v = vector(&m);
    let mut h = columnar(&m);
    let mut want = Model::new(m.layout.clone());
    want.pts = m.pts.clone();
    {
        let mut w = v.view_mut::<Al>();
        let refs: Vec<&mut Al> = if skip == 1 { w.iter_mut().step_by(2).collect() } else { w.iter_mut().collect() };
        for (k, r) in refs.into_iter().enumerate() {
            *r = new[k];
            want.pts[k * (skip + 1)] = raw(&new[k]);
        }
    }
    same_points(&v, &want, "writes through the references of one iteration");
    {
        let mut w = h.view_attribute_mut::<u64>(&ID);
        let refs: Vec<&mut u64> = if skip == 1 { w.iter_mut().step_by(2).collect() } else { w.iter_mut().collect() };
        for (k, r) in refs.into_iter().enumerate() {
            *r = new[k].id;
            m.pts[k * (skip + 1)][8..16].copy_from_slice(&new[k].id.to_le_bytes());
        }
    }
    same_points(&h, &m, "writes through the references of one iteration");
    observe_points(&v);
    observe_points(&h);
}
/// Equality of views is equality of all elements.
fn q_view_equality() {
    bound("view equality: 0..=2 points against 0..=2 points of any bytes, interleaved against columnar");
    let a = Model::sym(Al::layout(), choice(3, "points"), "a");
    let b = Model::sym(Al::layout(), choice(3, "points"), "b");
    let (va, hb, vb) = (vector(&a), columnar(&b), vector(&b));
    let mut all = a.pts.len() == b.pts.len();
    let mut ids = all;
    if all {
        for k in 0..a.pts.len() {
            all = all & (val(&a.pts[k]) == val(&b.pts[k]));
            ids = ids & (val(&a.pts[k]).id == val(&b.pts[k]).id);
        }
    }
    check((va.view::<Al>() == hb.view::<Al>()) == all, "equality of point views");
    check((va.view_attribute::<u64>(&ID) == hb.view_attribute::<u64>(&ID)) == ids, "equality of attribute views");
    check((hb.view_attribute::<u64>(&ID) == va.view_attribute::<u64>(&ID)) == ids, "equality of attribute views");
    let d = ID.with_custom_datatype(PointAttributeDataType::U32);
    let mut low = a.pts.len() == b.pts.len();
    if low {
        for k in 0..a.pts.len() {
            low = low & (val(&a.pts[k]).id as u32 == val(&b.pts[k]).id as u32);
        }
    }
    check((va.view_attribute_with_conversion::<u32>(&d).unwrap() == hb.view_attribute_with_conversion::<u32>(&d).unwrap()) == low, "equality of converting views");
    let (mut x, mut y) = (va, hb);
    check((x.view_mut::<Al>() == y.view_mut::<Al>()) == all, "equality of mutable point views");
    check((x.view_attribute_mut::<u64>(&ID) == y.view_attribute_mut::<u64>(&ID)) == ids, "equality of mutable attribute views");
    check((x == vb) == (bytes_eq(&a.concat(), &b.concat()) & (a.pts.len() == b.pts.len())), "equality of buffers");
    observe(all as u64);
}
fn q_sort() { bound("sorting 0..=3 points (4 thorough) by a symbolic key"); sorting(choice(4, "points")) }
fn t_sort4() { sorting(4) }
/// Typed element access and replacement.
fn q_set_at() {
    let mut m = Model::sym(Al::layout(), 3, "p");
    let i = choice(3, "index");
    let x: Al = sym_pod("new");
    let (mut v, mut h) = (vector(&m), columnar(&m));
    match choice(4, "write") {
        0 => {
            v.view_mut::<Al>().set_at(i, x);
            h.view_mut::<Al>().set_at(i, x);
            m.pts[i] = raw(&x);
        }
        1 => {
            v.view_attribute_mut::<u64>(&ID).set_at(i, x.id);
            *h.view_attribute_mut::<u64>(&ID).at_mut(i) = x.id;
            m.pts[i][8..16].copy_from_slice(&raw(&x)[8..16]);
        }
        2 => {
            *v.view_mut::<Al>().at_mut(i) = x;
            h.view_mut::<Al>().set_at(i, x);
            m.pts[i] = raw(&x);
        }
        _ => {
            v.view_mut::<Al>().push_point(x);
            h.view_mut::<Al>().push_point(x);
            m.pts.push(raw(&x));
        }
    }
    let j = choice(m.pts.len(), "read");
    let (v, h) = (&mut v, &mut h);
    check(bytes_eq(&raw(&v.view_mut::<Al>().at(j)), &m.pts[j]), "mutable view, by value");
    check(bytes_eq(&raw(&h.view_mut::<Al>().at(j)), &m.pts[j]), "mutable view, by value");
    check(bytes_eq(&raw(v.view_mut::<Al>().at_ref(j)), &m.pts[j]), "mutable view, by reference");
    check(v.view_attribute_mut::<u64>(&ID).at(j) == val(&m.pts[j]).id, "mutable attribute view, by value");
    check(h.view_attribute_mut::<u64>(&ID).at(j) == val(&m.pts[j]).id, "mutable attribute view, by value");
    check(*h.view_attribute_mut::<u64>(&ID).at_ref(j) == val(&m.pts[j]).id, "mutable attribute view, by reference");
    same_points(v, &m, "buffer after a typed write");
    same_points(h, &m, "buffer after a typed write");
}
}

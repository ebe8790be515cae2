//! C06: a slice of a buffer behaves as a buffer of exactly its range of points.
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::ops::Range;
use sxh::model::*;
use sxh::*;

fn range(n: usize) -> (usize, usize) {
    let i = choice(n + 1, "start");
    let j = choice(n + 1, "end");
    assume(i <= j);
    (i, j)
}
fn sub(m: &Model, i: usize, j: usize) -> Model {
    let mut s = Model::new(m.layout.clone());
    s.pts = m.pts[i..j].to_vec();
    s
}
/// Reads of the points `idx` picks out of range must stop, not deliver other points.
fn oob_read<'a, 'b, B: BorrowedBuffer<'a>>(b: &'b B, m: &Model, len: usize)
where
    'a: 'b,
{
    let i: usize = sym("out of range index");
    assume(i >= len);
    let (a, r) = m.mem[0].clone();
    let mut d = vec![0u8; m.size()];
    let mut e = vec![0u8; r.len()];
    match choice(5, "access") {
        0 => must_panic("a point outside of a slice was read", || b.get_point(i, &mut d)),
        1 => must_panic("a value outside of a slice was read", || b.get_attribute(&a, i, &mut e)),
        2 => {
            let s: usize = sym("start");
            assume(i > len && s < i);
            let mut d = vec![0u8; m.size() * 2];
            assume(i - s <= 2);
            let n = concretize(i - s);
            must_panic("points outside of a slice were read", || b.get_point_range(s..i, &mut d[..n * m.size()]));
        }
        3 => {
            if let Some(v) = b.as_interleaved() {
                must_panic("a reference outside of a slice was handed out", || {
                    v.get_point_ref(i);
                });
            } else if let Some(v) = b.as_columnar() {
                must_panic("a reference outside of a slice was handed out", || {
                    v.get_attribute_ref(&a, i);
                });
            }
        }
        _ => {
            assume(i > len);
            if let Some(v) = b.as_interleaved() {
                must_panic("references outside of a slice were handed out", || {
                    v.get_point_range_ref(0..i);
                });
            } else if let Some(v) = b.as_columnar() {
                must_panic("references outside of a slice were handed out", || {
                    v.get_attribute_range_ref(&a, 0..i);
                });
            }
        }
    }
}
fn oob_write<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, m: &Model, len: usize) {
    let i: usize = sym("out of range index");
    assume(i >= len);
    let (a, r) = m.mem[0].clone();
    let d = vec![1u8; m.size()];
    let e = vec![1u8; r.len()];
    let n = "a write outside of a slice went through";
    match choice(7, "access") {
        0 => must_panic(n, || unsafe { b.set_point(i, &d) }),
        1 => must_panic(n, || unsafe { b.set_attribute(&a, i, &e) }),
        2 => {
            assume(i > len && i - 1 >= len);
            must_panic(n, || unsafe { b.set_point_range(i - 1..i, &d) })
        }
        3 => {
            assume(i > len);
            must_panic(n, || unsafe { b.set_attribute_range(&a, i - 1..i, &e) })
        }
        4 => must_panic(n, || b.swap(i, 0)),
        5 => must_panic(n, || b.swap(0, i)),
        _ => {
            if let Some(v) = b.as_interleaved_mut() {
                must_panic(n, || {
                    v.get_point_mut(i);
                })
            } else if let Some(v) = b.as_columnar_mut() {
                must_panic(n, || {
                    v.get_attribute_mut(&a, i);
                })
            }
        }
    }
}
/// One mutation of a point of the slice, mirrored on the model of the slice.
fn write<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, s: &mut Model) {
    let n = s.pts.len();
    if n == 0 {
        return;
    }
    let i = choice(n, "index");
    let (a, r) = s.mem[s.mem.len() - 1].clone();
    match choice(7, "operation") {
        0 => {
            let p = s.fresh("new");
            unsafe { b.set_point(i, &p) };
            s.pts[i] = p;
        }
        1 => {
            let v = sym_bytes(r.len(), "value");
            unsafe { b.set_attribute(&a, i, &v) };
            s.pts[i][r].copy_from_slice(&v);
        }
        2 => {
            let ps: Vec<Vec<u8>> = (i..n).map(|_| s.fresh("new")).collect();
            unsafe { b.set_point_range(i..n, &ps.concat()) };
            for k in i..n {
                s.pts[k] = ps[k - i].clone();
            }
        }
        3 => {
            let v = sym_bytes(r.len() * (n - i), "value");
            unsafe { b.set_attribute_range(&a, i..n, &v) };
            for k in i..n {
                s.pts[k][r.clone()].copy_from_slice(&v[(k - i) * r.len()..(k - i + 1) * r.len()]);
            }
        }
        4 => {
            let j = choice(n, "index2");
            b.swap(i, j);
            s.pts.swap(i, j);
        }
        5 => {
            let p = s.fresh("new");
            let v = sym_bytes(r.len() * (n - i), "value");
            if let Some(w) = b.as_interleaved_mut() {
                w.get_point_mut(i).copy_from_slice(&p);
                s.pts[i] = p;
                let q = s.fresh("new");
                w.get_point_range_mut(n - 1..n).copy_from_slice(&q);
                s.pts[n - 1] = q;
            } else if let Some(w) = b.as_columnar_mut() {
                w.get_attribute_mut(&a, i).copy_from_slice(&v[..r.len()]);
                w.get_attribute_range_mut(&a, i..n).copy_from_slice(&v);
                for k in i..n {
                    s.pts[k][r.clone()].copy_from_slice(&v[(k - i) * r.len()..(k - i + 1) * r.len()]);
                }
            }
        }
        _ => {
            let am = b.point_layout().get_attribute(&a).unwrap().clone();
            let v = sym_bytes(r.len(), "value");
            if let Some(w) = b.as_interleaved_mut() {
                w.view_raw_attribute_mut(&am)[i].copy_from_slice(&v);
                s.pts[i][r].copy_from_slice(&v);
            } else if let Some(w) = b.as_columnar_mut() {
                w.view_raw_attribute_mut(&am)[i].copy_from_slice(&v);
                s.pts[i][r].copy_from_slice(&v);
            }
        }
    }
}

macro_rules! slices {
    ($make:ident, $base:ident, $base_mut:ident, $nest:ident, $nest_mut:ident, $nest_shared:ident) => {
        fn read() {
            bound("buffers of 3 points with symbolic bytes, every slice and sub-slice; out-of-range accesses with a fully symbolic 64-bit index");
            let m = Model::sym(layout(choice(LAYOUTS, "layout")), 3, "p");
            let b = $make(&m);
            let (i, j) = range(3);
            let s = $base!(b, i..j);
            all_reads(&s, &sub(&m, i, j), "slice");
            observe_points(&s);
        }
        fn nested() {
            let m = Model::sym(layout(choice(2, "layout")), 4, "p");
            let b = $make(&m);
            let (i, j) = range(4);
            let s = $base!(b, i..j);
            let (k, l) = range(j - i);
            let t = $nest!(s, k..l);
            all_reads(&t, &sub(&m, i + k, i + l), "slice of a slice");
            observe_points(&t);
        }
        fn oob() {
            let m = Model::sym(layout(0), 3, "p");
            let b = $make(&m);
            let (i, j) = range(3);
            let s = $base!(b, i..j);
            oob_read(&s, &m, j - i);
        }
        fn nested_oob() {
            let m = Model::sym(layout(0), 3, "p");
            let b = $make(&m);
            let s = $base!(b, 1..3);
            let t = $nest!(s, 0..1);
            oob_read(&t, &m, 1);
        }
        fn write_() {
            let mut m = Model::sym(layout(choice(3, "layout")), 3, "p");
            let mut b = $make(&m);
            let (i, j) = range(3);
            let mut sm = sub(&m, i, j);
            {
                let mut s = $base_mut!(b, i..j);
                write(&mut s, &mut sm);
                same_points(&s, &sm, "mutable slice after a write");
            }
            m.pts.splice(i..j, sm.pts);
            same_points(&b, &m, "buffer after a write through a slice");
            observe_points(&b);
        }
        fn mut_read() {
            let m = Model::sym(layout(choice(2, "layout")), 3, "p");
            let mut b = $make(&m);
            let (i, j) = range(3);
            {
                let s = $base_mut!(b, i..j);
                all_reads(&s, &sub(&m, i, j), "mutable slice");
            }
            {
                let s = $base_mut!(b, i..j);
                let (k, l) = range(j - i);
                let t = $nest_shared!(s, k..l);
                all_reads(&t, &sub(&m, i + k, i + l), "slice of a mutable slice");
            }
        }
        fn nested_write() {
            let mut m = Model::sym(layout(0), 4, "p");
            let mut b = $make(&m);
            let (i, j) = range(4);
            let (k, l) = range(j - i);
            let mut sm = sub(&m, i + k, i + l);
            {
                let mut s = $base_mut!(b, i..j);
                let mut t = $nest_mut!(s, k..l);
                check(t.len() == l - k, "length of a slice of a slice");
                write(&mut t, &mut sm);
                same_points(&t, &sm, "slice of a slice after a write");
            }
            m.pts.splice(i + k..i + l, sm.pts);
            same_points(&b, &m, "buffer after a write through a slice of a slice");
            observe_points(&b);
        }
        fn oob_write_() {
            let m = Model::sym(layout(0), 3, "p");
            let mut b = $make(&m);
            let (i, j) = range(3);
            let mut s = $base_mut!(b, i..j);
            if choice(2, "read or write") == 0 {
                oob_read(&s, &m, j - i);
            } else {
                assume(j > i);
                oob_write(&mut s, &m, j - i);
            }
        }
        fn nested_oob_write() {
            let m = Model::sym(layout(0), 4, "p");
            let mut b = $make(&m);
            let mut s = $base_mut!(b, 1..4);
            let mut t = $nest_mut!(s, 0..1);
            if choice(2, "read or write") == 0 {
                oob_read(&t, &m, 1);
            } else {
                oob_write(&mut t, &m, 1);
            }
        }
        /// A slice cannot be made to reach behind the sliced slice.
        fn invalid() {
            let m = Model::sym(layout(0), 4, "p");
            let mut b = $make(&m);
            let i: usize = sym("start");
            let j: usize = sym("end");
            assume(j > 2 && i < j);
            match choice(2, "kind") {
                0 => {
                    let s = $base!(b, 1..3);
                    must_panic("a slice reaching outside of its parent", || {
                        let t = $nest!(s, i..j);
                        let mut d = vec![0u8; m.size()];
                        t.get_point(j - i - 1, &mut d);
                    });
                }
                _ => {
                    let mut s = $base_mut!(b, 1..3);
                    must_panic("a slice reaching outside of its parent", || {
                        let t = $nest_mut!(s, i..j);
                        let mut d = vec![0u8; m.size()];
                        t.get_point(j - i - 1, &mut d);
                    });
                }
            }
        }
        pub fn all(k: usize) {
            [read as fn(), nested, oob, nested_oob, write_, nested_write, oob_write_, mut_read, nested_oob_write, invalid][k]()
        }
    };
}
macro_rules! base_slice { ($b:ident, $r:expr) => { $b.slice($r) } }
macro_rules! base_slice_mut { ($b:ident, $r:expr) => { $b.slice_mut($r) } }
macro_rules! base_col { ($b:ident, $r:expr) => { BufferSliceColumnar::new(&$b, $r) } }
macro_rules! base_col_mut { ($b:ident, $r:expr) => { BufferSliceColumnarMut::new(&mut $b, $r) } }
macro_rules! base_gen { ($b:ident, $r:expr) => { BufferSlice::new(&$b, $r) } }
macro_rules! base_gen_mut { ($b:ident, $r:expr) => { BufferSliceMut::new(&mut $b, $r) } }
macro_rules! inter { ($b:ident, $r:expr) => { BufferSliceInterleaved::new(&$b, $r) } }
macro_rules! inter_mut { ($b:ident, $r:expr) => { BufferSliceInterleavedMut::new(&mut $b, $r) } }
mod v { use super::*; slices!(vector, base_slice, base_slice_mut, base_slice, base_slice_mut, base_slice); }
mod e { use super::*; slices!(external, base_slice, base_slice_mut, base_slice, base_slice_mut, base_slice); }
mod h { use super::*; slices!(columnar, base_slice, base_slice_mut, base_col, base_col_mut, base_col); }
mod g { use super::*; slices!(columnar, base_gen, base_gen_mut, base_slice, base_slice_mut, base_slice); }
mod gv { use super::*; slices!(vector, base_gen, base_gen_mut, base_slice, base_slice_mut, base_slice); }
mod iv { use super::*; slices!(vector, inter, inter_mut, inter, inter_mut, inter); }

/// Typed access through slices.
fn typed<'a, 'b, B: BorrowedBuffer<'a> + 'a>(b: &'b B, m: &Model) where 'a: 'b {
    let mut k = 0;
    for p in b.view::<Al>() {
        check(bytes_eq(&raw(&p), &m.pts[k]), "iterating a slice");
        k += 1;
    }
    check(k == m.pts.len(), "number of points in a slice");
    let mut k = 0;
    for p in b.view_attribute::<u64>(&attributes::POINT_ID) {
        check(bytes_eq(&raw(&p), &m.pts[k][8..16]), "iterating an attribute of a slice");
        k += 1;
    }
    check(k == m.pts.len(), "number of values in a slice");
    for k in 0..m.pts.len() {
        check(bytes_eq(&raw(&b.view::<Al>().at(k)), &m.pts[k]), "view of a slice");
        check(bytes_eq(&raw(&b.view_attribute::<u64>(&attributes::POINT_ID).at(k)), &m.pts[k][8..16]), "attribute view of a slice");
    }
}

/// Slices of many points, and slices of those.
fn large<'a, B: BorrowedBuffer<'a>>(b: &B, s: &Model) {
    large_reads(b, s, "a slice of many points");
}
fn large_case(layouts: usize) -> (Model, Range<usize>, Range<usize>) {
    bound("slices of 100 and 61 points of a buffer of 130 points with symbolic bytes");
    let m = Model::sym(layout([0, 3, 1, 2, 4, 5][choice(layouts, "layout")]), 130, "p");
    (m, 20..120, [0..61, 30..91, 39..100][choice(3, "part")].clone())
}

harness! {
fn q_large_vector() { let (m, r, q) = large_case(LAYOUTS); let b = vector(&m); let s = b.slice(r.clone()); large(&s, &sub(&m, r.start, r.end)); large(&s.slice(q.clone()), &sub(&m, r.start + q.start, r.start + q.end)) }
fn q_large_hashmap() { let (m, r, q) = large_case(LAYOUTS); let b = columnar(&m); large(&b.slice(r.clone()), &sub(&m, r.start, r.end)); let s = BufferSlice::new(&b, r.clone()); large(&s.slice(q.clone()), &sub(&m, r.start + q.start, r.start + q.end)) }
fn q_large_external() { let (m, r, q) = large_case(LAYOUTS); let b = external(&m); let s = b.slice(r.clone()); large(&s, &sub(&m, r.start, r.end)); large(&s.slice(q.clone()), &sub(&m, r.start + q.start, r.start + q.end)) }
fn q_large_mut() {
    let (mut m, r, _) = large_case(2);
    let (i, j) = [(0, 100), (10, 99), (50, 51)][choice(3, "range")];
    let ps: Vec<Vec<u8>> = (i..j).map(|_| m.fresh("new")).collect();
    let (a, ar) = m.mem[choice(m.mem.len(), "attribute")].clone();
    let x = sym_bytes(ar.len() * (j - i), "value");
    let op = choice(3, "operation");
    macro_rules! go { ($b:expr) => {{
        let mut s = $b.slice_mut(r.clone());
        match op {
            0 => unsafe { s.set_point_range(i..j, &ps.concat()) },
            1 => unsafe { s.set_attribute_range(&a, i..j, &x) },
            _ => for k in 0..5 { s.swap(i + k * 9 % (j - i), j - 1 - k * 7 % (j - i)) },
        }
    }} }
    let (mut v, mut h, mut e) = (vector(&m), columnar(&m), external(&m));
    go!(v);
    go!(h);
    go!(e);
    match op {
        0 => { m.pts.splice(20 + i..20 + j, ps.clone()); }
        1 => for k in i..j { m.pts[20 + k][ar.clone()].copy_from_slice(&x[(k - i) * ar.len()..(k - i + 1) * ar.len()]) },
        _ => for k in 0..5 { m.pts.swap(20 + i + k * 9 % (j - i), 20 + j - 1 - k * 7 % (j - i)) },
    }
    same_points(&v, &m, "many points after a write through a slice");
    same_points(&h, &m, "many points after a write through a slice");
    same_points(&e, &m, "many points after a write through a slice");
}
fn q_vector_read() { v::all(0) }
fn q_vector_nested() { v::all(1) }
fn q_vector_oob() { v::all(2) }
fn q_vector_nested_oob() { v::all(3) }
fn q_vector_write() { v::all(4) }
fn q_vector_nested_write() { v::all(5) }
fn q_vector_mut_oob() { v::all(6) }
fn q_vector_mut_read() { v::all(7) }
fn q_vector_nested_mut_oob() { v::all(8) }
fn q_vector_invalid() { v::all(9) }
fn q_hashmap_read() { h::all(0) }
fn q_hashmap_nested() { h::all(1) }
fn q_hashmap_oob() { h::all(2) }
fn q_hashmap_nested_oob() { h::all(3) }
fn q_hashmap_write() { h::all(4) }
fn q_hashmap_nested_write() { h::all(5) }
fn q_hashmap_mut_oob() { h::all(6) }
fn q_hashmap_mut_read() { h::all(7) }
fn q_hashmap_nested_mut_oob() { h::all(8) }
fn q_hashmap_invalid() { h::all(9) }
fn q_external_read() { e::all(0) }
fn q_external_nested() { e::all(1) }
fn q_external_oob() { e::all(2) }
fn q_external_nested_oob() { e::all(3) }
fn q_external_write() { e::all(4) }
fn q_external_nested_write() { e::all(5) }
fn q_external_mut_oob() { e::all(6) }
fn q_external_mut_read() { e::all(7) }
fn q_external_nested_mut_oob() { e::all(8) }
fn q_external_invalid() { e::all(9) }
fn q_generic_hashmap_read() { g::all(0) }
fn q_generic_hashmap_nested() { g::all(1) }
fn q_generic_hashmap_oob() { g::all(2) }
fn q_generic_hashmap_nested_oob() { g::all(3) }
fn q_generic_hashmap_write() { g::all(4) }
fn q_generic_hashmap_nested_write() { g::all(5) }
fn q_generic_hashmap_mut_oob() { g::all(6) }
fn q_generic_hashmap_mut_read() { g::all(7) }
fn q_generic_hashmap_nested_mut_oob() { g::all(8) }
fn q_generic_hashmap_invalid() { g::all(9) }
fn q_generic_vector_read() { gv::all(0) }
fn q_generic_vector_nested() { gv::all(1) }
fn q_generic_vector_oob() { gv::all(2) }
fn q_generic_vector_nested_oob() { gv::all(3) }
fn q_generic_vector_write() { gv::all(4) }
fn q_generic_vector_nested_write() { gv::all(5) }
fn q_generic_vector_mut_oob() { gv::all(6) }
fn q_generic_vector_mut_read() { gv::all(7) }
fn q_generic_vector_nested_mut_oob() { gv::all(8) }
fn q_generic_vector_invalid() { gv::all(9) }
fn q_interleaved_read() { iv::all(0) }
fn q_interleaved_nested() { iv::all(1) }
fn q_interleaved_oob() { iv::all(2) }
fn q_interleaved_nested_oob() { iv::all(3) }
fn q_interleaved_write() { iv::all(4) }
fn q_interleaved_nested_write() { iv::all(5) }
fn q_interleaved_mut_oob() { iv::all(6) }
fn q_interleaved_mut_read() { iv::all(7) }
fn q_interleaved_nested_mut_oob() { iv::all(8) }
fn q_interleaved_invalid() { iv::all(9) }
fn q_typed() {
    let m = Model::sym(Al::layout(), 3, "p");
    let (i, j) = range(3);
    let v = vector(&m);
    typed(&v.slice(i..j), &sub(&m, i, j));
    let h = columnar(&m);
    typed(&h.slice(i..j), &sub(&m, i, j));
    let mut v = vector(&m);
    typed(&v.slice_mut(i..j), &sub(&m, i, j));
    let mut h = columnar(&m);
    typed(&h.slice_mut(i..j), &sub(&m, i, j));
}
/// Typed mutation and references through slices.
fn q_typed_mut() {
    let mut m = Model::sym(Al::layout(), 3, "p");
    let mut v = vector(&m);
    let mut h = columnar(&m);
    let (i, j) = range(3);
    {
        let mut s = v.slice_mut(i..j);
        let mut k = 0;
        for p in s.view_mut::<Al>().iter_mut() {
            check(bytes_eq(&raw(p), &m.pts[i + k]), "mutable iteration of a slice");
            p.intensity = p.intensity.wrapping_add(7);
            k += 1;
        }
        check(k == j - i, "number of points in a slice");
    }
    {
        let mut s = h.slice_mut(i..j);
        let mut k = 0;
        for p in s.view_attribute_mut::<u16>(&attributes::INTENSITY).iter_mut() {
            check(bytes_eq(&raw(p), &m.pts[i + k][22..24]), "mutable iteration of a slice");
            *p = p.wrapping_add(7);
            k += 1;
        }
        check(k == j - i, "number of values in a slice");
    }
    for k in i..j {
        let o: u16 = bytemuck::pod_read_unaligned(&m.pts[k][22..24]);
        m.pts[k][22..24].copy_from_slice(&o.wrapping_add(7).to_le_bytes());
    }
    same_points(&v, &m, "buffer after mutable iteration of a slice");
    same_points(&h, &m, "buffer after mutable iteration of a slice");
}
/// A range behind the end of the buffer does not become readable through a slice.
fn q_behind_the_end() {
    let m = Model::sym(layout(choice(2, "layout")), 2, "p");
    let i: usize = sym("start");
    let j: usize = sym("end");
    assume(i <= j && j > 2);
    let mut d = vec![0u8; m.size()];
    let n = "a point behind the end of the buffer was read through a slice";
    match choice(3, "buffer") {
        0 => { let b = vector(&m); must_panic(n, || { let s = b.slice(i..j); s.get_point(2usize.saturating_sub(i), &mut d) }) }
        1 => { let b = columnar(&m); must_panic(n, || { let s = b.slice(i..j); s.get_point(2usize.saturating_sub(i), &mut d) }) }
        _ => { let b = external(&m); must_panic(n, || { let s = b.slice(i..j); s.get_point(2usize.saturating_sub(i), &mut d) }) }
    }
}
}

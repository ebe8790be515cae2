//! C04: a mutation changes exactly the addressed points or attribute values.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use sxh::model::*;
use sxh::*;

/// One untyped mutation through the buffer interface, mirrored on the model.
pub fn mutate<'a, B: BorrowedMutBuffer<'a>>(b: &mut B, m: &mut Model, op: usize) {
    let n = m.pts.len();
    match op {
        0 => {
            let i = choice(n, "index");
            let p = m.fresh("new");
            unsafe { b.set_point(i, &p) };
            m.pts[i] = p;
        }
        1 => {
            let (i, j) = range(n);
            let ps: Vec<Vec<u8>> = (i..j).map(|_| m.fresh("new")).collect();
            unsafe { b.set_point_range(i..j, &ps.concat()) };
            for k in i..j {
                m.pts[k] = ps[k - i].clone();
            }
        }
        2 => {
            let i = choice(n, "index");
            let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
            let v = sym_bytes(r.len(), "value");
            unsafe { b.set_attribute(&a, i, &v) };
            m.pts[i][r].copy_from_slice(&v);
        }
        3 => {
            let (i, j) = range(n);
            let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
            let v = sym_bytes(r.len() * (j - i), "value");
            unsafe { b.set_attribute_range(&a, i..j, &v) };
            for k in i..j {
                m.pts[k][r.clone()].copy_from_slice(&v[(k - i) * r.len()..(k - i + 1) * r.len()]);
            }
        }
        4 => {
            let i = choice(n, "index");
            let j = choice(n, "index2");
            b.swap(i, j);
            m.pts.swap(i, j);
        }
        // through the interleaved or columnar interface
        5 => {
            let (i, j) = range(n);
            if let Some(v) = b.as_interleaved_mut() {
                cover("mutable interleaved access");
                let s = m.size();
                if i < j {
                    let p = m.fresh("new");
                    v.get_point_mut(i).copy_from_slice(&p);
                    m.pts[i] = p;
                }
                let ps: Vec<Vec<u8>> = (i..j).map(|_| m.fresh("new")).collect();
                let d = v.get_point_range_mut(i..j);
                check(d.len() == (j - i) * s, "length of get_point_range_mut");
                d.copy_from_slice(&ps.concat());
                for k in i..j {
                    m.pts[k] = ps[k - i].clone();
                }
            } else if let Some(v) = b.as_columnar_mut() {
                cover("mutable columnar access");
                let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
                if i < j {
                    let x = sym_bytes(r.len(), "value");
                    v.get_attribute_mut(&a, i).copy_from_slice(&x);
                    m.pts[i][r.clone()].copy_from_slice(&x);
                }
                let x = sym_bytes(r.len() * (j - i), "value");
                let d = v.get_attribute_range_mut(&a, i..j);
                check(d.len() == x.len(), "length of get_attribute_range_mut");
                if j > i + 1 || i % 2 == 0 {
                    d.copy_from_slice(&x);
                    for k in i..j {
                        m.pts[k][r.clone()].copy_from_slice(&x[(k - i) * r.len()..(k - i + 1) * r.len()]);
                    }
                }
            }
        }
        _ => {
            let i = choice(n, "index");
            let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
            let am = b.point_layout().get_attribute(&a).unwrap().clone();
            let x = sym_bytes(r.len(), "value");
            if let Some(v) = b.as_interleaved_mut() {
                let mut w = v.view_raw_attribute_mut(&am);
                check(bytes_eq(&w[i], &m.pts[i][r.clone()]), "reading a raw mutable view");
                w[i].copy_from_slice(&x);
            } else if let Some(v) = b.as_columnar_mut() {
                let mut w = v.view_raw_attribute_mut(&am);
                check(bytes_eq(&w[i], &m.pts[i][r.clone()]), "reading a raw mutable view");
                w[i].copy_from_slice(&x);
            } else {
                return;
            }
            m.pts[i][r].copy_from_slice(&x);
        }
    }
}
fn range(n: usize) -> (usize, usize) {
    let i = choice(n + 1, "start");
    let j = choice(n + 1, "end");
    assume(i <= j);
    (i, j)
}

fn untyped<'a, B: BorrowedMutBuffer<'a>>(make: fn(&Model) -> B, lay: usize, n: usize) {
    bound("3 points with symbolic bytes, one mutation with symbolic bytes at every index, range and attribute; 6 layouts");
    let mut m = Model::sym(layout(lay), n, "p");
    let mut b = make(&m);
    let op = choice(7, "operation");
    mutate(&mut b, &mut m, op);
    same_points(&b, &m, "state after a mutation");
    observe_points(&b);
}

/// Mutations through typed views; `$byref` additionally uses references into the memory.
fn typed<'a, B: BorrowedMutBuffer<'a> + 'a>(make: fn(&Model) -> B) {
    let mut m = Model::sym(Al::layout(), 3, "p");
    let mut b = make(&m);
    let i = choice(3, "index");
    match choice(4, "operation") {
        0 => {
            let p: Al = sym_pod("new");
            let mut v = b.view_mut::<Al>();
            v.set_at(i, p);
            check(bytes_eq(&raw(&v.at(i)), &raw(&p)), "the value just set");
            m.pts[i] = raw(&p);
        }
        1 => {
            let c: Vector3<u16> = sym_pod("new");
            let mut v = b.view_attribute_mut::<Vector3<u16>>(&attributes::COLOR_RGB);
            v.set_at(i, c);
            check(bytes_eq(&raw(&v.at(i)), &raw(&c)), "the value just set");
            m.pts[i][16..22].copy_from_slice(&raw(&c));
        }
        2 => {
            let c: u16 = sym("new");
            let mut v = b.view_attribute_mut::<u16>(&attributes::INTENSITY);
            v.set_at(i, c);
            m.pts[i][22..24].copy_from_slice(&raw(&c));
        }
        _ => {
            // every value, each seeing its own index and its own old value
            let k: u64 = sym("k");
            b.transform_attribute(&attributes::POINT_ID, |i: usize, v: u64| v.wrapping_mul(3) ^ k.wrapping_add(i as u64));
            for i in 0..3 {
                let o: u64 = bytemuck::pod_read_unaligned(&m.pts[i][8..16]);
                m.pts[i][8..16].copy_from_slice(&(o.wrapping_mul(3) ^ k.wrapping_add(i as u64)).to_le_bytes());
            }
        }
    }
    same_points(&b, &m, "state after a typed mutation");
    observe_points(&b);
}
fn typed_ref<'a, B: InterleavedBufferMut<'a> + 'a>(make: fn(&Model) -> B) {
    let mut m = Model::sym(Al::layout(), 3, "p");
    let mut b = make(&m);
    let i = choice(3, "index");
    match choice(3, "operation") {
        0 => {
            let p: Al = sym_pod("new");
            let mut v = b.view_mut::<Al>();
            *v.at_mut(i) = p;
            check(bytes_eq(&raw(v.at_ref(i)), &raw(&p)), "the value just set");
            m.pts[i] = raw(&p);
        }
        1 => {
            let c: u16 = sym("new");
            let mut v = b.view_mut::<Al>();
            v.at_mut(i).intensity = c;
            m.pts[i][22..24].copy_from_slice(&raw(&c));
        }
        _ => {
            let mut v = b.view_mut::<Al>();
            let mut k = 0;
            for p in v.iter_mut() {
                let old: u64 = bytemuck::pod_read_unaligned(&m.pts[k][8..16]);
                check(p.id == old, "value in a mutable iteration");
                p.id = old ^ (k as u64 + 1);
                m.pts[k][8..16].copy_from_slice(&(old ^ (k as u64 + 1)).to_le_bytes());
                k += 1;
            }
            check(k == 3, "number of points iterated");
        }
    }
    same_points(&b, &m, "state after a mutation by reference");
    observe_points(&b);
}
/// `r` is `p` rearranged into ascending order: same multiset of records, sorted keys, stable.
fn sort_case<'a, B: InterleavedBufferMut<'a> + 'a>(make: fn(&Model) -> B, n: usize) {
    let mut m = Model::new(Al::layout());
    for k in 0..n {
        let mut a: Al = sym_pod("al");
        a.intensity = k as u16; // tags the points
        m.pts.push(raw(&a));
    }
    let mut b = make(&m);
    b.view_mut::<Al>().sort_by(|x, y| x.id.cmp(&y.id));
    check(b.len() == n, "number of points after sorting");
    let v = b.view::<Al>();
    let mut seen = 0u32;
    for i in 0..n {
        let p = v.at(i);
        check((p.intensity as usize) < n, "a sorted point is one of the input");
        let t = concretize(p.intensity as usize);
        check(bytes_eq(&raw(&p), &m.pts[t]), "a sorted point is one of the input");
        check(seen & (1 << t) == 0, "no point occurs twice after sorting");
        seen |= 1 << t;
        if i > 0 {
            let q = v.at(i - 1);
            check(q.id <= p.id, "ascending order");
            check(q.id != p.id || q.intensity < p.intensity, "equal points keep their order");
        }
    }
    observe_points(&b);
}

/// Mutations of long ranges of many points, and of single points among many.
fn large<'a, B: BorrowedMutBuffer<'a> + 'a>(make: fn(&Model) -> B) {
    bound("buffers of 130 points, single points and ranges at several places, all bytes symbolic");
    let n = 130;
    let mut m = Model::sym(layout(choice(LAYOUTS, "layout")), n, "p");
    let mut b = make(&m);
    let (i, j) = [(0, n), (1, n - 1), (40, 120), (3, 20), (n - 1, n)][choice(5, "range")];
    let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
    match choice(6, "operation") {
        0 => {
            let ps: Vec<Vec<u8>> = (i..j).map(|_| m.fresh("new")).collect();
            unsafe { b.set_point_range(i..j, &ps.concat()) };
            m.pts.splice(i..j, ps);
        }
        1 => {
            let v = sym_bytes(r.len() * (j - i), "value");
            unsafe { b.set_attribute_range(&a, i..j, &v) };
            for k in i..j {
                m.pts[k][r.clone()].copy_from_slice(&v[(k - i) * r.len()..(k - i + 1) * r.len()]);
            }
        }
        2 => {
            for k in 0..6 {
                b.swap((i + 11 * k) % n, j - 1 - k * 7 % j);
                m.pts.swap((i + 11 * k) % n, j - 1 - k * 7 % j);
            }
        }
        3 => {
            for k in [i, (i + j) / 2, j - 1] {
                let p = m.fresh("new");
                unsafe { b.set_point(k, &p) };
                m.pts[k] = p;
                let v = sym_bytes(r.len(), "value");
                unsafe { b.set_attribute(&a, n - 1 - k, &v) };
                m.pts[n - 1 - k][r.clone()].copy_from_slice(&v);
            }
        }
        4 => {
            let ps: Vec<Vec<u8>> = (i..j).map(|_| m.fresh("new")).collect();
            let x = sym_bytes(r.len() * (j - i), "value");
            if let Some(v) = b.as_interleaved_mut() {
                v.get_point_range_mut(i..j).copy_from_slice(&ps.concat());
                m.pts.splice(i..j, ps);
            } else if let Some(v) = b.as_columnar_mut() {
                v.get_attribute_range_mut(&a, i..j).copy_from_slice(&x);
                for k in i..j {
                    m.pts[k][r.clone()].copy_from_slice(&x[(k - i) * r.len()..(k - i + 1) * r.len()]);
                }
            }
        }
        _ => {
            let am = b.point_layout().get_attribute(&a).unwrap().clone();
            let x = sym_bytes(r.len() * (j - i), "value");
            if let Some(v) = b.as_interleaved_mut() {
                let mut w = v.view_raw_attribute_mut(&am);
                for k in i..j {
                    w[k].copy_from_slice(&x[(k - i) * r.len()..(k - i + 1) * r.len()]);
                }
            } else if let Some(v) = b.as_columnar_mut() {
                let mut w = v.view_raw_attribute_mut(&am);
                for k in i..j {
                    w[k].copy_from_slice(&x[(k - i) * r.len()..(k - i + 1) * r.len()]);
                }
            }
            for k in i..j {
                m.pts[k][r.clone()].copy_from_slice(&x[(k - i) * r.len()..(k - i + 1) * r.len()]);
            }
        }
    }
    same_points(&b, &m, "many points after a mutation");
}
/// Typed writes to many points.
fn large_typed<'a, B: BorrowedMutBuffer<'a> + 'a>(make: fn(&Model) -> B) {
    let n = 130;
    let mut m = Model::sym(Al::layout(), n, "p");
    let mut b = make(&m);
    let k: u64 = sym("k");
    b.transform_attribute(&attributes::POINT_ID, |i: usize, v: u64| v.wrapping_mul(3) ^ k.wrapping_add(i as u64));
    for i in 0..n {
        let o: u64 = bytemuck::pod_read_unaligned(&m.pts[i][8..16]);
        m.pts[i][8..16].copy_from_slice(&(o.wrapping_mul(3) ^ k.wrapping_add(i as u64)).to_le_bytes());
    }
    let mut v = b.view_mut::<Al>();
    for i in (0..n).step_by(3) {
        let p: Al = sym_pod("new");
        v.set_at(i, p);
        m.pts[i] = raw(&p);
    }
    let mut v = b.view_attribute_mut::<Vector3<u16>>(&attributes::COLOR_RGB);
    for i in (0..n).step_by(2) {
        let c: Vector3<u16> = sym_pod("new");
        v.set_at(i, c);
        m.pts[i][16..22].copy_from_slice(&raw(&c));
    }
    same_points(&b, &m, "many points after typed writes");
}

harness! {
fn q_large_vector() { large(vector) }
fn q_large_hashmap() { large(columnar) }
fn q_large_external() { large(external) }
fn q_large_typed_vector() { large_typed(vector) }
fn q_large_typed_hashmap() { large_typed(columnar) }
fn q_large_typed_external() { large_typed(external) }
fn q_vector() { untyped(vector, choice(LAYOUTS, "layout"), 3) }
fn q_hashmap() { untyped(columnar, choice(LAYOUTS, "layout"), 3) }
fn q_external() { untyped(external, choice(LAYOUTS, "layout"), 3) }
fn t_vector5() { untyped(vector, choice(LAYOUTS, "layout"), 5) }
fn t_hashmap5() { untyped(columnar, choice(LAYOUTS, "layout"), 5) }
fn t_external5() { untyped(external, choice(LAYOUTS, "layout"), 5) }
fn q_typed_vector() { typed(vector) }
fn q_typed_hashmap() { typed(columnar) }
fn q_typed_external() { typed(external) }
fn q_ref_vector() { typed_ref(vector) }
fn q_ref_external() { typed_ref(external) }
fn q_ref_hashmap() {
    let mut m = Model::sym(Al::layout(), 3, "p");
    let mut b = columnar(&m);
    let i = choice(3, "index");
    match choice(2, "operation") {
        0 => {
            let c: Vector3<u16> = sym_pod("new");
            let mut v = b.view_attribute_mut::<Vector3<u16>>(&attributes::COLOR_RGB);
            *v.at_mut(i) = c;
            m.pts[i][16..22].copy_from_slice(&raw(&c));
        }
        _ => {
            let mut v = b.view_attribute_mut::<u64>(&attributes::POINT_ID);
            let mut k = 0;
            for p in v.iter_mut() {
                let old: u64 = bytemuck::pod_read_unaligned(&m.pts[k][8..16]);
                check(*p == old, "value in a mutable iteration");
                *p = old ^ (k as u64 + 1);
                m.pts[k][8..16].copy_from_slice(&(old ^ (k as u64 + 1)).to_le_bytes());
                k += 1;
            }
            check(k == 3, "number of values iterated");
        }
    }
    same_points(&b, &m, "state after a mutation by reference");
    observe_points(&b);
}
/// Two mutations in a row.
fn t_vector_twice() { twice(vector) }
fn t_hashmap_twice() { twice(columnar) }
fn t_external_twice() { twice(external) }
fn q_sort_vector() { sort_case(vector, 3) }
fn q_sort_external() { sort_case(external, 2) }
fn t_sort_vector4() { sort_case(vector, 4) }
/// Writing through a mutable borrow of caller-owned memory lands in that memory.
fn q_external_writes() {
    let mut m = Model::sym(layout(choice(LAYOUTS, "layout")), 2, "p");
    let mut mem = m.concat();
    {
        let mut b = ExternalMemoryBuffer::new(&mut mem[..], m.layout.clone());
        let op = choice(5, "operation");
        mutate(&mut b, &mut m, op);
    }
    let s = m.size();
    for k in 0..2 {
        check(m.same(&mem[k * s..(k + 1) * s], &m.pts[k]), "caller-owned memory after a write");
    }
}
}

fn twice<'a, B: BorrowedMutBuffer<'a>>(make: fn(&Model) -> B) {
    let mut m = Model::sym(layout(choice(3, "layout")), 2, "p");
    let mut b = make(&m);
    for _ in 0..2 {
        let op = choice(7, "operation");
        mutate(&mut b, &mut m, op);
    }
    same_points(&b, &m, "state after two mutations");
    observe_points(&b);
}

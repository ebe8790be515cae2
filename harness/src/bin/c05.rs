//! C05: after any history of operations an owning buffer equals the list of points the
//! history describes, and both storage layouts agree.
use pasture_core::containers::*;
use pasture_core::layout::*;
use sxh::model::*;
use sxh::*;

const OPS: usize = 11;
fn step(v: &mut VectorBuffer, h: &mut HashMapBuffer, m: &mut Model, small: bool) {
    let n = m.pts.len();
    match choice(OPS, "operation") {
        0 => {
            let k = if small { 1 } else { choice(3, "count") };
            let ps: Vec<Vec<u8>> = (0..k).map(|_| m.fresh("push")).collect();
            unsafe {
                v.push_points(&ps.concat());
                h.push_points(&ps.concat());
            }
            m.pts.extend(ps);
        }
        1 => {
            let k = choice(if small { 3 } else { 4 }, "count");
            v.resize(k);
            h.resize(k);
            m.truncate_or_grow(k);
        }
        2 => {
            v.clear();
            h.clear();
            m.pts.clear();
        }
        // append: from an interleaved or a columnar source, through each of the entry points
        op @ 3..=8 => {
            let mut o = Model::new(m.layout.clone());
            let k = if small { 1 } else { choice(3, "count") };
            for _ in 0..k {
                o.pts.push(o.fresh("other"));
            }
            let ov = vector(&o);
            let oh = columnar(&o);
            match op {
                3 => {
                    v.append(&ov);
                    h.append(&ov);
                }
                4 => {
                    v.append(&oh);
                    h.append(&oh);
                }
                5 => {
                    v.append_interleaved(&ov);
                    h.append_interleaved(&ov);
                }
                6 => {
                    v.append_columnar(&oh);
                    h.append_columnar(&oh);
                }
                7 => {
                    // a part of another buffer
                    let s = k.min(1);
                    v.append(&ov.slice(s..k));
                    h.append(&oh.slice(s..k));
                    o.pts.drain(0..s);
                }
                _ => {
                    let e = external(&o);
                    v.append_interleaved(&e);
                    h.append(&e);
                }
            }
            m.pts.extend(o.pts.iter().cloned());
        }
        9 => {
            if n == 0 {
                return;
            }
            let i = choice(n, "index");
            v.swap(0, i);
            h.swap(0, i);
            m.pts.swap(0, i);
        }
        _ => {
            if n == 0 {
                return;
            }
            let i = choice(n, "index");
            let (a, r) = m.mem[m.mem.len() - 1].clone();
            let x = sym_bytes(r.len(), "value");
            unsafe {
                v.set_attribute(&a, i, &x);
                h.set_attribute(&a, i, &x);
            }
            m.pts[i][r].copy_from_slice(&x);
        }
    }
}

fn history(lay: usize, depth: usize, start: usize, small: bool) {
    let mut m = Model::sym(layout(lay), start, "p");
    let mut v = vector(&m);
    let mut h = columnar(&m);
    for _ in 0..depth {
        step(&mut v, &mut h, &mut m, small);
        check(v.len() == m.pts.len(), "length of an interleaved buffer");
        check(h.len() == m.pts.len(), "length of a columnar buffer");
    }
    same_points(&v, &m, "an interleaved buffer after a history");
    same_points(&h, &m, "a columnar buffer after a history");
    if m.pts.len() >= 4 {
        cover("four or more points");
    }
    if m.pts.is_empty() {
        cover("an empty buffer at the end");
    }
    observe_points(&v);
    observe_points(&h);
}

/// Histories of bulk operations: pushes, appends and resizes of many points.
fn bulk(lay: usize, steps: usize) {
    bound("histories of bulk operations: pushes, appends and resizes of 5 to 100 points, all bytes symbolic");
    let mut m = Model::sym(layout(lay), 3, "p");
    let mut v = vector(&m);
    let mut h = columnar(&m);
    for s in 0..steps {
        let k = [100, 37, 16][s % 3];
        let mut o = Model::sym(m.layout.clone(), k, "other");
        let op = choice(8, "operation");
        if op < 6 {
            let ov = vector(&o);
            let oh = columnar(&o);
            match op {
                0 => unsafe {
                    v.push_points(&o.concat());
                    h.push_points(&o.concat());
                },
                1 => {
                    v.append(&oh);
                    h.append(&ov);
                }
                2 => {
                    v.append(&ov);
                    h.append(&oh);
                }
                3 => {
                    v.append_interleaved(&ov);
                    h.append_interleaved(&ov);
                }
                4 => {
                    v.append_columnar(&oh);
                    h.append_columnar(&oh);
                }
                _ => {
                    v.append(&oh.slice(2..k - 1));
                    h.append(&ov.slice(2..k - 1));
                    o.pts.drain(k - 1..);
                    o.pts.drain(0..2);
                }
            }
            m.pts.extend(o.pts);
        } else {
            let to = if op == 6 { m.pts.len() / 2 + 1 } else { m.pts.len() + k };
            v.resize(to);
            h.resize(to);
            m.truncate_or_grow(to);
        }
        check(v.len() == m.pts.len() && h.len() == m.pts.len(), "length after a bulk operation");
    }
    same_points(&v, &m, "an interleaved buffer after bulk operations");
    same_points(&h, &m, "a columnar buffer after bulk operations");
}

harness! {
fn q_bulk_padded() { bulk(1, 2) }
fn q_bulk_reordered() { bulk(3, 2) }
fn q_bulk_byte() { bulk(4, 2) }
fn q_bulk_layouts() { bulk(choice(LAYOUTS, "layout"), 1) }
fn t_bulk3() { bulk(choice(LAYOUTS, "layout"), 3) }
fn q_history_padded() { bound("histories of 2 operations over 11 kinds, starting from 0 or 1 points (one operation over 6 layouts)"); history(1, 2, choice(2, "start"), false) }
fn q_history_reordered() { history(3, 2, 1, true) }
fn q_history_blobs() { history(2, 2, 1, true) }
fn q_layouts() { history(choice(LAYOUTS, "layout"), 1, 2, false) }
fn q_history3() { bound("histories of 3 operations with single-point pushes"); history(4, 3, 1, true) }
fn t_history3_padded() { history(1, 3, 1, true) }
fn t_history3_reordered() { history(3, 3, 1, true) }
fn t_history4() { bound("histories of 4 operations"); history(4, 4, 0, true) }
/// A layout may also start out with reserved capacity; nothing observable changes.
fn q_with_capacity() {
    let k = choice(LAYOUTS, "layout");
    let mut m = Model::new(layout(k));
    let c = choice(3, "capacity");
    let mut v = VectorBuffer::with_capacity(c, m.layout.clone());
    let mut h = HashMapBuffer::with_capacity(c, m.layout.clone());
    check(v.len() == 0 && h.len() == 0 && v.is_empty() && h.is_empty(), "a new buffer is empty");
    for _ in 0..2 {
        let p = m.fresh("p");
        unsafe {
            v.push_points(&p);
            h.push_points(&p);
        }
        m.pts.push(p);
    }
    all_reads(&v, &m, "buffer with capacity");
    all_reads(&h, &m, "buffer with capacity");
}
/// Cloned buffers are equal and independent; equality means equal contents.
fn q_clone_eq() {
    let mut m = Model::sym(layout(choice(3, "layout")), 2, "p");
    let v = vector(&m);
    let h = columnar(&m);
    let mut v2 = v.clone();
    let mut h2 = h.clone();
    check(v == v2, "a clone is equal");
    check(h == h2, "a clone is equal");
    let old = m.clone();
    let i = choice(2, "index");
    let p = m.fresh("new");
    unsafe {
        v2.set_point(i, &p);
        h2.set_point(i, &p);
    }
    m.pts[i] = p;
    same_points(&v, &old, "the original of a mutated clone");
    same_points(&h, &old, "the original of a mutated clone");
    same_points(&v2, &m, "a mutated clone");
    same_points(&h2, &m, "a mutated clone");
    let same = m.same(&old.pts[i], &m.pts[i]);
    check((v == v2) == same, "equality of interleaved buffers");
    check((h == h2) == same, "equality of columnar buffers");
    unsafe { v2.push_points(&m.pts[0]) };
    unsafe { h2.push_points(&m.pts[0]) };
    check(v != v2 && h != h2, "buffers of different length differ");
}
/// Typed pushing through a view.
fn q_push_typed() {
    let mut m = Model::sym(Al::layout(), choice(2, "start"), "p");
    let mut v = vector(&m);
    let mut h = columnar(&m);
    for _ in 0..2 {
        let p: Al = sym_pod("p");
        v.view_mut::<Al>().push_point(p);
        h.view_mut::<Al>().push_point(p);
        m.pts.push(raw(&p));
    }
    same_points(&v, &m, "points pushed through a view");
    same_points(&h, &m, "points pushed through a view");
}
/// Columns appended by attribute between other operations.
fn q_push_columns() {
    use attributes::*;
    let mut m = Model::sym(layout(1), choice(2, "start"), "p");
    let mut h = columnar(&m);
    let n = choice(3, "count");
    let c: Vec<u8> = (0..n).map(|_| sym("c")).collect();
    let g: Vec<f64> = (0..n).map(|_| sym("g")).collect();
    let i: Vec<u16> = (0..n).map(|_| sym("i")).collect();
    {
        let mut p = h.begin_push_attributes();
        p.push_attribute_range(&INTENSITY, &i);
        p.push_attribute_range(&CLASSIFICATION, &c);
        p.push_attribute_range(&GPS_TIME, &g);
        if sym_bool("done") {
            p.done();
            for k in 0..n {
                let mut r = vec![0u8; m.size()];
                for (a, rg) in &m.mem {
                    let b = if *a == INTENSITY { raw(&i[k]) } else if *a == CLASSIFICATION { raw(&c[k]) } else { raw(&g[k]) };
                    r[rg.clone()].copy_from_slice(&b);
                }
                m.pts.push(r);
            }
        }
    }
    same_points(&h, &m, "after pushing columns");
    let p = m.fresh("p");
    unsafe { h.push_points(&p) };
    m.pts.push(p);
    same_points(&h, &m, "after pushing columns and a point");
    observe_points(&h);
}
/// An attribute may be pushed in several parts only if all attributes end up equally long.
fn q_push_columns_twice() {
    use attributes::*;
    let mut m = Model::sym(layout(4), 1, "p");
    let mut h = columnar(&m);
    let c: [u8; 2] = sym_arr("c");
    let mut p = h.begin_push_attributes();
    p.push_attribute_range(&CLASSIFICATION, &c);
    // a refusal is fine, a buffer whose length and contents disagree is not
    expect_panic(true);
    p.push_attribute_range(&CLASSIFICATION, &c);
    p.done();
    expect_panic(false);
    for _ in 0..2 {
        m.pts.push(vec![c[0]]);
        m.pts.push(vec![c[1]]);
    }
    same_points(&h, &m, "after pushing a column in two parts");
    let q = m.fresh("p");
    unsafe { h.push_points(&q) };
    m.pts.push(q);
    same_points(&h, &m, "after pushing a column in two parts and a point");
}
/// Points without any attribute.
fn q_empty_layout() {
    let l = PointLayout::default();
    let mut v = VectorBuffer::new_from_layout(l.clone());
    let mut h = HashMapBuffer::new_from_layout(l.clone());
    unsafe {
        v.push_points(&[]);
        h.push_points(&[]);
    }
    check(v.len() == 0 && h.len() == 0, "no points without attributes");
    v.append(&h);
    h.append_interleaved(&v);
    h.append_columnar(&h.clone());
    v.append_interleaved(&v.clone());
    v.append_columnar(&h);
    check(v.len() == 0 && h.len() == 0, "no points without attributes");
    let e = ExternalMemoryBuffer::new(vec![0u8; 0], l);
    check(e.len() == 0, "no points without attributes");
}
}

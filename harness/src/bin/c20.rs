//! C20: filtering a columnar buffer.
use pasture_core::containers::*;
use pasture_core::layout::*;
use sxh::model::*;
use sxh::*;

/// What the filter is to give.
fn selected(m: &Model, keep: &[bool]) -> Model {
    let mut r = Model::new(m.layout.clone());
    for (p, k) in m.pts.iter().zip(keep) {
        if *k {
            r.pts.push(p.clone());
        }
    }
    r
}
/// An arbitrary predicate on 0..n, as a table of symbolic answers.
fn predicate(n: usize) -> Vec<bool> {
    (0..n).map(|_| sym::<u8>("keep") & 1 == 1).collect()
}
fn whole(n: usize) {
    let m = Model::sym(layout(choice(LAYOUTS, "layout")), choice(n + 1, "points"), "point");
    let keep = predicate(m.pts.len());
    let b = columnar(&m);
    if choice(2, "target") == 0 {
        let r = b.filter::<VectorBuffer, _>(|i| keep[i]);
        let e = selected(&m, &keep);
        all_reads(&r, &e, "filtered into an interleaved buffer");
        observe_points(&r);
    } else {
        let r = b.filter::<HashMapBuffer, _>(|i| keep[i]);
        let e = selected(&m, &keep);
        all_reads(&r, &e, "filtered into a columnar buffer");
        observe_points(&r);
    }
    same_points(&b, &m, "the source changes");
}
/// Into a buffer that has points.
fn into(n: usize) {
    let m = Model::sym(layout(choice(LAYOUTS, "layout")), choice(n + 1, "points"), "point");
    let keep = predicate(m.pts.len());
    let b = columnar(&m);
    let e = selected(&m, &keep);
    let k = e.pts.len();
    let mut t = Model::sym(m.layout.clone(), k + choice(3, "more"), "target");
    let hint = if sym_bool("hint") { Some(k) } else { None };
    let which = choice(4, "target");
    let before = t.clone();
    for i in 0..k {
        t.pts[i] = e.pts[i].clone();
    }
    let f = |i: usize| keep[i];
    match which {
        0 => {
            let mut r = vector(&before);
            b.filter_into(&mut r, f, hint);
            same_points(&r, &t, "filtered into an interleaved buffer");
        }
        1 => {
            let mut r = columnar(&before);
            b.filter_into(&mut r, f, hint);
            same_points(&r, &t, "filtered into a columnar buffer");
        }
        2 => {
            let mut r = external(&before);
            b.filter_into(&mut r, f, hint);
            same_points(&r, &t, "filtered into external memory");
        }
        _ => {
            // bytes between the attributes stay as they are, too
            let mut v = VectorBuffer::new_from_layout(m.layout.clone());
            let fill = vec![0xEEu8; m.size() * before.pts.len()];
            unsafe { v.push_points(&fill) };
            b.filter_into(&mut v, f, hint);
            check(v.len() == before.pts.len(), "number of points");
            for i in 0..v.len() {
                let mut d = vec![0u8; m.size()];
                v.get_point(i, &mut d);
                for p in 0..m.size() {
                    let member = m.mem.iter().any(|(_, r)| r.contains(&p));
                    let x = if member && i < k { e.pts[i][p] } else { 0xEE };
                    check(d[p] == x, "a byte of the target");
                }
            }
        }
    }
    same_points(&b, &m, "the source changes");
}

/// Many points: all but one, all but a stretch, and only a stretch of them.
fn large(n: usize) {
    bound("buffers of 70 points of 6 layouts with all bytes symbolic; predicates that keep or drop one stretch, or every other point");
    let m = Model::sym(layout(choice(LAYOUTS, "layout")), n, "point");
    let (i, j) = [(0, 0), (0, 1), (n - 1, n), (5, 40), (31, 33), (0, n), (1, n - 1)][choice(7, "stretch")];
    let keep: Vec<bool> = match choice(3, "predicate") {
        0 => (0..n).map(|k| i <= k && k < j).collect(),
        1 => (0..n).map(|k| !(i <= k && k < j)).collect(),
        _ => (0..n).map(|k| (i + k) % 2 == 0 || k < j / 2).collect(),
    };
    let b = columnar(&m);
    let e = selected(&m, &keep);
    same_points(&b.filter::<VectorBuffer, _>(|i| keep[i]), &e, "many points filtered into an interleaved buffer");
    same_points(&b.filter::<HashMapBuffer, _>(|i| keep[i]), &e, "many points filtered into a columnar buffer");
    same_points(&b, &m, "the source changes");
}

harness! {
    fn q_large() { large(70) }
    fn q_huge() {
        bound("buffers of 300 points with one attribute of symbolic values; predicates that keep or drop one of 5 stretches");
        let n = 300;
        let m = Model::sym(layout(4), n, "point");
        let (i, j) = [(0, 129), (120, 290), (255, 257), (299, 300), (1, 300)][choice(5, "stretch")];
        let drop = sym_bool("drop");
        let keep: Vec<bool> = (0..n).map(|k| (i <= k && k < j) != drop).collect();
        let b = columnar(&m);
        let e = selected(&m, &keep);
        same_points(&b.filter::<VectorBuffer, _>(|i| keep[i]), &e, "many points filtered into an interleaved buffer");
        same_points(&b.filter::<HashMapBuffer, _>(|i| keep[i]), &e, "many points filtered into a columnar buffer");
    }
    fn q_whole() {
        bound("buffers of up to 3 points of 6 layouts with all bytes symbolic, every predicate");
        whole(3)
    }
    fn q_into() {
        bound("buffers of up to 2 points of 6 layouts with all bytes symbolic, every predicate, up to 2 more points in the target");
        into(2)
    }
    fn q_long() {
        bound("buffers of 5 points with one attribute, every predicate");
        let m = Model::sym(layout(4), 5, "point");
        let keep = predicate(5);
        let b = columnar(&m);
        let r = b.filter::<VectorBuffer, _>(|i| keep[i]);
        let s = b.filter::<HashMapBuffer, _>(|i| keep[i]);
        let e = selected(&m, &keep);
        same_points(&r, &e, "filtered into an interleaved buffer");
        same_points(&s, &e, "filtered into a columnar buffer");
    }
    fn q_chained() {
        bound("filtering twice, 3 points of 6 layouts");
        let m = Model::sym(layout(choice(LAYOUTS, "layout")), 3, "point");
        let (k1, k2) = (predicate(3), predicate(3));
        let b = columnar(&m);
        let r = b.filter::<HashMapBuffer, _>(|i| k1[i]).filter::<VectorBuffer, _>(|i| k2[i]);
        let e = selected(&selected(&m, &k1), &k2);
        same_points(&r, &e, "filtered twice");
    }
    fn q_refused() {
        bound("targets that are too short or have another layout, up to 3 points");
        let m = Model::sym(layout(choice(LAYOUTS, "layout")), choice(4, "points"), "point");
        let keep = predicate(m.pts.len());
        let b = columnar(&m);
        let k = selected(&m, &keep).pts.len();
        if choice(2, "case") == 0 {
            assume(k > 0);
            let short = Model::sym(m.layout.clone(), choice(k, "short"), "target");
            cover("a target that is too short");
            let col = sym_bool("columnar");
            must_panic("a target that is too short", || {
                if col { b.filter_into(&mut columnar(&short), |i| keep[i], None) } else { b.filter_into(&mut vector(&short), |i| keep[i], None) }
            });
        } else {
            let l = layout(choice(LAYOUTS, "other"));
            assume(l != m.layout);
            let t = Model::sym(l, 3, "target");
            cover("a target of another layout");
            let col = sym_bool("columnar");
            must_panic("a target of another layout", || {
                if col { b.filter_into(&mut columnar(&t), |i| keep[i], None) } else { b.filter_into(&mut vector(&t), |i| keep[i], None) }
            });
        }
    }
    fn t_whole() {
        bound("buffers of up to 5 points of 6 layouts with all bytes symbolic, every predicate");
        whole(5)
    }
    fn t_into() {
        bound("buffers of up to 4 points of 6 layouts with all bytes symbolic, every predicate, up to 2 more points in the target");
        into(4)
    }
}

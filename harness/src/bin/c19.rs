//! C19: untyped points.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use std::borrow::Cow;
use std::io::{Read, Seek, SeekFrom, Write};
use sxh::model::*;
use sxh::*;
use PointAttributeDataType as D;

fn at(name: &'static str, t: D) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), t)
}
fn d<T: PrimitiveType>() -> D {
    T::data_type()
}
fn scalars(packed: bool) -> PointLayout {
    let a = [
        at("a", d::<u8>()), at("b", d::<i64>()), at("c", d::<u16>()), at("d", d::<f64>()), at("e", d::<i8>()),
        at("f", d::<u32>()), at("g", d::<i16>()), at("h", d::<f32>()), at("i", d::<u64>()), at("j", d::<i32>()),
    ];
    if packed { PointLayout::from_attributes_packed(&a, 1) } else { PointLayout::from_attributes(&a) }
}
fn vectors(packed: bool) -> PointLayout {
    let a = [
        at("a", d::<Vector3<u8>>()), at("b", d::<Vector3<f64>>()), at("c", d::<Vector3<u16>>()), at("d", d::<Vector4<u8>>()),
        at("e", d::<Vector3<f32>>()), at("f", d::<Vector3<i32>>()),
    ];
    if packed { PointLayout::from_attributes_packed(&a, 1) } else { PointLayout::from_attributes(&a) }
}
/// Reading every attribute raw.
fn raw_reads<P: UntypedPoint>(p: &P, m: &Model, now: &[u8]) {
    check(bytes_eq(p.get_buffer(), now), "the bytes of the point");
    check(*p.get_layout() == m.layout, "the layout of the point");
    for (a, r) in &m.mem {
        match p.get_raw_attribute(a) {
            Ok(b) => check(bytes_eq(b, &now[r.clone()]), "a raw attribute"),
            Err(_) => check(false, "an attribute of the layout was refused"),
        }
    }
}
/// Everything one can do to a point, one operation at a time, from unconstrained bytes.
macro_rules! typed { ($p:ident, $m:ident, $($n:literal $t:ty),*) => {{
    $( {
        let (a, r) = $m.mem.iter().find(|x| x.0.name() == $n).unwrap().clone();
        let mut now = $p.get_buffer().to_vec();
        let v: $t = $p.get_attribute::<$t>(&a).expect("a typed read");
        check(bytes_eq(bytemuck::bytes_of(&v), &now[r.clone()]), "a typed read");
        let w: $t = sym_pod("value");
        check($p.set_attribute::<$t>(&a, &w).is_ok(), "a typed write");
        now[r.clone()].copy_from_slice(bytemuck::bytes_of(&w));
        raw_reads(&$p, &$m, &now);
        let b = $p.get_attribute::<$t>(&a).expect("a typed read");
        check(bytes_eq(bytemuck::bytes_of(&b), bytemuck::bytes_of(&w)), "a value reads back");
    } )*
}} }
macro_rules! scalar_ops { ($p:ident, $m:ident) => {{
    let t0 = $p.get_buffer().to_vec();
    raw_reads(&$p, &$m, &t0);
    typed!($p, $m, "a" u8, "b" i64, "c" u16, "d" f64, "e" i8, "f" u32, "g" i16, "h" f32, "i" u64, "j" i32);
}} }
macro_rules! vector_ops { ($p:ident, $m:ident) => {{
    let t0 = $p.get_buffer().to_vec();
    raw_reads(&$p, &$m, &t0);
    typed!($p, $m, "a" Vector3<u8>, "b" Vector3<f64>, "c" Vector3<u16>, "d" Vector4<u8>, "e" Vector3<f32>, "f" Vector3<i32>);
}} }
/// An owned point with the given bytes (through its cursor).
fn owned<'a>(l: &'a PointLayout, b: &[u8]) -> UntypedPointBuffer<'a> {
    let mut p = UntypedPointBuffer::new(l);
    check(p.get_buffer().len() == b.len(), "the size of a new point");
    check(p.get_buffer().iter().all(|x| *x == 0), "a new point is zeroed");
    check(p.get_cursor().write_all(b).is_ok(), "writing all bytes");
    p
}
/// Raw access in any layout.
fn raw_ops<P: UntypedPoint>(p: &mut P, m: &Model, start: &[u8]) {
    let mut now = start.to_vec();
    raw_reads(p, m, &now);
    let k = choice(m.mem.len(), "attribute");
    let (a, r) = m.mem[k].clone();
    // through a mutable reference
    let w = sym_bytes(r.len(), "value");
    match p.get_raw_attribute_mut(&a) {
        Ok(b) => {
            check(bytes_eq(b, &now[r.clone()]), "a mutable raw attribute");
            b.copy_from_slice(&w);
        }
        Err(_) => check(false, "an attribute of the layout was refused"),
    }
    now[r.clone()].copy_from_slice(&w);
    raw_reads(p, m, &now);
    // by value
    let w = sym_bytes(r.len(), "value");
    check(p.set_raw_attribute(&a, &w).is_ok(), "setting a raw attribute");
    now[r.clone()].copy_from_slice(&w);
    raw_reads(p, m, &now);
    // through the cursor, at any place
    let s = now.len();
    let o = choice(s, "position");
    let x: u8 = sym("value");
    {
        let mut c = p.get_cursor();
        check(c.seek(SeekFrom::Start(o as u64)).is_ok(), "seeking");
        check(c.write_all(&[x]).is_ok(), "writing through the cursor");
        check(c.position() == o as u64 + 1, "position of the cursor");
    }
    now[o] = x;
    raw_reads(p, m, &now);
    {
        let mut c = p.get_cursor();
        c.set_position(o as u64);
        let mut rest = vec![];
        check(c.read_to_end(&mut rest).is_ok(), "reading through the cursor");
        check(bytes_eq(&rest, &now[o..]), "reading through the cursor");
        // nothing behind the end
        check(c.write_all(&[1]).is_err(), "writing behind the end");
    }
    raw_reads(p, m, &now);
}
/// Values read or written as another type are converted.
macro_rules! converted { ($p:ident, $m:ident, $($n:literal $f:ty => $t:ty),*) => {{
    $( {
        let (a, r) = $m.mem.iter().find(|x| x.0.name() == $n).unwrap().clone();
        let mut now = $p.get_buffer().to_vec();
        let stored: $f = bytemuck::pod_read_unaligned(&now[r.clone()]);
        let v: $t = $p.get_attribute::<$t>(&a).expect("a converted read");
        check(v == stored as $t, "a converted read");
        raw_reads(&$p, &$m, &now);
        let w: $t = sym("value");
        check($p.set_attribute::<$t>(&a, &w).is_ok(), "a converted write");
        now[r.clone()].copy_from_slice(bytemuck::bytes_of(&(w as $f)));
        raw_reads(&$p, &$m, &now);
    } )*
}} }
/// Attributes the point does not have: errors, and no byte changes.
fn strangers<P: UntypedPoint>(p: &mut P, m: &Model) {
    let now = p.get_buffer().to_vec();
    let other = [at("z", d::<u8>()), at("a", d::<u16>()), at("A", d::<u8>()), at("", d::<u8>()), at("a", D::ByteArray(1)), at("b", d::<u64>())];
    let a = &other[choice(other.len(), "stranger")];
    check(p.get_raw_attribute(a).is_err(), "an attribute that is not in the layout was read");
    check(p.get_raw_attribute_mut(a).is_err(), "an attribute that is not in the layout was lent");
    let z = a.size() as usize;
    check(p.set_raw_attribute(a, &sym_bytes(z, "value")).is_err(), "an attribute that is not in the layout was set");
    // (a type without any conversion is refused with a panic)
    if a.datatype() != D::ByteArray(1) {
        check(p.get_attribute::<u8>(a).is_err(), "an attribute that is not in the layout was read");
        check(p.get_attribute::<u16>(a).is_err(), "an attribute that is not in the layout was read");
        check(p.set_attribute::<u8>(a, &sym::<u8>("value")).is_err(), "an attribute that is not in the layout was set");
    }
    raw_reads(p, m, &now);
}

harness! {
    fn q_owned_scalars() {
        bound("all values of all types, packed and padded layouts");
        let l = scalars(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut p = owned(&l, &m.pts[0]);
        scalar_ops!(p, m);
        observe_bytes(p.get_buffer());
    }
    fn q_owned_vectors() {
        bound("all values of all types, packed and padded layouts");
        let l = vectors(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut p = owned(&l, &m.pts[0]);
        vector_ops!(p, m);
        observe_bytes(p.get_buffer());
    }
    fn q_borrowed_scalars() {
        bound("all values of all types, packed and padded layouts");
        let l = scalars(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut mem = m.pts[0].clone();
        let mut p = UntypedPointSlice::new(&l, &mut mem);
        scalar_ops!(p, m);
        observe_bytes(p.get_buffer());
    }
    fn q_borrowed_vectors() {
        bound("all values of all types, packed and padded layouts");
        let l = vectors(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut mem = m.pts[0].clone();
        let mut p = UntypedPointSlice::new(&l, &mut mem);
        vector_ops!(p, m);
        observe_bytes(p.get_buffer());
    }
    fn q_owned_raw() {
        bound("every attribute and every byte position of a point of 6 layouts with all bytes symbolic");
        let l = layout(choice(LAYOUTS, "layout"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut p = owned(&l, &m.pts[0]);
        raw_ops(&mut p, &m, &m.pts[0]);
    }
    fn q_borrowed_raw() {
        bound("every attribute and every byte position of a point of 6 layouts with all bytes symbolic");
        let l = layout(choice(LAYOUTS, "layout"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut mem = m.pts[0].clone();
        let mut p = UntypedPointSlice::new(&l, &mut mem);
        raw_ops(&mut p, &m, &m.pts[0]);
        // the borrowed memory is the point
        let now = p.get_buffer().to_vec();
        drop(p);
        check(bytes_eq(&mem, &now), "a write reaches the borrowed memory");
    }
    fn q_converted() {
        bound("a catalogue of type pairs with all values");
        let l = scalars(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        if sym_bool("owned") {
            let mut p = owned(&l, &m.pts[0]);
            converted!(p, m, "a" u8 => u64, "b" i64 => i32, "c" u16 => i16, "e" i8 => u32, "f" u32 => i64, "g" i16 => u8, "i" u64 => u16, "j" i32 => i8);
        } else {
            let mut mem = m.pts[0].clone();
            let mut p = UntypedPointSlice::new(&l, &mut mem);
            converted!(p, m, "a" u8 => u64, "b" i64 => i32, "c" u16 => i16, "e" i8 => u32, "f" u32 => i64, "g" i16 => u8, "i" u64 => u16, "j" i32 => i8);
        }
    }
    fn q_strangers() {
        bound("attributes of other names and types");
        let l = scalars(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let mut mem = m.pts[0].clone();
        if sym_bool("owned") {
            strangers(&mut owned(&l, &m.pts[0]), &m);
        } else {
            strangers(&mut UntypedPointSlice::new(&l, &mut mem), &m);
            check(m.same(&mem, &m.pts[0]), "a refused request changes the memory");
        }
    }
    fn q_wrong_sizes() {
        bound("raw values of every size up to 12 for every attribute");
        let l = layout(choice(LAYOUTS, "layout"));
        let m = Model::sym(l.clone(), 1, "point");
        let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
        let z = choice(13, "size");
        assume(z != r.len());
        cover("a value of the wrong size");
        let w = sym_bytes(z, "value");
        let mut mem = m.pts[0].clone();
        let own = sym_bool("owned");
        // a panic or an error
        expect_panic(true);
        let e = if own { owned(&l, &m.pts[0]).set_raw_attribute(&a, &w).is_err() } else { UntypedPointSlice::new(&l, &mut mem).set_raw_attribute(&a, &w).is_err() };
        expect_panic(false);
        check(e, "a value of the wrong size was accepted");
    }
    fn q_incompatible() {
        bound("a catalogue of types without a conversion");
        let l = vectors(sym_bool("packed"));
        let m = Model::sym(l.clone(), 1, "point");
        let a = m.mem[choice(m.mem.len(), "attribute")].0.clone();
        let own = sym_bool("owned");
        let set = sym_bool("set");
        let mut mem = m.pts[0].clone();
        let x: f64 = sym("value");
        expect_panic(true);
        let e = match (own, set) {
            (true, true) => owned(&l, &m.pts[0]).set_attribute::<f64>(&a, &x).is_err(),
            (true, false) => owned(&l, &m.pts[0]).get_attribute::<f64>(&a).is_err(),
            (false, true) => UntypedPointSlice::new(&l, &mut mem).set_attribute::<f64>(&a, &x).is_err(),
            (false, false) => UntypedPointSlice::new(&l, &mut mem).get_attribute::<f64>(&a).is_err(),
        };
        expect_panic(false);
        check(e, "a type that does not fit was accepted");
    }
    fn q_short_memory() {
        bound("borrowed memory of every size up to that of the point, 6 layouts");
        let l = layout(choice(LAYOUTS, "layout"));
        let m = Model::sym(l.clone(), 1, "point");
        let n = choice(m.size() + 1, "memory");
        let (a, r) = m.mem[choice(m.mem.len(), "attribute")].clone();
        let w = sym_bytes(r.len(), "value");
        // exactly n bytes, so that an access behind them is a memory error
        let mut mem = m.pts[0][..n].to_vec().into_boxed_slice();
        let mut p = UntypedPointSlice::new(&l, &mut mem);
        if r.end <= n {
            cover("the attribute is in the memory");
            check(matches!(p.get_raw_attribute(&a), Ok(b) if bytes_eq(b, &m.pts[0][r.clone()])), "an attribute in the memory");
            check(p.set_raw_attribute(&a, &w).is_ok(), "an attribute in the memory");
            for k in 0..n {
                let e = if k >= r.start && k < r.end { w[k - r.start] } else { m.pts[0][k] };
                check(mem[k] == e, "the memory behind a write");
            }
        } else {
            cover("the attribute is not in the memory");
            check(p.get_raw_attribute(&a).is_err(), "memory that is too small was read");
            check(p.get_raw_attribute_mut(&a).is_err(), "memory that is too small was lent");
            check(p.set_raw_attribute(&a, &w).is_err(), "memory that is too small was written");
            check(bytes_eq(&mem, &m.pts[0][..n]), "a refused request changes the memory");
        }
    }
}

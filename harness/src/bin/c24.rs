//! C24: 3D Tiles point clouds. pasture-io as a whole cannot be built here
//! (LAS needs crates that are missing), so these modules of it are compiled as part of the harness.
#![allow(dead_code, unused_imports)]
mod base {
    #[path = "/repo/pasture-io/src/base/reader.rs"]
    mod reader;
    #[path = "/repo/pasture-io/src/base/seek.rs"]
    mod seek;
    #[path = "/repo/pasture-io/src/base/writer.rs"]
    mod writer;
    pub use {reader::*, seek::*, writer::*};
}
#[path = "/repo/pasture-io/src/ascii/mod.rs"]
mod ascii;
#[path = "/repo/pasture-io/src/tiles3d/mod.rs"]
mod tiles3d;

use base::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::{Vector3, Vector4};
use std::borrow::Cow;
use std::io::{Cursor, Seek, SeekFrom};
use sxh::model::*;
use sxh::*;
use tiles3d::{PntsReader, PntsWriter, PntsReadPositionsMode};

/// Layouts of the points written.
fn wlayout(k: usize) -> PointLayout {
    use attributes::*;
    use PointAttributeDataType::*;
    let pos = POSITION_3D.with_custom_datatype(Vec3f32);
    let rgb = COLOR_RGB.with_custom_datatype(Vec3u8);
    let rgba = tiles3d::attributes::COLOR_RGBA;
    match k {
        0 => PointLayout::from_attributes(&[pos]),
        1 => PointLayout::from_attributes(&[POSITION_3D, COLOR_RGB]),
        2 => PointLayout::from_attributes(&[CLASSIFICATION, pos, rgb, INTENSITY, NORMAL]),
        3 => PointLayout::from_attributes_packed(&[rgba, NORMAL, pos], 1),
        4 => PointLayout::from_attributes_packed(&[rgb, NORMAL.with_custom_datatype(Vec3f64), POSITION_3D], 1),
        _ => PointLayout::from_attributes(&[rgb, INTENSITY]),
    }
}
const WLAYOUTS: usize = 6;

/// The data type in the file.
fn stored(a: &PointAttributeDefinition) -> Option<PointAttributeDataType> {
    use PointAttributeDataType::*;
    match a.name() {
        "Position3D" => Some(Vec3f32),
        "ColorRGB" => Some(Vec3u8),
        "ColorRGBA" => Some(Vec4u8),
        "Normal" => Some(Vec3f32),
        _ => None,
    }
}
fn semantic(a: &PointAttributeDefinition) -> &'static str {
    match a.name() {
        "Position3D" => "POSITION",
        "ColorRGB" => "RGB",
        "ColorRGBA" => "RGBA",
        _ => "NORMAL",
    }
}
/// The same numbers in another type.
fn conv(b: &[u8], from: PointAttributeDataType, to: PointAttributeDataType) -> Vec<u8> {
    use PointAttributeDataType::*;
    if from == to {
        return b.to_vec();
    }
    let f64s = |b: &[u8]| -> Vec<f64> { b.chunks(8).map(|c| f64::from_le_bytes(c.try_into().unwrap())).collect() };
    let f32s = |b: &[u8]| -> Vec<f32> { b.chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect() };
    match (from, to) {
        (Vec3f64, Vec3f32) => f64s(b).iter().flat_map(|v| (*v as f32).to_le_bytes()).collect(),
        (Vec3f32, Vec3f64) => f32s(b).iter().flat_map(|v| (*v as f64).to_le_bytes()).collect(),
        (Vec3u16, Vec3u8) => vec![b[0], b[2], b[4]],
        (Vec3u8, Vec3u16) => vec![b[0], 0, b[1], 0, b[2], 0],
        _ => unreachable!(),
    }
}
/// Equality of values: not-a-number equals any other.
fn same_value(a: &[u8], b: &[u8], t: PointAttributeDataType) -> bool {
    use PointAttributeDataType::*;
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    match t {
        Vec3f32 => {
            for (x, y) in a.chunks(4).zip(b.chunks(4)) {
                let (p, q) = (f32::from_le_bytes(x.try_into().unwrap()), f32::from_le_bytes(y.try_into().unwrap()));
                ok = ok & (bytes_eq(x, y) | ((p != p) & (q != q)));
            }
        }
        Vec3f64 => {
            for (x, y) in a.chunks(8).zip(b.chunks(8)) {
                let (p, q) = (f64::from_le_bytes(x.try_into().unwrap()), f64::from_le_bytes(y.try_into().unwrap()));
                ok = ok & (bytes_eq(x, y) | ((p != p) & (q != q)));
            }
        }
        _ => ok = bytes_eq(a, b),
    }
    ok
}
fn attr_of<'x>(m: &'x Model, name: &str) -> Option<&'x (PointAttributeDefinition, std::ops::Range<usize>)> {
    m.mem.iter().find(|(a, _)| a.name() == name)
}

/// Takes at most some bytes in a call, as files and sockets may.
struct Short {
    to: Cursor<Vec<u8>>,
    most: usize,
}
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.most);
        self.to.write(&b[..n])
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Seek for Short {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.to.seek(p)
    }
}

fn part(m: &Model, r: std::ops::Range<usize>) -> Model {
    Model { layout: m.layout.clone(), mem: m.mem.clone(), pts: m.pts[r].to_vec() }
}
/// The file with the points of `m`, written in two parts.
fn written(m: &Model, split: usize, cols: bool, center: Option<Vector3<f64>>) -> Vec<u8> {
    let mut file = Cursor::new(vec![]);
    {
        let mut w = PntsWriter::from_write_and_layout(&mut file, m.layout.clone());
        if let Some(c) = center {
            w.set_rtc_center(c);
        }
        for r in [0..split, split..m.pts.len()] {
            let p = part(m, r);
            let ok = if cols { w.write(&columnar(&p)).is_ok() } else { w.write(&vector(&p)).is_ok() };
            check(ok, "writing fails");
        }
        check(w.flush().is_ok(), "flushing fails");
    }
    file.into_inner()
}
fn open(f: &[u8]) -> PntsReader<Cursor<Vec<u8>>> {
    let r = PntsReader::from_read(Cursor::new(f.to_vec()));
    check(r.is_ok(), "the file written cannot be opened");
    r.unwrap()
}
/// Everything stored of `m` is in `b`, beginning at its first point, from point `from` on.
fn holds<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model, from: usize, n: usize, what: &str) {
    let tl = b.point_layout().clone();
    for t in tl.attributes() {
        if let Some((a, r)) = attr_of(m, t.name()) {
            let s = match stored(a) {
                Some(s) => s,
                None => continue,
            };
            for i in 0..n {
                let want = conv(&conv(&m.pts[from + i][r.clone()], a.datatype(), s), s, t.datatype());
                let mut got = vec![0x5Au8; want.len()];
                b.get_attribute(t.attribute_definition(), i, &mut got);
                check(same_value(&got, &want, t.datatype()), what);
            }
        }
    }
}
fn le32(b: &[u8], at: usize) -> usize {
    u32::from_le_bytes(b[at..at + 4].try_into().unwrap()) as usize
}

harness! {
    fn q_round_trip() {
        bound("up to 3 symbolic points of 6 layouts, in one or two writes, from rows and columns");
        let l = wlayout(choice(WLAYOUTS, "layout"));
        let n = choice(3, "points") + 1;
        let m = Model::sym(l, n, "point");
        let f = written(&m, choice(n + 1, "first write"), sym_bool("columns"), None);
        let mut r = open(&f);
        check(r.get_metadata().number_of_points() == Some(n), "number of points in the metadata");
        let dl = r.get_default_point_layout().clone();
        let mut k = 0;
        for (a, _) in &m.mem {
            if let Some(s) = stored(a) {
                k += 1;
                let g = dl.get_attribute_by_name(a.name());
                check(g.map_or(false, |g| g.datatype() == s), "an attribute of the file");
            }
        }
        check(dl.attributes().count() == k, "attributes of the file");
        let more = choice(2, "beyond the end");
        let b: VectorBuffer = r.read(n + more).unwrap();
        check(b.len() == n, "number of points read");
        holds(&b, &m, 0, n, "points read");
        check(r.read::<VectorBuffer>(1).map_or(true, |b| b.len() == 0), "points behind the end");
    }

    fn q_many_points() {
        bound("300 symbolic points in two writes, read in three parts, into rows and columns");
        let m = Model::sym(wlayout(2), 300, "point");
        let f = written(&m, 130, true, None);
        let mut r = open(&f);
        let a: VectorBuffer = r.read(17).unwrap();
        holds(&a, &m, 0, 17, "first part");
        let a: HashMapBuffer = r.read(270).unwrap();
        holds(&a, &m, 17, 270, "second part");
        let a: VectorBuffer = r.read(270).unwrap();
        check(a.len() == 13, "number of points of the last part");
        holds(&a, &m, 287, 13, "last part");
    }

    fn q_read_in_parts() {
        bound("3 symbolic points, two reads of up to 3 points into 5 other layouts, rows and columns, the rest of the target symbolic");
        use attributes::*;
        use PointAttributeDataType::*;
        let m = Model::sym(wlayout(2), 3, "point");
        let f = written(&m, 3, false, None);
        let mut r = open(&f);
        let pos = POSITION_3D.with_custom_datatype(Vec3f32);
        let rgb = COLOR_RGB.with_custom_datatype(Vec3u8);
        let t = match choice(5, "target") {
            0 => PointLayout::from_attributes(&[NORMAL, rgb, pos]),
            1 => PointLayout::from_attributes(&[rgb]),
            2 => PointLayout::from_attributes(&[COLOR_RGB, POSITION_3D]),
            3 => PointLayout::from_attributes_packed(&[CLASSIFICATION, pos, GPS_TIME], 1),
            _ => PointLayout::from_attributes(&[INTENSITY, NORMAL.with_custom_datatype(Vec3f64)]),
        };
        let mut at = 0;
        for _ in 0..2 {
            let left = 3 - at;
            if left == 0 {
                break;
            }
            let c = choice(3, "read") + 1;
            let n = c.min(left);
            let old = Model::sym(t.clone(), c + 1, "target");
            let got = if sym_bool("columns") {
                let mut b = columnar(&old);
                let n = r.read_into(&mut b, c);
                (n, after(&b, &m, &old, at, c.min(left)))
            } else {
                let mut b = vector(&old);
                let n = r.read_into(&mut b, c);
                (n, after(&b, &m, &old, at, c.min(left)))
            };
            check(got.0.map_or(false, |g| g == n), "number of points read");
            at += n;
            check(r.point_index().map_or(false, |i| i == at), "position after reading");
        }
    }

    fn q_seek() {
        bound("any seek over all 64 bits, from any point of 3, then reading the rest");
        let m = Model::sym(wlayout(0), 3, "point");
        let f = written(&m, 3, false, None);
        let mut r = open(&f);
        check(r.point_count().map_or(false, |c| c == 3), "point_count");
        check(r.point_index().map_or(false, |c| c == 0), "point_count keeps the position");
        let start = choice(4, "start");
        check(r.seek_point(SeekFrom::Start(start as u64)).map_or(false, |s| s == start), "seek to a point");
        let o: i64 = sym("offset");
        let (p, base) = match choice(3, "from") {
            0 => (SeekFrom::Start(o as u64), None),
            1 => (SeekFrom::End(o), Some(3)),
            _ => (SeekFrom::Current(o), Some(start as i128)),
        };
        let want = match base {
            None => o as u64 as i128,
            Some(b) => b + o as i128,
        };
        let got = r.seek_point(p);
        if want < 0 {
            cover("a position before the first point");
            check(got.is_err(), "a seek before the first point");
            check(r.point_index().map_or(false, |i| i == start), "a refused seek moves");
            return;
        }
        let want = want.min(3);
        check(got.map_or(false, |g| g as i128 == want), "position after seeking");
        let want = concretize(want as usize);
        if want == 3 {
            cover("a position behind the last point");
            check(r.read::<VectorBuffer>(1).map_or(true, |b| b.len() == 0), "points behind the end");
        } else {
            let b: VectorBuffer = r.read(3).unwrap();
            check(b.len() == 3 - want, "number of points read");
            holds(&b, &m, want, 3 - want, "points after seeking");
        }
    }

    fn q_center() {
        bound("2 symbolic points relative to one of 3 centres, read one by one, as f32 and f64, in both modes");
        let c = match choice(3, "centre") {
            0 => Vector3::new(1.0, 2.0, 3.0),
            1 => Vector3::new(-1048576.5, 0.0, 4096.25),
            _ => Vector3::new(3500000.0, 5500000.125, -0.5),
        };
        let m = Model::sym(wlayout(0), 2, "point");
        let f = written(&m, 2, false, Some(c));
        let mut r = open(&f);
        let got = r.get_metadata().get_named_field("RTC_CENTER");
        let got = got.and_then(|g| g.downcast_ref::<Vector3<f64>>().copied());
        check(got == Some(c), "RTC_CENTER of the metadata");
        let absolute = sym_bool("absolute");
        if !absolute {
            r.set_read_positions_mode(PntsReadPositionsMode::RelativeToCenter);
        }
        let wide = sym_bool("f64");
        let (t, a) = if wide {
            (wl64(), attributes::POSITION_3D)
        } else {
            (wlayout(0), attributes::POSITION_3D.with_custom_datatype(PointAttributeDataType::Vec3f32))
        };
        let old = Model::sym(t, 2, "target");
        for k in 0..2 {
            let mut b = vector(&old);
            check(r.read_into(&mut b, 1).map_or(false, |n| n == 1), "number of points read");
            let x: Vec<f32> = m.pts[k].chunks(4).map(|c| f32::from_le_bytes(c.try_into().unwrap())).collect();
            let mut want = vec![];
            for d in 0..3 {
                if wide {
                    let v = x[d] as f64;
                    want.extend((if absolute { v + c[d] } else { v }).to_le_bytes());
                } else {
                    let v = x[d];
                    want.extend((if absolute { (v as f64 + c[d]) as f32 } else { v }).to_le_bytes());
                }
            }
            let mut g = vec![0u8; want.len()];
            b.get_attribute(&a, 0, &mut g);
            check(same_value(&g, &want, a.datatype()), "positions and the centre");
            b.get_attribute(&a, 1, &mut g);
            check(bytes_eq(&g, &old.pts[1]), "a point behind those read");
        }
    }

    fn q_structure() {
        bound("files of 0 to 3 symbolic points of 6 layouts, with and without a centre, byte by byte");
        let l = wlayout(choice(WLAYOUTS, "layout"));
        let n = choice(4, "points");
        let m = Model::sym(l, n, "point");
        let center = if sym_bool("centre") { Some(Vector3::new(1.5, -20.25, 300.0)) } else { None };
        let f = written(&m, n, false, center);
        check(&f[..4] == b"pnts", "magic");
        check(le32(&f, 4) == 1, "version");
        check(le32(&f, 8) == f.len(), "length of the file");
        let (fj, fb, bj, bb) = (le32(&f, 12), le32(&f, 16), le32(&f, 20), le32(&f, 24));
        check(28 + fj + fb + bj + bb == f.len(), "lengths of the parts");
        check((28 + fj) % 8 == 0 && (28 + fj + fb) % 8 == 0 && f.len() % 8 == 0, "parts end at a multiple of 8");
        let j: serde_json::Value = serde_json::from_slice(&f[28..28 + fj]).unwrap();
        check(j["POINTS_LENGTH"] == serde_json::json!(n), "POINTS_LENGTH");
        match center {
            Some(_) => check(j["RTC_CENTER"] == serde_json::json!([1.5, -20.25, 300.0]), "RTC_CENTER"),
            None => check(j.get("RTC_CENTER").is_none(), "no RTC_CENTER"),
        }
        let body = &f[28 + fj..28 + fj + fb];
        let mut used: Vec<(usize, usize)> = vec![];
        for (a, r) in &m.mem {
            let s = match stored(a) {
                Some(s) => s,
                None => continue,
            };
            let o = j[semantic(a)]["byteOffset"].as_u64();
            check(o.is_some(), "offset of an attribute");
            let o = o.unwrap() as usize;
            let z = s.size() as usize;
            check(o + z * n <= fb, "an attribute lies in the body");
            check(o % 4 == 0 || z < 12, "alignment of an attribute");
            for (p, q) in &used {
                check(o + z * n <= *p || o >= *q, "attributes overlap");
            }
            used.push((o, o + z * n));
            for i in 0..n {
                let want = conv(&m.pts[i][r.clone()], a.datatype(), s);
                check(same_value(&body[o + i * z..o + (i + 1) * z], &want, s), "values in the file");
            }
        }
        if bj > 0 {
            let b = serde_json::from_slice::<serde_json::Value>(&f[28 + fj + fb..28 + fj + fb + bj]);
            check(b.map_or(false, |b| b.is_object()), "batch table");
        }
    }

    fn q_short_writes() {
        bound("2 symbolic points to a target that takes 1, 5 or 64 bytes in a call");
        let m = Model::sym(wlayout(2), 2, "point");
        let f = written(&m, 2, false, None);
        let mut s = Short { to: Cursor::new(vec![]), most: [1, 5, 64][choice(3, "most")] };
        {
            let mut w = PntsWriter::from_write_and_layout(&mut s, m.layout.clone());
            check(w.write(&vector(&m)).is_ok() && w.flush().is_ok(), "writing fails");
        }
        let g = s.to.into_inner();
        check(g.len() == f.len(), "length of the file");
        let mut r = open(&g);
        let b: VectorBuffer = r.read(2).unwrap();
        holds(&b, &m, 0, 2, "points read");
    }

    fn q_write_after_flush() {
        bound("up to 3 symbolic points written with flushes in between, finished by a flush or by the end of the writer, into an empty file or behind 0 or 16 other bytes");
        let m = Model::sym(wlayout(choice(2, "layout")), 3, "point");
        let before = choice(2, "before") * 16;
        let mut file = Cursor::new(vec![0x77u8; before]);
        file.set_position(before as u64);
        {
            let mut w = PntsWriter::from_write_and_layout(&mut file, m.layout.clone());
            let cut = choice(4, "cut");
            check(w.write(&vector(&part(&m, 0..cut))).is_ok(), "writing fails");
            check(w.flush().is_ok(), "flushing fails");
            check(w.write(&vector(&part(&m, cut..3))).is_ok(), "writing fails");
            if sym_bool("flush") {
                check(w.flush().is_ok() && w.flush().is_ok(), "flushing fails");
            }
        }
        let f = file.into_inner();
        check(f[..before].iter().all(|b| *b == 0x77), "bytes before the file");
        check(le32(&f[before..], 8) == f.len() - before, "length of the file");
        let mut r = open(&f[before..]);
        let b: VectorBuffer = r.read(4).unwrap();
        check(b.len() == 3, "number of points read");
        holds(&b, &m, 0, 3, "points read");
    }

    fn q_tables() {
        bound("feature and batch tables of up to 3 entries with offsets among 4, at every position modulo 8");
        use serde_json::json;
        use tiles3d::*;
        let at = choice(8, "position");
        let off = [0usize, 7, 1 << 20, 1 << 40][choice(4, "offset")];
        let mut h = FeatureTableHeader::new();
        let mut bt = BatchTableHeader::new();
        if sym_bool("reference") {
            let c = if sym_bool("type") { Some("FLOAT".to_string()) } else { None };
            h.insert("POSITION".into(), FeatureTableValue::DataReference(FeatureTableDataReference { byte_offset: off, component_type: c }));
            bt.insert("ref".into(), BatchTableEntry::DataReference(BatchTableDataReference { byte_offset: off, component_type: "UNSIGNED_BYTE".into(), scalar_or_vector_type: "VEC3".into() }));
        }
        if sym_bool("value") {
            h.insert("POINTS_LENGTH".into(), FeatureTableValue::SingleValue(json!(off)));
            h.insert("x".into(), FeatureTableValue::SingleValue(json!({"text": "a\"b", "n": null})));
            bt.insert("names".into(), BatchTableEntry::ArrayData(vec![json!("a"), json!(off)]));
        }
        if sym_bool("array") {
            h.insert("RTC_CENTER".into(), FeatureTableValue::Array(vec![json!(1.5), json!(-2), json!(0)]));
            bt.insert("".into(), BatchTableEntry::ArrayData(vec![]));
        }
        let mut f = vec![];
        check(ser_feature_table_header(Cursor::new(&mut f), &h, at).is_ok(), "serializing fails");
        check((at + f.len()) % 8 == 0, "a table ends at a multiple of 8");
        let n = f.len();
        f.extend_from_slice(b"body");
        let mut c = Cursor::new(f);
        let g = deser_feature_table_header(&mut c, n, at);
        check(g.map_or(false, |g| g == h), "feature table");
        check(c.position() as usize == n, "position behind the feature table");
        let mut f = vec![];
        check(ser_batch_table_header(Cursor::new(&mut f), &bt, at).is_ok(), "serializing fails");
        check((at + f.len()) % 8 == 0, "a table ends at a multiple of 8");
        let n = f.len();
        f.extend_from_slice(b"body");
        let mut c = Cursor::new(f);
        let g = deser_batch_table_header(&mut c, n, at);
        check(g.map_or(false, |g| g == bt), "batch table");
        check(c.position() as usize == n, "position behind the batch table");
    }
}

fn wl64() -> PointLayout {
    PointLayout::from_attributes(&[attributes::POSITION_3D])
}
/// What a read of `n` points from `at` on leaves in the target.
fn after<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model, old: &Model, at: usize, n: usize) {
    holds(b, m, at, n, "points read");
    check(b.len() == old.pts.len(), "a read changes the length of the target");
    for (a, r) in &old.mem {
        let filled = attr_of(m, a.name()).map_or(false, |(a, _)| stored(a).is_some());
        for i in if filled { n } else { 0 }..old.pts.len() {
            let mut g = vec![0u8; r.len()];
            b.get_attribute(a, i, &mut g);
            check(bytes_eq(&g, &old.pts[i][r.clone()]), "what a read does not fill");
        }
    }
}

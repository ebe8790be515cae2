//! C25: ASCII point files. pasture-io as a whole cannot be built here (LAS needs crates that are
//! missing), so these modules of it are compiled as part of the harness.
#![allow(dead_code, unused_imports)]
mod base {
    #[path = "/repo/pasture-io/src/base/reader.rs"]
    mod reader;
    #[path = "/repo/pasture-io/src/base/writer.rs"]
    mod writer;
    pub use {reader::*, writer::*};
}
#[path = "/repo/pasture-io/src/ascii/mod.rs"]
mod ascii;

use ascii::{AsciiFormat, AsciiReader, AsciiWriter};
use base::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::io::Cursor;
use sxh::model::*;
use sxh::*;

/// Column letter, attribute, byte offset in it, number of bytes, signed.
fn column(c: char) -> (PointAttributeDefinition, usize, usize, bool) {
    use attributes::*;
    match c {
        'x' => (POSITION_3D, 0, 8, false),
        'y' => (POSITION_3D, 8, 8, false),
        'z' => (POSITION_3D, 16, 8, false),
        't' => (GPS_TIME, 0, 8, false),
        'i' => (INTENSITY, 0, 2, false),
        'r' => (RETURN_NUMBER, 0, 1, false),
        'n' => (NUMBER_OF_RETURNS, 0, 1, false),
        'c' => (CLASSIFICATION, 0, 1, false),
        'u' => (USER_DATA, 0, 1, false),
        'p' => (POINT_SOURCE_ID, 0, 2, false),
        'R' => (COLOR_RGB, 0, 2, false),
        'G' => (COLOR_RGB, 2, 2, false),
        'B' => (COLOR_RGB, 4, 2, false),
        'I' => (NIR, 0, 2, false),
        'a' => (SCAN_ANGLE_RANK, 0, 1, true),
        'e' => (EDGE_OF_FLIGHT_LINE, 0, 1, false),
        _ => (SCAN_DIRECTION_FLAG, 0, 1, false),
    }
}
const INTEGERS: [char; 12] = ['i', 'r', 'n', 'c', 'u', 'p', 'I', 'a', 'R', 'G', 'B', 'i'];

/// Decimal digits, written down independently.
fn text(mut v: i64) -> String {
    let mut s = String::new();
    let minus = v < 0;
    if minus {
        v = -v;
    }
    let mut d = vec![];
    loop {
        d.push((v % 10) as u8);
        v /= 10;
        if v == 0 {
            break;
        }
    }
    if minus {
        s.push('-');
    }
    for x in d.iter().rev() {
        s.push((b'0' + x) as char);
    }
    s
}
fn written(b: &VectorBuffer, format: &str, delimiter: Option<&str>, precision: Option<usize>) -> Vec<u8> {
    let mut f = Cursor::new(vec![]);
    {
        let w = AsciiWriter::from_write(&mut f, format);
        check(w.is_ok(), "a format of known columns");
        let mut w = w.unwrap();
        if let Some(d) = delimiter {
            w.set_delimiter(d);
        }
        if let Some(p) = precision {
            w.set_precision(p);
        }
        check(w.write(b).is_ok(), "writing fails");
        check(w.flush().is_ok(), "flushing fails");
    }
    f.into_inner()
}
/// A point of all attributes an ASCII file may have.
fn all_layout() -> PointLayout {
    use attributes::*;
    PointLayout::from_attributes(&[
        POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION, USER_DATA, COLOR_RGB, GPS_TIME,
        POINT_SOURCE_ID, EDGE_OF_FLIGHT_LINE, SCAN_DIRECTION_FLAG, SCAN_ANGLE_RANK, NIR,
    ])
}
fn at<'x>(m: &'x Model, c: char) -> std::ops::Range<usize> {
    let (a, o, z, _) = column(c);
    let r = &m.mem.iter().find(|(b, _)| *b == a).unwrap().1;
    r.start + o..r.start + o + z
}
/// Points of distinct small values, with the coordinates given.
fn points(n: usize) -> Model {
    let mut m = Model::new(all_layout());
    for i in 0..n {
        let mut p = vec![0u8; m.size()];
        for (k, c) in "irncupRGBIa".chars().enumerate() {
            let r = at(&m, c);
            p[r.start] = (10 * i + k + 1) as u8;
        }
        for (k, c) in "xyzt".chars().enumerate() {
            let r = at(&m, c);
            p[r].copy_from_slice(&((i * 4 + k) as f64 * 1.5 - 2.25).to_le_bytes());
        }
        m.pts.push(p);
    }
    m
}
fn value_text(m: &Model, i: usize, c: char) -> String {
    let r = at(m, c);
    let b = &m.pts[i][r.clone()];
    match (c, r.len()) {
        ('e' | 'd', _) => (if b[0] > 0 { "1" } else { "0" }).to_string(),
        ('a', _) => text(b[0] as i8 as i64),
        (_, 1) => text(b[0] as i64),
        (_, 2) => text(u16::from_le_bytes([b[0], b[1]]) as i64),
        _ => {
            let v = f64::from_le_bytes(b.try_into().unwrap());
            let s = format!("{:?}", v);
            s
        }
    }
}
fn same_column<'a, B: BorrowedBuffer<'a>>(b: &B, i: usize, m: &Model, k: usize, c: char, what: &str) {
    let (a, o, z, _) = column(c);
    let mut g = vec![0u8; a.size() as usize];
    b.get_attribute(&a, i, &mut g);
    check(bytes_eq(&g[o..o + z], &m.pts[k][at(m, c)]), what);
}

harness! {
    fn q_integers() {
        bound("one point, one column of each letter with any value of its type: the text and the value read back");
        let c = INTEGERS[choice(11, "column")];
        let mut m = points(1);
        let r = at(&m, c);
        let v = sym_bytes(r.len(), "value");
        m.pts[0][r.clone()].copy_from_slice(&v);
        let f = written(&vector(&m), &c.to_string(), None, None);
        let want = value_text(&m, 0, c) + "\n";
        check(f.len() == want.len() && bytes_eq(&f, want.as_bytes()), "the text of a value");
        let mut rd = AsciiReader::from_read(Cursor::new(f), &c.to_string(), ", ").unwrap();
        let b: VectorBuffer = rd.read(1).unwrap();
        check(b.len() == 1, "number of points read");
        same_column(&b, 0, &m, 0, c, "the value read back");
    }

    fn q_flags() {
        bound("both flags with any byte");
        let c = ['e', 'd'][choice(2, "column")];
        let mut m = points(1);
        let r = at(&m, c);
        let v: u8 = sym("value");
        m.pts[0][r.start] = v;
        let f = written(&vector(&m), &c.to_string(), None, None);
        check(bytes_eq(&f, if v > 0 { b"1\n" } else { b"0\n" }), "the text of a flag");
        let mut rd = AsciiReader::from_read(Cursor::new(f), &c.to_string(), ",").unwrap();
        let b: VectorBuffer = rd.read(1).unwrap();
        let mut g = [0u8];
        b.get_attribute(&column(c).0, 0, &mut g);
        check(g[0] == (v > 0) as u8, "the flag read back");
    }

    fn q_columns() {
        bound("2 points, 8 formats with all letters in several orders and with skipped columns, 4 delimiters, one symbolic value");
        let f = ["xyzirncuRGBtpedaI", "Iadeptu", "BGRzyx", "xyzc", "sxsysz", "cs", "uc", "nrRt"][choice(8, "format")];
        let d = [",", ", ", ";", " "][choice(4, "delimiter")];
        let mut m = points(2);
        if f.contains('c') {
            let r = at(&m, 'c');
            m.pts[1][r.start] = sym("class");
        }
        let file = written(&vector(&m), f, Some(d), None);
        let mut want = String::new();
        for i in 0..2 {
            let mut first = true;
            for c in f.chars() {
                if !first {
                    want += d;
                }
                first = false;
                if c != 's' {
                    want += &value_text(&m, i, c);
                }
            }
            want += "\n";
        }
        check(bytes_eq(&file, want.as_bytes()), "the text");
        let rd = AsciiReader::from_read(Cursor::new(file), f, d);
        check(rd.is_ok(), "a format of known columns");
        let mut rd = rd.unwrap();
        let l = rd.get_default_point_layout().clone();
        let mut names: Vec<PointAttributeDefinition> = vec![];
        for c in f.chars().filter(|c| *c != 's') {
            let a = column(c).0;
            if !names.contains(&a) {
                names.push(a);
            }
        }
        check(l.attributes().count() == names.len(), "attributes of the format");
        for a in &names {
            check(l.has_attribute(a), "an attribute of the format");
        }
        let b: VectorBuffer = rd.read(2).unwrap();
        check(b.len() == 2, "number of points read");
        for i in 0..2 {
            for c in f.chars().filter(|c| *c != 's') {
                same_column(&b, i, &m, i, c, "a value read back");
            }
        }
    }

    fn q_numbers() {
        bound("20 coordinates and times, precisions 0 to 8, up to the rounding");
        const V: [f64; 20] = [0.0, 1.0, -1.0, 10.0, 100.0, -20.0, 0.5, 0.1, -0.125, 1234.5678, 99999.5, 0.00001, 1e-9, 123456789.0, 1e15, -4000000.25, 0.99999999, 10.01, 100.001, 5600.0];
        let v = V[choice(20, "value")];
        let p = choice(9, "precision");
        let c = ['x', 'y', 'z', 't'][choice(4, "column")];
        let mut m = points(1);
        let r = at(&m, c);
        m.pts[0][r].copy_from_slice(&v.to_le_bytes());
        let f = written(&vector(&m), &c.to_string(), None, Some(p));
        let mut rd = AsciiReader::from_read(Cursor::new(f.clone()), &c.to_string(), ", ").unwrap();
        let b = rd.read::<VectorBuffer>(1);
        check(b.is_ok(), "the text is no number");
        let b = b.unwrap();
        let (a, o, z, _) = column(c);
        let mut g = vec![0u8; a.size() as usize];
        b.get_attribute(&a, 0, &mut g);
        let x = f64::from_le_bytes(g[o..o + z].try_into().unwrap());
        let step = [1.0, 0.1, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8][p];
        check((x - v).abs() <= 0.5 * step + v.abs() * 1e-15, "a number up to its rounding");
    }

    fn q_count() {
        bound("files of 0 to 3 lines with and without a newline at the end, two reads of 0 to 3 lines, one symbolic digit per line, the rest of the target symbolic");
        let n = choice(4, "lines");
        let d = sym_bytes(n, "digit");
        let mut f = vec![];
        for k in 0..n {
            assume((d[k] >= b'0') & (d[k] <= b'9'));
            f.push(d[k]);
            f.extend_from_slice(b";7\n");
        }
        if n > 0 && sym_bool("no newline at the end") {
            f.pop();
        }
        let l = PointLayout::from_attributes(&[attributes::USER_DATA, attributes::CLASSIFICATION]);
        let mut rd = AsciiReader::from_read(Cursor::new(f), "cu", ";").unwrap();
        let mut done = 0;
        for _ in 0..2 {
            let c = choice(4, "read");
            let old = Model::sym(l.clone(), c + 1, "target");
            let mut b = vector(&old);
            let got = rd.read_into(&mut b, c);
            let k = c.min(n - done);
            check(got.map_or(false, |g| g == k), "number of lines read");
            for i in 0..=c {
                let mut p = [0u8; 2];
                b.get_point(i, &mut p);
                if i < k {
                    check((p[0] == 7) & (p[1] == d[done + i] - b'0'), "values of a line");
                } else {
                    check(bytes_eq(&p, &old.pts[i]), "a point behind those read");
                }
            }
            done += k;
        }
        let b: VectorBuffer = rd.read(4).unwrap();
        check(b.len() == n - done, "read gives as many points as there are lines");
    }

    fn q_text() {
        bound("a line with a column of up to 3 arbitrary ASCII characters (u8 and i8 columns and flags)");
        let n = choice(4, "characters");
        let c = ['c', 'a', 'e'][choice(3, "column")];
        let t = sym_bytes(n, "text");
        for b in &t {
            assume((*b < 128) & (*b != b'\n') & (*b != b'\r') & (*b != b','));
        }
        let mut f = b"5,".to_vec();
        f.extend_from_slice(&t);
        f.push(b'\n');
        let mut rd = AsciiReader::from_read(Cursor::new(f), &format!("r{}", c), ",").unwrap();
        let got = rd.read::<VectorBuffer>(1);
        // an optional sign and digits
        let (neg, sign) = if n > 0 && t[0] == b'-' { (true, true) } else if n > 0 && t[0] == b'+' { (false, true) } else { (false, false) };
        let digits = &t[sign as usize..];
        let mut ok = !digits.is_empty();
        let mut v = 0i64;
        for d in digits {
            if *d >= b'0' && *d <= b'9' {
                v = v * 10 + (*d - b'0') as i64;
            } else {
                ok = false;
            }
        }
        if neg {
            v = -v;
            ok &= c == 'a';
        }
        let (lo, hi) = match c {
            'c' => (0, 255),
            'a' => (-128, 127),
            _ => (0, 1),
        };
        if ok && v >= lo && v <= hi {
            cover("a number");
            check(got.is_ok(), "a number is refused");
            let b = got.unwrap();
            let mut g = [0u8];
            b.get_attribute(&column(c).0, 0, &mut g);
            check(g[0] == v as u8, "value of a text");
            b.get_attribute(&attributes::RETURN_NUMBER, 0, &mut g);
            check(g[0] == 5, "value of the other column");
        } else {
            cover("not a number of the type");
            check(got.is_err(), "text that is no number of the type");
        }
    }

    fn q_lines() {
        bound("lines of 0 to 4 columns for a format of 2, formats with an unknown letter");
        let k = choice(5, "columns");
        let line = ["", "1", "1;2", "1;2;3", "1;2;x;"][k];
        let mut rd = AsciiReader::from_read(Cursor::new(format!("{}\r\n", line).into_bytes()), "iR", ";").unwrap();
        let got = rd.read::<VectorBuffer>(1);
        check(got.is_ok() == (k >= 2), "too few columns are refused, more are ignored");
        let c: u8 = sym("letter");
        assume((c >= b'A') & (c <= b'z'));
        let known = b"sxyzirncuRGBtpedaI".contains(&c);
        let f = String::from_utf8(vec![b'x', c]).unwrap();
        check(AsciiReader::from_read(Cursor::new(vec![]), &f, ",").is_ok() == known, "letters of a format");
        check(AsciiWriter::from_write(Cursor::new(vec![]), &f).is_ok() == known, "letters of a format");
    }

    fn q_other_layout() {
        bound("2 lines of several columns with a symbolic digit into targets that lack attributes of the file or have more, rows and columns");
        use attributes::*;
        let d: u8 = sym("digit");
        assume((d >= b'0') & (d <= b'9'));
        let mut f = b"1.5,2.5,3.5,".to_vec();
        f.push(d);
        f.extend_from_slice(b",300,4\n-1.5,-2.5,-3.5,8,301,5\n");
        let mut rd = AsciiReader::from_read(Cursor::new(f), "xyzcir", ",").unwrap();
        let l = match choice(3, "target") {
            0 => PointLayout::from_attributes(&[CLASSIFICATION]),
            1 => PointLayout::from_attributes_packed(&[RETURN_NUMBER, INTENSITY, POSITION_3D], 1),
            _ => PointLayout::from_attributes(&[INTENSITY, GPS_TIME, CLASSIFICATION]),
        };
        let m = Model::sym(l.clone(), 3, "target");
        if sym_bool("columns") {
            let mut b = columnar(&m);
            check(rd.read_into(&mut b, 2).map_or(false, |n| n == 2), "number of points read");
            other(&b, &m, d);
        } else {
            let mut b = vector(&m);
            check(rd.read_into(&mut b, 2).map_or(false, |n| n == 2), "number of points read");
            other(&b, &m, d);
        }
    }

    fn q_many_lines() {
        bound("50010 points of one column, of which 12 are symbolic");
        let n = 50_010;
        let l = PointLayout::from_attributes(&[attributes::CLASSIFICATION]);
        let mut p: Vec<u8> = (0..n).map(|k| (k % 7) as u8).collect();
        let s = sym_bytes(12, "value");
        for k in 0..12 {
            assume(s[k] < 10);
            p[49_994 + k] = s[k];
        }
        let mut b = VectorBuffer::new_from_layout(l);
        unsafe { b.push_points(&p) };
        let f = written(&b, "c", None, None);
        check(f.len() == 2 * n, "length of the text");
        let mut ok = true;
        for k in 0..n {
            ok = ok & (f[2 * k] == b'0' + p[k]) & (f[2 * k + 1] == b'\n');
        }
        check(ok, "the text of many lines");
    }
}

fn other<'a, B: BorrowedBuffer<'a>>(b: &B, old: &Model, d: u8) {
    use attributes::*;
    let l = old.layout.clone();
    let want = |a: &PointAttributeDefinition, i: usize| -> Option<Vec<u8>> {
        if *a == CLASSIFICATION {
            return Some(vec![if i == 0 { d - b'0' } else { 8 }]);
        }
        if *a == RETURN_NUMBER {
            return Some(vec![4 + i as u8]);
        }
        if *a == INTENSITY {
            return Some((300 + i as u16).to_le_bytes().to_vec());
        }
        if *a == POSITION_3D {
            let s = if i == 0 { 1.0 } else { -1.0 };
            return Some([1.5 * s, 2.5 * s, 3.5 * s].iter().flat_map(|v: &f64| v.to_le_bytes()).collect());
        }
        None
    };
    for (a, r) in &old.mem {
        for i in 0..3 {
            let mut g = vec![0u8; r.len()];
            b.get_attribute(a, i, &mut g);
            match want(a, i) {
                Some(w) if i < 2 => check(bytes_eq(&g, &w), "values in another layout"),
                _ if i == 2 => check(bytes_eq(&g, &old.pts[i][r.clone()]), "a point behind those read"),
                _ => {}
            }
        }
    }
    let _ = l;
}

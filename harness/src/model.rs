//! Point types, layouts and a list-of-byte-records model shared by the harnesses.
use crate::*;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;
use std::borrow::Cow;
use std::ops::Range;

/// 27 bytes, no padding.
#[repr(C, packed)]
#[derive(PointType, Debug, Copy, Clone, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
pub struct Pk {
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub class: u8,
}

/// 24 bytes, naturally aligned without gaps.
#[repr(C)]
#[derive(PointType, Debug, Copy, Clone, PartialEq, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
pub struct Al {
    #[pasture(BUILTIN_GPS_TIME)]
    pub gps: f64,
    #[pasture(BUILTIN_POINT_ID)]
    pub id: u64,
    #[pasture(BUILTIN_COLOR_RGB)]
    pub color: Vector3<u16>,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
}

pub fn blob(name: &'static str, n: u64) -> PointAttributeDefinition {
    PointAttributeDefinition::custom(Cow::Borrowed(name), PointAttributeDataType::ByteArray(n))
}

pub const LAYOUTS: usize = 6;
/// The layouts the dynamic harnesses range over.
pub fn layout(k: usize) -> PointLayout {
    use attributes::*;
    match k {
        // as the packed struct above
        0 => Pk::layout(),
        // with padding between and behind the fields
        1 => PointLayout::from_attributes(&[CLASSIFICATION, GPS_TIME, INTENSITY]),
        // blobs, vectors and odd sizes
        2 => PointLayout::from_attributes_packed(
            &[blob("blob", 5), COLOR_RGB, SCAN_ANGLE, NORMAL],
            1,
        ),
        // members in another order than their offsets, gaps, and the same data type twice
        3 => PointLayout::from_members_and_alignment(
            &[
                INTENSITY.at_offset_in_type(8),
                POINT_SOURCE_ID.at_offset_in_type(2),
                USER_DATA.at_offset_in_type(5),
            ],
            2,
        ),
        // a single one-byte attribute
        4 => PointLayout::from_attributes(&[CLASSIFICATION]),
        // packed to 2 with a type of unusual size
        _ => PointLayout::from_attributes_packed(
            &[
                USER_DATA,
                PointAttributeDefinition::custom(
                    Cow::Borrowed("cust"),
                    PointAttributeDataType::Custom { size: 6, min_alignment: 2, name: uuid::Uuid::from_u128(0x1234_5678) },
                ),
                GPS_TIME,
            ],
            2,
        ),
    }
}

/// Attribute definitions of a layout with their byte ranges.
pub fn members(l: &PointLayout) -> Vec<(PointAttributeDefinition, Range<usize>)> {
    l.attributes()
        .map(|a| {
            let o = a.offset() as usize;
            (a.attribute_definition().clone(), o..o + a.size() as usize)
        })
        .collect()
}

/// A list of points as raw records of a layout.
#[derive(Clone)]
pub struct Model {
    pub layout: PointLayout,
    pub mem: Vec<(PointAttributeDefinition, Range<usize>)>,
    pub pts: Vec<Vec<u8>>,
}
impl Model {
    pub fn new(layout: PointLayout) -> Model {
        let mem = members(&layout);
        Model { layout, mem, pts: vec![] }
    }
    /// `n` points with unconstrained bytes.
    pub fn sym(layout: PointLayout, n: usize, name: &str) -> Model {
        let mut m = Model::new(layout);
        for _ in 0..n {
            m.pts.push(m.fresh(name));
        }
        m
    }
    pub fn size(&self) -> usize {
        self.layout.size_of_point_entry() as usize
    }
    /// The bytes of a new point; bytes outside of every attribute are zero.
    pub fn fresh(&self, name: &str) -> Vec<u8> {
        let mut p = vec![0u8; self.size()];
        for (_, r) in &self.mem {
            let b = sym_bytes(r.len(), name);
            p[r.clone()].copy_from_slice(&b);
        }
        p
    }
    pub fn concat(&self) -> Vec<u8> {
        self.pts.concat()
    }
    /// Equality of two records on every attribute.
    pub fn same(&self, a: &[u8], b: &[u8]) -> bool {
        let mut ok = a.len() == b.len();
        for (_, r) in &self.mem {
            ok = ok & bytes_eq(&a[r.clone()], &b[r.clone()]);
        }
        ok
    }
    /// Equality of two lists of records on every attribute.
    pub fn same_range(&self, a: &[u8], b: &[u8]) -> bool {
        let s = self.size();
        let mut ok = a.len() == b.len() && a.len() % s == 0;
        if ok {
            for k in 0..a.len() / s {
                ok = ok & self.same(&a[k * s..(k + 1) * s], &b[k * s..(k + 1) * s]);
            }
        }
        ok
    }
    pub fn truncate_or_grow(&mut self, n: usize) {
        let z = vec![0u8; self.size()];
        self.pts.resize(n, z);
    }
}

pub fn vector(m: &Model) -> VectorBuffer {
    let mut b = VectorBuffer::new_from_layout(m.layout.clone());
    unsafe { b.push_points(&m.concat()) };
    b
}
pub fn columnar(m: &Model) -> HashMapBuffer {
    let mut b = HashMapBuffer::new_from_layout(m.layout.clone());
    unsafe { b.push_points(&m.concat()) };
    b
}
pub fn external(m: &Model) -> ExternalMemoryBuffer<Vec<u8>> {
    ExternalMemoryBuffer::new(m.concat(), m.layout.clone())
}

/// Every point and attribute of `b` reads as in `m`, through the per-point and per-attribute
/// accessors.
pub fn same_points<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model, what: &str) {
    check(b.len() == m.pts.len(), what);
    check(b.is_empty() == m.pts.is_empty(), what);
    for (i, p) in m.pts.iter().enumerate() {
        let mut d = vec![0xAAu8; m.size()];
        b.get_point(i, &mut d);
        check(m.same(&d, p), what);
        for (a, r) in &m.mem {
            let mut d = vec![0x55u8; r.len()];
            b.get_attribute(a, i, &mut d);
            check(bytes_eq(&d, &p[r.clone()]), what);
        }
    }
}

/// As `same_points`, through every untyped accessor, for every range.
pub fn all_reads<'a, 'b, B: BorrowedBuffer<'a>>(b: &'b B, m: &Model, what: &str)
where
    'a: 'b,
{
    same_points(b, m, what);
    check(*b.point_layout() == m.layout, "the layout of the buffer");
    let n = m.pts.len();
    let s = m.size();
    for i in 0..=n {
        for j in i..=n {
            let mut d = vec![0xAAu8; (j - i) * s];
            b.get_point_range(i..j, &mut d);
            for k in i..j {
                check(m.same(&d[(k - i) * s..(k - i + 1) * s], &m.pts[k]), "get_point_range");
            }
            for (a, r) in &m.mem {
                let z = r.len();
                let mut d = vec![0x55u8; (j - i) * z];
                b.get_attribute_range(a, i..j, &mut d);
                for k in i..j {
                    check(bytes_eq(&d[(k - i) * z..(k - i + 1) * z], &m.pts[k][r.clone()]), "get_attribute_range");
                }
            }
        }
    }
    for (a, r) in &m.mem {
        let am = b.point_layout().get_attribute(a).unwrap().clone();
        for k in 0..n {
            let mut d = vec![0x55u8; r.len()];
            unsafe { b.get_attribute_unchecked(&am, k, &mut d) };
            check(bytes_eq(&d, &m.pts[k][r.clone()]), "get_attribute_unchecked");
        }
    }
    if let Some(v) = b.as_interleaved() {
        cover("interleaved access");
        check(v.len() == n, "length of the interleaved view");
        for i in 0..n {
            check(m.same(v.get_point_ref(i), &m.pts[i]), "get_point_ref");
            for j in i..=n {
                let d = v.get_point_range_ref(i..j);
                check(d.len() == (j - i) * s, "length of get_point_range_ref");
                for k in i..j {
                    check(m.same(&d[(k - i) * s..(k - i + 1) * s], &m.pts[k]), "get_point_range_ref");
                }
            }
        }
        for (a, r) in &m.mem {
            let am = v.point_layout().get_attribute(a).unwrap().clone();
            let w = v.view_raw_attribute(&am);
            check(w.len() == n, "length of a raw attribute view");
            for k in 0..n {
                check(bytes_eq(&w[k], &m.pts[k][r.clone()]), "raw attribute view");
            }
        }
    }
    if let Some(v) = b.as_columnar() {
        cover("columnar access");
        check(v.len() == n, "length of the columnar view");
        for (a, r) in &m.mem {
            let z = r.len();
            for i in 0..n {
                check(bytes_eq(v.get_attribute_ref(a, i), &m.pts[i][r.clone()]), "get_attribute_ref");
                for j in i..=n {
                    let d = v.get_attribute_range_ref(a, i..j);
                    check(d.len() == (j - i) * z, "length of get_attribute_range_ref");
                    for k in i..j {
                        check(bytes_eq(&d[(k - i) * z..(k - i + 1) * z], &m.pts[k][r.clone()]), "get_attribute_range_ref");
                    }
                }
            }
            let am = v.point_layout().get_attribute(a).unwrap().clone();
            let w = v.view_raw_attribute(&am);
            check(w.len() == n, "length of a raw attribute view");
            for k in 0..n {
                check(bytes_eq(&w[k], &m.pts[k][r.clone()]), "raw attribute view");
            }
        }
    }
}

/// As `all_reads` for many points: every point and attribute, and ranges that begin and end at
/// the borders, next to them, and in the middle.
pub fn large_reads<'a, 'b, B: BorrowedBuffer<'a>>(b: &'b B, m: &Model, what: &str)
where
    'a: 'b,
{
    same_points(b, m, what);
    let n = m.pts.len();
    let s = m.size();
    let all = m.concat();
    for (i, j) in [(0, n), (1, n), (0, n - 1), (n / 3, n - n / 4), (n - 1, n), (n / 2, n / 2)] {
        let mut d = vec![0xAAu8; (j - i) * s];
        b.get_point_range(i..j, &mut d);
        check(m.same_range(&d, &all[i * s..j * s]), "get_point_range");
        for (a, r) in &m.mem {
            let z = r.len();
            let col: Vec<u8> = m.pts[i..j].iter().flat_map(|p| p[r.clone()].iter().copied()).collect();
            let mut d = vec![0x55u8; (j - i) * z];
            b.get_attribute_range(a, i..j, &mut d);
            check(bytes_eq(&d, &col), "get_attribute_range");
            if let Some(v) = b.as_columnar() {
                check(bytes_eq(v.get_attribute_range_ref(a, i..j), &col), "get_attribute_range_ref");
            }
        }
        if let Some(v) = b.as_interleaved() {
            check(m.same_range(v.get_point_range_ref(i..j), &all[i * s..j * s]), "get_point_range_ref");
        }
    }
    for (a, r) in &m.mem {
        let am = b.point_layout().get_attribute(a).unwrap().clone();
        if let Some(v) = b.as_interleaved() {
            let w = v.view_raw_attribute(&am);
            check(w.len() == n, "length of a raw attribute view");
            for k in 0..n {
                check(bytes_eq(&w[k], &m.pts[k][r.clone()]), "raw attribute view");
            }
        }
        if let Some(v) = b.as_columnar() {
            let w = v.view_raw_attribute(&am);
            check(w.len() == n, "length of a raw attribute view");
            for k in 0..n {
                check(bytes_eq(&w[k], &m.pts[k][r.clone()]), "raw attribute view");
                check(bytes_eq(v.get_attribute_ref(a, k), &m.pts[k][r.clone()]), "get_attribute_ref");
            }
        }
    }
    if let Some(v) = b.as_interleaved() {
        for k in 0..n {
            check(m.same(v.get_point_ref(k), &m.pts[k]), "get_point_ref");
        }
    }
}

/// Bytes of a value.
pub fn raw<T: bytemuck::NoUninit>(t: &T) -> Vec<u8> {
    bytemuck::bytes_of(t).to_vec()
}
/// A value with unconstrained bytes.
pub fn sym_pod<T: bytemuck::AnyBitPattern>(name: &str) -> T {
    let b = sym_bytes(std::mem::size_of::<T>(), name);
    bytemuck::pod_read_unaligned(&b)
}
/// Something to compare between the symbolic and the native run.
pub fn observe_points<'a, B: BorrowedBuffer<'a>>(b: &B) {
    observe(b.len() as u64);
    let mem = members(b.point_layout());
    for i in 0..b.len() {
        for (a, r) in &mem {
            let mut d = vec![0u8; r.len()];
            b.get_attribute(a, i, &mut d);
            observe_bytes(&d);
        }
    }
}

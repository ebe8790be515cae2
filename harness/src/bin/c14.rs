//! C14: voxel grid filter.
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use std::borrow::Cow;
use sxh::model::*;
use sxh::*;

/// The marks of an axis start one leaf behind the lowest coordinate and reach the highest
/// one; a coordinate belongs to the nearest mark, halfway to the farther one.
fn cell(x: f64, all: &[f64], leaf: f64) -> usize {
    let (mut lo, mut hi) = (all[0], all[0]);
    for &a in all {
        if a < lo { lo = a }
        if a > hi { hi = a }
    }
    let mut marks = vec![];
    let mut m = lo;
    while m < hi {
        m += leaf;
        marks.push(m);
    }
    let mut i = 0;
    while i + 1 < marks.len() && x - marks[i] >= marks[i + 1] - x {
        i += 1;
    }
    concretize(i)
}
fn cells(p: &[[f64; 3]], leaf: [f64; 3]) -> Vec<[usize; 3]> {
    let axis = |k: usize| -> Vec<f64> { p.iter().map(|q| q[k]).collect() };
    let a = [axis(0), axis(1), axis(2)];
    p.iter().map(|q| [cell(q[0], &a[0], leaf[0]), cell(q[1], &a[1], leaf[1]), cell(q[2], &a[2], leaf[2])]).collect()
}
/// Indices of the points of every occupied voxel, in the order of the voxels.
fn groups(p: &[[f64; 3]], leaf: [f64; 3]) -> Vec<Vec<usize>> {
    let c = cells(p, leaf);
    let mut keys = c.clone();
    keys.sort();
    keys.dedup();
    keys.iter().map(|k| (0..p.len()).filter(|i| c[*i] == *k).collect()).collect()
}
fn near(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a - b).abs() <= 1e-9
}
fn mean(v: impl Iterator<Item = f64>) -> f64 {
    let (mut s, mut n) = (0.0, 0);
    for x in v {
        s += x;
        n += 1;
    }
    s / n as f64
}
fn set<T: bytemuck::NoUninit>(m: &mut Model, i: usize, name: &str, v: T) {
    let o = m.layout.get_attribute_by_name(name).unwrap().offset() as usize;
    m.pts[i][o..o + std::mem::size_of::<T>()].copy_from_slice(bytemuck::bytes_of(&v));
}
fn get<T: bytemuck::AnyBitPattern>(m: &Model, i: usize, name: &str) -> T {
    let o = m.layout.get_attribute_by_name(name).unwrap().offset() as usize;
    bytemuck::pod_read_unaligned(&m.pts[i][o..o + std::mem::size_of::<T>()])
}
/// The filtered points, from any kind of buffer into any kind of buffer, which may hold
/// points already.
fn filtered(m: &Model, target: PointLayout, leaf: [f64; 3], kind: usize) -> Model {
    let mut out = Model::new(target);
    let before = kind % 2;
    for _ in 0..before {
        out.pts.push(out.fresh("target"));
    }
    fn read<'a, B: BorrowedBuffer<'a>>(b: &B, out: &Model, before: usize) -> Model {
        check(b.len() >= before, "points of the target were lost");
        let mut r = Model::new(out.layout.clone());
        for i in 0..b.len() {
            let mut p = vec![0u8; out.size()];
            b.get_point(i, &mut p);
            if i < before {
                check(out.same(&p, &out.pts[i]), "a point of the target changed");
            } else {
                r.pts.push(p);
            }
        }
        r
    }
    match kind {
        0 => {
            let (a, mut b) = (vector(m), columnar(&out));
            voxelgrid_filter(&a, leaf[0], leaf[1], leaf[2], &mut b);
            same_points(&a, m, "the input changed");
            read(&b, &out, before)
        }
        1 => {
            let (a, mut b) = (columnar(m), vector(&out));
            voxelgrid_filter(&a, leaf[0], leaf[1], leaf[2], &mut b);
            same_points(&a, m, "the input changed");
            read(&b, &out, before)
        }
        _ => {
            let (a, mut b) = (external(m), vector(&out));
            voxelgrid_filter(&a, leaf[0], leaf[1], leaf[2], &mut b);
            read(&b, &out, before)
        }
    }
}
const LEAVES: [f64; 3] = [1.0, 0.75, 2.0];
fn positions(p: &[[f64; 3]]) -> Model {
    let l = PointLayout::from_attributes(&[attributes::POSITION_3D]);
    let mut m = Model::sym(l, p.len(), "bytes");
    for (i, q) in p.iter().enumerate() {
        set(&mut m, i, "Position3D", Vector3::new(q[0], q[1], q[2]));
    }
    m
}
fn check_positions(p: &[[f64; 3]], leaf: [f64; 3], kind: usize) {
    let m = positions(p);
    let g = groups(p, leaf);
    let out = filtered(&m, m.layout.clone(), leaf, kind);
    check(out.pts.len() == g.len(), "one point per occupied voxel");
    let mut left: Vec<usize> = (0..out.pts.len()).collect();
    for v in &g {
        let c = [0, 1, 2].map(|k| mean(v.iter().map(|&i| p[i][k])));
        let at = left.iter().position(|&j| {
            let q: Vector3<f64> = get(&out, j, "Position3D");
            near(q.x, c[0]) && near(q.y, c[1]) && near(q.z, c[2])
        });
        check(at.is_some(), "no point at the centroid of an occupied voxel");
        if let Some(at) = at {
            left.remove(at);
        }
    }
}
fn one_axis(n: usize, range: i8) {
    let axis = choice(3, "axis");
    let leaf = LEAVES[choice(3, "leaf size")];
    let mut p = vec![[0.5, -3.0, 2.0]; n];
    for q in p.iter_mut() {
        let x: i8 = sym("coordinate");
        assume((x >= -range) & (x <= range));
        q[axis] = x as f64 / 8.0;
    }
    let mut l = [1.0; 3];
    l[axis] = leaf;
    check_positions(&p, l, axis);
}
/// Two or three points of which some share a voxel.
fn placed(m: &mut Model) -> Vec<Vec<usize>> {
    let n = m.pts.len();
    let mut p = vec![[0.0, -1.0, 7.5]; n];
    for q in p.iter_mut().skip(1) {
        q[0] = [0.25, 40.0, -7.0][choice(3, "place")];
    }
    for (i, q) in p.iter().enumerate() {
        set(m, i, "Position3D", Vector3::new(q[0], q[1], q[2]));
    }
    groups(&p, [1.0, 1.0, 1.0])
}
/// Checks an attribute of the points of every voxel; `eq` compares the result to the points.
fn aggregate<T: bytemuck::AnyBitPattern>(a: PointAttributeDefinition, n: usize, fill: impl Fn(&mut Model, usize, &str), eq: impl Fn(&[T], T) -> bool) {
    let kind = choice(3, "buffers");
    let l = match kind % 2 {
        0 => PointLayout::from_attributes(&[attributes::POSITION_3D, a.clone()]),
        _ => PointLayout::from_attributes_packed(&[a.clone(), attributes::POSITION_3D], 1),
    };
    let mut m = Model::sym(l.clone(), n, "bytes");
    for i in 0..n {
        fill(&mut m, i, a.name());
    }
    let g = placed(&mut m);
    let out = filtered(&m, l, [1.0, 1.0, 1.0], kind);
    check(out.pts.len() == g.len(), "one point per occupied voxel");
    // the voxels differ in x
    for v in &g {
        let x = mean(v.iter().map(|&i| get::<Vector3<f64>>(&m, i, "Position3D").x));
        let j = (0..out.pts.len()).find(|&j| near(get::<Vector3<f64>>(&out, j, "Position3D").x, x));
        check(j.is_some(), "no point at the centroid of an occupied voxel");
        let Some(j) = j else { return };
        let vals: Vec<T> = v.iter().map(|&i| get(&m, i, a.name())).collect();
        check(eq(&vals, get(&out, j, a.name())), a.name());
    }
}
/// Whether r is one of the most common values.
fn majority<T: PartialEq>(v: &[T], r: T) -> bool {
    let count = |x: &T| v.iter().filter(|y| *y == x).count();
    count(&r) > 0 && v.iter().all(|x| count(x) <= count(&r))
}
macro_rules! common {
    ($a:ident, $t:ty, $vals:expr) => {{
        let vals: &[$t] = &$vals;
        bound("3 points in one to three voxels with values out of 3 or 2 (they are turned into text)");
        aggregate::<$t>(attributes::$a.clone(), 3, |m, i, n| set::<$t>(m, i, n, vals[choice(vals.len(), "value")]), |v, r| majority(v, r))
    }};
}

harness! {
    fn q_cells_of_two_points() { bound("2 points at coordinates from -4 to 4 in steps of 1/8 on one axis; leaf sizes 1, 3/4 and 2"); one_axis(2, 32) }
    fn q_cells_of_three_points() { bound("3 points at coordinates from -1.25 to 1.25 in steps of 1/8 on one axis; leaf sizes 1, 3/4 and 2"); one_axis(3, 10) }
    fn q_cells_at_boundary() {
        bound("a point and two near to a boundary of cells, in steps of 2^-13 of a leaf; 3 axes; 2 boundaries and leaf sizes");
        let axis = choice(3, "axis");
        let (leaf, at) = [(1.0, 1.5), (4.0, 22.0)][choice(2, "leaf size")];
        let mut p = vec![[0.0, -3.0, 2.0]; 3];
        for q in p.iter_mut() { q[axis] = 0.0 }
        for i in 1..3 {
            let x: i8 = sym("coordinate");
            p[i][axis] = at + x as f64 / 8192.0 * leaf;
        }
        let mut l = [1.0; 3];
        l[axis] = leaf;
        check_positions(&p, l, axis);
    }
    fn q_cells_on_all_axes() {
        bound("2 points at coordinates from -1 to 1 in steps of 1/4 on all axes; a leaf size per axis");
        let mut p = vec![];
        for _ in 0..2 {
            let c: [i8; 3] = sym_arr("position");
            for k in 0..3 { assume((c[k] >= -4) & (c[k] <= 4)) }
            p.push(c.map(|x| x as f64 / 4.0));
        }
        check_positions(&p, [1.0, 0.5, 2.0], 1);
    }
    fn q_single_point() {
        bound("one point at any finite position");
        let c: [f64; 3] = sym_arr("position");
        for k in 0..3 { assume(c[k].is_finite()) }
        check_positions(&[c], [1.0, 0.5, 2.0], choice(3, "buffers"));
    }
    fn q_empty() {
        bound("an empty cloud");
        let m = positions(&[]);
        let out = filtered(&m, m.layout.clone(), [1.0, 1.0, 1.0], choice(3, "buffers"));
        check(out.pts.is_empty(), "points out of nothing");
    }
    fn q_average_intensity() {
        bound("2 points of every intensity");
        aggregate::<u16>(attributes::INTENSITY, 2, |_, _, _| (), |v, r| r == (v.iter().map(|x| *x as u32).sum::<u32>() / v.len() as u32) as u16)
    }
    fn q_average_nir() {
        bound("2 points of every value");
        aggregate::<u16>(attributes::NIR, 2, |_, _, _| (), |v, r| r == (v.iter().map(|x| *x as u32).sum::<u32>() / v.len() as u32) as u16)
    }
    fn q_average_color() {
        bound("2 points of every color");
        aggregate::<Vector3<u16>>(attributes::COLOR_RGB, 2, |_, _, _| (), |v, r| {
            (0..3).fold(true, |ok, k| ok & (r[k] == (v.iter().map(|x| x[k] as u32).sum::<u32>() / v.len() as u32) as u16))
        })
    }
    fn q_average_normal() {
        bound("2 points with normals of 8-bit components in 64ths");
        aggregate::<Vector3<f32>>(attributes::NORMAL, 2, |m, i, n| {
            let c: [i8; 3] = sym_arr("normal");
            set(m, i, n, Vector3::new(c[0] as f32 / 64.0, c[1] as f32 / 64.0, c[2] as f32 / 64.0))
        }, |v, r| {
            (0..3).fold(true, |ok, k| ok & (r[k] as f64 == mean(v.iter().map(|x| x[k] as f64))))
        })
    }
    fn q_average_of_three() {
        bound("3 points of every intensity below 2^7");
        aggregate::<u16>(attributes::INTENSITY, 3, |m, i, n| { let x: u16 = sym("intensity"); assume(x < 128); set(m, i, n, x) },
            |v, r| { let s = v.iter().map(|x| *x as u32).sum::<u32>(); let n = v.len() as u32; (r as u32 * n <= s) & (s < (r as u32 + 1) * n) })
    }
    fn q_greatest_flags() {
        bound("3 points of every value");
        aggregate::<u8>(attributes::CLASSIFICATION_FLAGS, 3, |_, _, _| (), |v, r| v.iter().fold(true, |ok, x| ok & (*x <= r)) & v.iter().fold(false, |ok, x| ok | (*x == r)))
    }
    fn q_greatest_time() {
        bound("3 points of every finite time");
        aggregate::<f64>(attributes::GPS_TIME, 3, |m, i, n| { let t: f64 = sym("time"); assume(t.is_finite()); set(m, i, n, t) },
            |v, r| v.iter().fold(true, |ok, x| ok & (*x <= r)) & v.iter().fold(false, |ok, x| ok | (*x == r)))
    }
    fn q_greatest_id() {
        bound("3 points of every value");
        aggregate::<u64>(attributes::POINT_ID, 3, |_, _, _| (), |v, r| v.iter().fold(true, |ok, x| ok & (*x <= r)) & v.iter().fold(false, |ok, x| ok | (*x == r)))
    }
    fn q_common_return_number() { common!(RETURN_NUMBER, u8, [0, 7, 255]) }
    fn q_common_number_of_returns() { common!(NUMBER_OF_RETURNS, u8, [1, 9, 10]) }
    fn q_common_scanner_channel() { common!(SCANNER_CHANNEL, u8, [0, 1, 3]) }
    fn q_common_scan_direction() { common!(SCAN_DIRECTION_FLAG, u8, [0, 1]) }
    fn q_common_edge_of_flight_line() { common!(EDGE_OF_FLIGHT_LINE, u8, [0, 1]) }
    fn q_common_classification() { common!(CLASSIFICATION, u8, [2, 200, 6]) }
    fn q_common_scan_angle_rank() { common!(SCAN_ANGLE_RANK, i8, [-128, -1, 127]) }
    fn q_common_scan_angle() { common!(SCAN_ANGLE, i16, [-32768, -1, 30000]) }
    fn q_common_user_data() { common!(USER_DATA, u8, [0, 128, 64]) }
    fn q_common_point_source() { common!(POINT_SOURCE_ID, u16, [0, 65535, 256]) }
    fn q_refused() {
        bound("2 points of layouts without (double) positions, and targets with attributes that have no aggregate");
        let pos = attributes::POSITION_3D;
        let l = match choice(3, "source") {
            0 => PointLayout::from_attributes(&[attributes::INTENSITY]),
            1 => PointLayout::from_attributes(&[PointAttributeDefinition::custom(Cow::Borrowed("Position3D"), PointAttributeDataType::Vec3f32)]),
            _ => {
                let l = PointLayout::from_attributes(&[pos.clone(), attributes::WAVEFORM_PARAMETERS, blob("blob", 4)]);
                let m = { let mut m = Model::sym(l, 2, "bytes"); placed(&mut m); m };
                let t = match choice(3, "target") {
                    0 => PointLayout::from_attributes(&[pos, attributes::WAVEFORM_PARAMETERS]),
                    1 => PointLayout::from_attributes(&[pos, blob("blob", 4)]),
                    // not in the source
                    _ => PointLayout::from_attributes(&[pos, attributes::INTENSITY]),
                };
                return must_panic("a target that cannot be filled", || filtered(&m, t, [1.0, 1.0, 1.0], 0));
            }
        };
        let m = Model::sym(l.clone(), 2, "bytes");
        must_panic("a cloud without positions", || filtered(&m, l, [1.0, 1.0, 1.0], 1));
    }
    fn q_many_points() {
        bound("48 points in 10 voxels (one of 29 and one of 12 points) of up to 600 cells on an axis; 17 attributes, into a target of another order; the values of one point symbolic (intensities: 16), one place out of 3");
        let n = 48;
        let all = [
            attributes::POSITION_3D, attributes::INTENSITY, attributes::RETURN_NUMBER, attributes::NUMBER_OF_RETURNS, attributes::CLASSIFICATION_FLAGS, attributes::SCANNER_CHANNEL,
            attributes::SCAN_DIRECTION_FLAG, attributes::EDGE_OF_FLIGHT_LINE, attributes::CLASSIFICATION, attributes::SCAN_ANGLE_RANK, attributes::SCAN_ANGLE, attributes::USER_DATA,
            attributes::POINT_SOURCE_ID, attributes::COLOR_RGB, attributes::GPS_TIME, attributes::NIR, attributes::NORMAL,
        ];
        let mut m = Model::new(PointLayout::from_attributes(&all));
        let mut back = all.to_vec();
        back.reverse();
        back.push(attributes::POINT_ID.clone());
        let target = PointLayout::from_attributes_packed(&back[..17], 1);
        let place = choice(3, "place");
        let free = [44, 20, 0][choice(3, "free point")];
        let mut p = vec![];
        for i in 0..n {
            m.pts.push(vec![0; m.size()]);
            let h = (i * 7 + 3) as u64;
            // 29 points in the first voxel, 12 in the second one
            let mut q = match i {
                _ if i % 8 < 5 && i < 45 => [0.25, 10.0, 300.0 + (i % 3) as f64 / 8.0],
                _ if i % 8 < 7 && i < 45 => [-6.5, -2.0, 0.0],
                // near to each other, far up
                _ => [3.0, 20.0, 575.0 + (i % 5) as f64 * 1.125],
            };
            if i == free {
                q = [[0.25, 10.0, 300.0], [-6.5, -2.0, 0.0], [3.0, 4.0, 600.0]][place];
            }
            set(&mut m, i, "Position3D", Vector3::new(q[0], q[1], q[2]));
            p.push(q);
            set(&mut m, i, "Intensity", (h * 1500 % 65536) as u16);
            set(&mut m, i, "NIR", (h * 977 % 65536) as u16);
            set(&mut m, i, "ColorRGB", Vector3::new((h * 331) as u16, (h * 97) as u16, 65535 - h as u16));
            set(&mut m, i, "Normal", Vector3::new(h as f32 / 16.0, -(h as f32), 0.5));
            set(&mut m, i, "GpsTime", h as f64 * if i % 2 == 0 { -1.5 } else { 0.25 } - 100.0);
            set(&mut m, i, "ClassificationFlags", (h % 13) as u8);
            // the most common values are late ones and no small ones
            set(&mut m, i, "ReturnNumber", if i < 9 { i as u8 % 3 } else { 200 + (i % 5 == 0) as u8 });
            set(&mut m, i, "NumberOfReturns", [3u8, 77, 3, 9][i % 4]);
            set(&mut m, i, "ScannerChannel", [0u8, 1, 1, 2, 1][i % 5]);
            set(&mut m, i, "ScanDirectionFlag", (i % 3 != 0) as u8);
            set(&mut m, i, "EdgeOfFlightLine", (i % 4 == 0) as u8);
            set(&mut m, i, "Classification", if i < 20 { 2u8 } else { 148 });
            set(&mut m, i, "ScanAngleRank", if i % 7 < 3 { -100i8 } else { 90 });
            set(&mut m, i, "ScanAngle", if i % 7 < 4 { -30000i16 } else { i as i16 });
            set(&mut m, i, "UserData", if i % 3 < 2 { 255u8 } else { i as u8 });
            set(&mut m, i, "PointSourceID", if i % 5 < 2 { 60000u16 } else { i as u16 });
        }
        let x: u16 = sym("intensity");
        assume(x < 16);
        set(&mut m, free, "Intensity", x * 4096 + 77);
        set(&mut m, free, "ClassificationFlags", sym::<u8>("flags"));
        let t: f64 = sym("time");
        assume(t.is_finite());
        set(&mut m, free, "GpsTime", t);
        set(&mut m, free, "Classification", [2u8, 148][place % 2]);
        let g = groups(&p, [1.0, 0.5, 1.0]);
        let out = filtered(&m, target, [1.0, 0.5, 1.0], place);
        check(out.pts.len() == g.len(), "one point per occupied voxel");
        for v in &g {
            let c = [0, 1, 2].map(|k| mean(v.iter().map(|&i| p[i][k])));
            let j = (0..out.pts.len()).find(|&j| {
                let q: Vector3<f64> = get(&out, j, "Position3D");
                near(q.x, c[0]) && near(q.y, c[1]) && near(q.z, c[2])
            });
            check(j.is_some(), "no point at the centroid of an occupied voxel");
            let Some(j) = j else { return };
            macro_rules! common { ($($n:literal $t:ty),*) => { $({
                let vals: Vec<$t> = v.iter().map(|&i| get(&m, i, $n)).collect();
                check(majority(&vals, get::<$t>(&out, j, $n)), $n);
            })* } }
            common!("ReturnNumber" u8, "NumberOfReturns" u8, "ScannerChannel" u8, "ScanDirectionFlag" u8, "EdgeOfFlightLine" u8, "Classification" u8, "ScanAngleRank" i8, "ScanAngle" i16, "UserData" u8, "PointSourceID" u16);
            for a in ["Intensity", "NIR"] {
                let s = v.iter().map(|&i| get::<u16>(&m, i, a) as u32).sum::<u32>();
                check(get::<u16>(&out, j, a) == (s / v.len() as u32) as u16, a);
            }
            let r: Vector3<u16> = get(&out, j, "ColorRGB");
            for k in 0..3 {
                let s = v.iter().map(|&i| get::<Vector3<u16>>(&m, i, "ColorRGB")[k] as u32).sum::<u32>();
                check(r[k] == (s / v.len() as u32) as u16, "color");
            }
            let r: Vector3<f32> = get(&out, j, "Normal");
            for k in 0..3 {
                let s = mean(v.iter().map(|&i| get::<Vector3<f32>>(&m, i, "Normal")[k] as f64));
                check((r[k] as f64 - s).abs() <= 1e-4, "normal");
            }
            let r: u8 = get(&out, j, "ClassificationFlags");
            let mut top = 0u8;
            for &i in v { let x: u8 = get(&m, i, "ClassificationFlags"); if x > top { top = x } }
            check(r == top, "flags");
            let r: f64 = get(&out, j, "GpsTime");
            let (mut ge, mut eq) = (true, false);
            for &i in v { let x: f64 = get(&m, i, "GpsTime"); ge &= x <= r; eq |= x == r; }
            check(ge & eq, "time");
        }
    }
    fn t_cells_of_three_points() { bound("3 points at coordinates from -4 to 4 in steps of 1/8 on one axis; leaf sizes 1, 3/4 and 2"); one_axis(3, 32) }
    fn t_cells_of_four_points() { bound("4 points at coordinates from -1 to 1 in steps of 1/8 on one axis; leaf sizes 1, 3/4 and 2"); one_axis(4, 8) }
}

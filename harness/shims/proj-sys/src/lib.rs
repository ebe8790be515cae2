//! Stands in for the PROJ library: the projection between two reference systems is a map
//! the harness chooses; systems whose name starts with "!" are unknown.
#![allow(non_camel_case_types, non_upper_case_globals, non_snake_case, clippy::all)]
use std::ffi::{c_char, c_int, CStr};

pub struct pj_ctx {
    live: bool,
}
pub type PJ_CONTEXT = pj_ctx;
pub struct PJconsts {
    live: bool,
    source: String,
    target: String,
}
pub type PJ = PJconsts;
pub enum PJ_AREA {}
pub type PJ_DIRECTION = c_int;
pub const PJ_DIRECTION_PJ_FWD: PJ_DIRECTION = 1;
pub const PJ_DIRECTION_PJ_IDENT: PJ_DIRECTION = 0;
pub const PJ_DIRECTION_PJ_INV: PJ_DIRECTION = -1;

#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct PJ_XYZT { pub x: f64, pub y: f64, pub z: f64, pub t: f64 }
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct PJ_LPZT { pub lam: f64, pub phi: f64, pub z: f64, pub t: f64 }
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct PJ_XYZ { pub x: f64, pub y: f64, pub z: f64 }
#[repr(C)]
#[derive(Debug, Copy, Clone)]
pub struct PJ_XY { pub x: f64, pub y: f64 }
#[repr(C)]
#[derive(Copy, Clone)]
pub union PJ_COORD {
    pub v: [f64; 4],
    pub xyzt: PJ_XYZT,
    pub lpzt: PJ_LPZT,
    pub xyz: PJ_XYZ,
    pub xy: PJ_XY,
}

/// source, target, forward, coordinate
pub type Map = fn(&str, &str, bool, [f64; 4]) -> [f64; 4];
fn same(_: &str, _: &str, _: bool, c: [f64; 4]) -> [f64; 4] {
    c
}
static mut MAP: Map = same;
static mut OPEN: usize = 0;
pub fn set_map(m: Map) {
    unsafe { MAP = m }
}
/// Contexts and projections that were not destroyed.
pub fn open() -> usize {
    unsafe { OPEN }
}

pub unsafe fn proj_context_create() -> *mut PJ_CONTEXT {
    OPEN += 1;
    Box::into_raw(Box::new(pj_ctx { live: true }))
}
pub unsafe fn proj_context_destroy(ctx: *mut PJ_CONTEXT) -> *mut PJ_CONTEXT {
    if !ctx.is_null() {
        assert!((*ctx).live, "context destroyed twice");
        OPEN -= 1;
        drop(Box::from_raw(ctx));
    }
    std::ptr::null_mut()
}
pub unsafe fn proj_create_crs_to_crs(ctx: *mut PJ_CONTEXT, source: *const c_char, target: *const c_char, _area: *mut PJ_AREA) -> *mut PJ {
    assert!(ctx.is_null() || (*ctx).live);
    let source = CStr::from_ptr(source).to_str().unwrap().to_string();
    let target = CStr::from_ptr(target).to_str().unwrap().to_string();
    if source.starts_with('!') || target.starts_with('!') {
        return std::ptr::null_mut();
    }
    OPEN += 1;
    Box::into_raw(Box::new(PJconsts { live: true, source, target }))
}
pub unsafe fn proj_destroy(P: *mut PJ) -> *mut PJ {
    if !P.is_null() {
        assert!((*P).live, "projection destroyed twice");
        OPEN -= 1;
        drop(Box::from_raw(P));
    }
    std::ptr::null_mut()
}
pub unsafe fn proj_coord(x: f64, y: f64, z: f64, t: f64) -> PJ_COORD {
    PJ_COORD { v: [x, y, z, t] }
}
pub unsafe fn proj_trans(P: *mut PJ, direction: PJ_DIRECTION, coord: PJ_COORD) -> PJ_COORD {
    if P.is_null() || direction == PJ_DIRECTION_PJ_IDENT {
        return coord;
    }
    let p = &*P;
    assert!(p.live);
    PJ_COORD { v: MAP(&p.source, &p.target, direction == PJ_DIRECTION_PJ_FWD, coord.v) }
}
pub unsafe fn proj_trans_array(P: *mut PJ, direction: PJ_DIRECTION, n: usize, coord: *mut PJ_COORD) -> c_int {
    for i in 0..n {
        *coord.add(i) = proj_trans(P, direction, *coord.add(i));
    }
    0
}
unsafe fn nth(p: *mut f64, stride: usize, n: usize, i: usize) -> *mut f64 {
    if p.is_null() || n == 0 {
        std::ptr::null_mut()
    } else {
        (p as *mut u8).add(stride * i.min(n - 1)) as *mut f64
    }
}
pub unsafe fn proj_trans_generic(
    P: *mut PJ, direction: PJ_DIRECTION,
    x: *mut f64, sx: usize, nx: usize, y: *mut f64, sy: usize, ny: usize,
    z: *mut f64, sz: usize, nz: usize, t: *mut f64, st: usize, nt: usize,
) -> usize {
    let n = nx.max(ny).max(nz).max(nt);
    for i in 0..n {
        let p = [nth(x, sx, nx, i), nth(y, sy, ny, i), nth(z, sz, nz, i), nth(t, st, nt, i)];
        let mut v = [0.0; 4];
        for k in 0..4 {
            if !p[k].is_null() { v[k] = p[k].read_unaligned() }
        }
        let w = proj_trans(P, direction, PJ_COORD { v }).v;
        for k in 0..4 {
            if !p[k].is_null() { p[k].write_unaligned(w[k]) }
        }
    }
    n
}
pub unsafe fn proj_context_errno(_ctx: *mut PJ_CONTEXT) -> c_int {
    0
}
pub unsafe fn proj_errno(_P: *const PJ) -> c_int {
    0
}
pub unsafe fn proj_errno_reset(_P: *const PJ) -> c_int {
    0
}
pub unsafe fn proj_errno_string(_err: c_int) -> *const c_char {
    c"".as_ptr()
}
pub unsafe fn proj_context_errno_string(_ctx: *mut PJ_CONTEXT, _err: c_int) -> *const c_char {
    c"".as_ptr()
}

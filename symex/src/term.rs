//! Hash-consed bit-vector / floating-point terms with light simplification, a concrete evaluator and
//! SMT-LIB2 emission. Everything is a bit-vector; IEEE operations take and return bit patterns.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::rc::Rc;

pub type Tid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bo {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat, // high, low
    FAdd, FSub, FMul, FDiv,
    FEq, FLt, FLe, FUno,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Uo {
    ZExt, SExt,
    FSqrt, FCeil, FFloor, FTrunc, FRoundAway, FRoundEven,
    FpToFp, SToFp, UToFp, FpToS, FpToU, FpToSSat, FpToUSat,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Un(Uo, Tid),
    Bin(Bo, Tid, Tid),
    Ite(Tid, Tid, Tid),
    Extract(u16, Tid), // low bit; width from the node width
}

/// Scalar value: concrete bits or a term.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sc {
    C(u128, u16),
    S(Tid, u16),
}
impl Sc {
    pub fn w(&self) -> u32 {
        match self {
            Sc::C(_, w) | Sc::S(_, w) => *w as u32,
        }
    }
    pub fn conc(&self) -> Option<u128> {
        match self {
            Sc::C(v, _) => Some(*v),
            _ => None,
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}
pub fn c(v: u128, w: u32) -> Sc {
    Sc::C(v & mask(w), w as u16)
}
pub fn cb(b: bool) -> Sc {
    Sc::C(b as u128, 1)
}

pub type Model = HashMap<u32, u128>;

pub struct Arena {
    pub nodes: Vec<(Node, u16)>,
    map: HashMap<(Node, u16), Tid>,
    vars_of: Vec<Option<Rc<Vec<u32>>>>,
    range: Vec<(u128, u128)>,
    srange: Vec<(i128, i128)>,
    pub var_names: Vec<(String, u16)>,
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena{nodes: vec![], map: HashMap::new(), vars_of: vec![], range: vec![], srange: vec![], var_names: vec![]});
}

impl Arena {
    /// Unsigned bounds of a node from the bounds of its operands.
    fn range_of(&self, n: Node, w: u32) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |t: Tid| self.range[t as usize];
        match n {
            Node::Const(v) => (v, v),
            Node::Un(Uo::ZExt, x) => r(x),
            Node::Bin(op, x, y) => {
                if is_pred(op) {
                    return full;
                }
                let ((al, ah), (bl, bh)) = (r(x), r(y));
                match op {
                    Bo::Concat => {
                        let lw = self.nodes[y as usize].1 as u32;
                        ((al << lw) | bl, (ah << lw) | bh)
                    }
                    Bo::Add => {
                        if let Some(h) = ah.checked_add(bh) {
                            if h <= m {
                                return (al + bl, h);
                            }
                        }
                        // adding a negative constant
                        if bl == bh {
                            let k = bl.wrapping_neg() & m;
                            if k != 0 && al >= k {
                                return (al - k, ah - k);
                            }
                        }
                        full
                    }
                    Bo::Sub if al >= bh => (al - bh, ah - bl),
                    Bo::Mul => match ah.checked_mul(bh) {
                        Some(h) if h <= m => (al * bl, h),
                        _ => full,
                    },
                    Bo::And => (0, ah.min(bh)),
                    Bo::Or => {
                        let top = 128 - (ah | bh).leading_zeros();
                        (al.max(bl), mask(top))
                    }
                    Bo::UDiv if bl > 0 => (al / bh, ah / bl),
                    Bo::URem if bl > 0 => (0, ah.min(bh - 1)),
                    _ => full,
                }
            }
            Node::Extract(lo, x) => {
                let (l, h) = r(x);
                if h >> lo <= m {
                    (l >> lo, h >> lo)
                } else {
                    full
                }
            }
            Node::Ite(_, x, y) => (r(x).0.min(r(y).0), r(x).1.max(r(y).1)),
            _ => full,
        }
    }
}
impl Arena {
    /// Signed bounds of a node from the bounds of its operands.
    fn srange_of(&self, n: Node, w: u32) -> (i128, i128) {
        if w > 120 {
            return (i128::MIN, i128::MAX);
        }
        let lim = 1i128 << (w - 1);
        let full = (-lim, lim - 1);
        let r = |t: Tid| self.srange[t as usize];
        let fit = |l: Option<i128>, h: Option<i128>| match (l, h) {
            (Some(l), Some(h)) if l >= -lim && h < lim => (l, h),
            _ => full,
        };
        let mut b = match n {
            Node::Un(Uo::SExt, x) => r(x),
            Node::Extract(0, x) => fit(Some(r(x).0), Some(r(x).1)),
            Node::Bin(Bo::Concat, h, l) => {
                let lw = self.nodes[l as usize].1 as u32;
                if lw > 100 || w > 110 {
                    full
                } else {
                    let (hl, hh) = r(h);
                    let (ll, lh) = self.range[l as usize];
                    ((hl << lw) + ll as i128, (hh << lw) + lh as i128)
                }
            }
            Node::Bin(Bo::Add, x, y) => {
                let ((al, ah), (bl, bh)) = (r(x), r(y));
                fit(al.checked_add(bl), ah.checked_add(bh))
            }
            Node::Bin(Bo::Sub, x, y) => {
                let ((al, ah), (bl, bh)) = (r(x), r(y));
                fit(al.checked_sub(bh), ah.checked_sub(bl))
            }
            Node::Bin(Bo::Mul, x, y) => {
                let ((al, ah), (bl, bh)) = (r(x), r(y));
                let p = [al.checked_mul(bl), al.checked_mul(bh), ah.checked_mul(bl), ah.checked_mul(bh)];
                if p.iter().any(|v| v.is_none()) {
                    full
                } else {
                    let (l, h) = (p.iter().flatten().min().copied(), p.iter().flatten().max().copied());
                    fit(if x == y { l.map(|l| l.max(0)) } else { l }, h)
                }
            }
            Node::Ite(_, x, y) => (r(x).0.min(r(y).0), r(x).1.max(r(y).1)),
            _ => full,
        };
        let (ul, uh) = self.range.last().copied().unwrap();
        if uh < lim as u128 {
            b = (b.0.max(ul as i128), b.1.min(uh as i128));
        } else if ul >= lim as u128 {
            b = (b.0.max(ul as i128 - 2 * lim), b.1.min(uh as i128 - 2 * lim));
        }
        b
    }
}
/// Signed bounds of a value.
pub fn srange(s: Sc) -> (i128, i128) {
    match s {
        Sc::C(v, w) => (sx(v, w as u32), sx(v, w as u32)),
        Sc::S(t, _) => AR.with(|a| a.borrow().srange[t as usize]),
    }
}
/// Unsigned bounds of a value.
pub fn range(s: Sc) -> (u128, u128) {
    match s {
        Sc::C(v, _) => (v, v),
        Sc::S(t, _) => AR.with(|a| a.borrow().range[t as usize]),
    }
}
/// Unsigned a + b does not fit.
pub fn add_ovf(a: Sc, b: Sc) -> Sc {
    if range(a).1.checked_add(range(b).1).map_or(false, |h| h <= mask(a.w())) {
        return cb(false);
    }
    bin(Bo::Ult, bin(Bo::Add, a, b), a)
}
pub fn intern(n: Node, w: u32) -> Sc {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        let k = (n, w as u16);
        if let Some(t) = a.map.get(&k) {
            return Sc::S(*t, w as u16);
        }
        let t = a.nodes.len() as Tid;
        a.nodes.push(k);
        a.vars_of.push(None);
        let r = a.range_of(n, w);
        a.range.push(r);
        let r = a.srange_of(n, w);
        a.srange.push(r);
        a.map.insert(k, t);
        Sc::S(t, w as u16)
    })
}
pub fn node(t: Tid) -> (Node, u32) {
    AR.with(|a| {
        let a = a.borrow();
        let n = a.nodes[t as usize];
        (n.0, n.1 as u32)
    })
}
pub fn nterms() -> usize {
    AR.with(|a| a.borrow().nodes.len())
}
pub fn new_var(name: &str, w: u32) -> Sc {
    let id = AR.with(|a| {
        let mut a = a.borrow_mut();
        a.var_names.push((name.to_string(), w as u16));
        a.var_names.len() as u32 - 1
    });
    intern(Node::Var(id), w)
}
pub fn tid(s: Sc) -> Tid {
    match s {
        Sc::S(t, _) => t,
        Sc::C(v, w) => match intern(Node::Const(v), w as u32) {
            Sc::S(t, _) => t,
            _ => unreachable!(),
        },
    }
}
fn sc(t: Tid) -> Sc {
    let (n, w) = node(t);
    if let Node::Const(v) = n {
        Sc::C(v, w as u16)
    } else {
        Sc::S(t, w as u16)
    }
}
fn nd(s: Sc) -> Option<Node> {
    match s {
        Sc::S(t, _) => Some(node(t).0),
        _ => None,
    }
}

// ------------------------------------------------------------- concrete semantics
fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
pub fn conc_bin(op: Bo, a: u128, b: u128, w: u32) -> u128 {
    let m = mask(w);
    macro_rules! fl {
        ($o:tt) => {
            if w == 32 { (f32b(a) $o f32b(b)).to_bits() as u128 } else { (f64b(a) $o f64b(b)).to_bits() as u128 }
        };
    }
    macro_rules! fc {
        ($o:tt) => {
            (if w == 32 { f32b(a) $o f32b(b) } else { f64b(a) $o f64b(b) }) as u128
        };
    }
    match op {
        Bo::Add => a.wrapping_add(b) & m,
        Bo::Sub => a.wrapping_sub(b) & m,
        Bo::Mul => a.wrapping_mul(b) & m,
        Bo::UDiv => if b == 0 { m } else { a / b },
        Bo::URem => if b == 0 { a } else { a % b },
        Bo::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Bo::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Bo::And => a & b,
        Bo::Or => a | b,
        Bo::Xor => a ^ b,
        Bo::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Bo::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bo::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        Bo::Eq => (a == b) as u128,
        Bo::Ult => (a < b) as u128,
        Bo::Ule => (a <= b) as u128,
        Bo::Slt => (sx(a, w) < sx(b, w)) as u128,
        Bo::Sle => (sx(a, w) <= sx(b, w)) as u128,
        Bo::Concat => unreachable!(),
        Bo::FAdd => fl!(+),
        Bo::FSub => fl!(-),
        Bo::FMul => fl!(*),
        Bo::FDiv => fl!(/),
        Bo::FEq => fc!(==),
        Bo::FLt => fc!(<),
        Bo::FLe => fc!(<=),
        Bo::FUno => (if w == 32 { f32b(a).is_nan() || f32b(b).is_nan() } else { f64b(a).is_nan() || f64b(b).is_nan() }) as u128,
    }
}
pub fn conc_un(op: Uo, a: u128, w: u32, rw: u32) -> u128 {
    let m = mask(rw);
    macro_rules! f1 {
        ($m:ident) => {
            if w == 32 { f32b(a).$m().to_bits() as u128 } else { f64b(a).$m().to_bits() as u128 }
        };
    }
    match op {
        Uo::ZExt => a,
        Uo::SExt => (sx(a, w) as u128) & m,
        Uo::FSqrt => f1!(sqrt),
        Uo::FCeil => f1!(ceil),
        Uo::FFloor => f1!(floor),
        Uo::FTrunc => f1!(trunc),
        Uo::FRoundAway => f1!(round),
        Uo::FRoundEven => f1!(round_ties_even),
        Uo::FpToFp => {
            if w == rw { a }
            else if w == 32 { (f32b(a) as f64).to_bits() as u128 }
            else { (f64b(a) as f32).to_bits() as u128 }
        }
        Uo::SToFp => {
            let v = sx(a, w);
            if rw == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 }
        }
        Uo::UToFp => {
            if rw == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 }
        }
        Uo::FpToS | Uo::FpToSSat => {
            let v: i128 = if w == 32 { f32b(a) as i128 } else { f64b(a) as i128 };
            let lo = if rw >= 128 { i128::MIN } else { -(1i128 << (rw - 1)) };
            let hi = if rw >= 128 { i128::MAX } else { (1i128 << (rw - 1)) - 1 };
            (v.clamp(lo, hi) as u128) & m
        }
        Uo::FpToU | Uo::FpToUSat => {
            let v: u128 = if w == 32 { f32b(a) as u128 } else { f64b(a) as u128 };
            v.min(m)
        }
    }
}

// ------------------------------------------------------------- constructors
pub fn not(a: Sc) -> Sc {
    bin(Bo::Xor, a, c(mask(a.w()), a.w()))
}
fn is_commut(op: Bo) -> bool {
    matches!(op, Bo::Add | Bo::Mul | Bo::And | Bo::Or | Bo::Xor | Bo::Eq | Bo::FEq | Bo::FUno)
}
pub fn is_pred(op: Bo) -> bool {
    matches!(op, Bo::Eq | Bo::Ult | Bo::Ule | Bo::Slt | Bo::Sle | Bo::FEq | Bo::FLt | Bo::FLe | Bo::FUno)
}
pub fn bin(op: Bo, a: Sc, b: Sc) -> Sc {
    let w = a.w();
    if op == Bo::Concat {
        return concat(a, b);
    }
    debug_assert_eq!(w, b.w(), "{:?}", op);
    let rw = if is_pred(op) { 1 } else { w };
    if let (Sc::C(x, _), Sc::C(y, _)) = (a, b) {
        return c(conc_bin(op, x, y, w), rw);
    }
    let (mut a, mut b) = (a, b);
    if is_commut(op) {
        // constants right, otherwise by id
        let swap = match (a, b) {
            (Sc::C(..), _) => true,
            (_, Sc::C(..)) => false,
            (Sc::S(x, _), Sc::S(y, _)) => x > y,
        };
        if swap {
            std::mem::swap(&mut a, &mut b);
        }
    }
    let m = mask(w);
    if w == 64 || w == 32 {
        if let Bo::FAdd | Bo::FSub | Bo::FMul | Bo::FDiv | Bo::FEq | Bo::FLt | Bo::FLe | Bo::FUno | Bo::Eq | Bo::And | Bo::Xor | Bo::Slt | Bo::Sle | Bo::Ult | Bo::Ule | Bo::AShr | Bo::LShr = op {
            if let Some(r) = crate::fix::bin_fix(op, a, b) {
                return r;
            }
        }
    }
    match op {
        Bo::Ult | Bo::Ule | Bo::Eq | Bo::Slt | Bo::Sle => {
            let ((al, ah), (bl, bh)) = (range(a), range(b));
            let top = 1u128 << (w - 1);
            match op {
                Bo::Ult if ah < bl => return cb(true),
                Bo::Ult if al >= bh => return cb(false),
                Bo::Ule if ah <= bl => return cb(true),
                Bo::Ule if al > bh => return cb(false),
                Bo::Eq if ah < bl || bh < al => return cb(false),
                Bo::Slt if srange(a).1 < srange(b).0 => return cb(true),
                Bo::Slt if srange(a).0 >= srange(b).1 => return cb(false),
                Bo::Sle if srange(a).1 <= srange(b).0 => return cb(true),
                Bo::Sle if srange(a).0 > srange(b).1 => return cb(false),
                Bo::Eq if srange(a).1 < srange(b).0 || srange(b).1 < srange(a).0 => return cb(false),
                Bo::Slt if w > 1 && ah < top && bh < top => return bin(Bo::Ult, a, b),
                Bo::Sle if w > 1 && ah < top && bh < top => return bin(Bo::Ule, a, b),
                _ => {}
            }
        }
        _ => {}
    }
    // division of small numbers in a small width (the divisor is not zero on any path that gets here)
    if op == Bo::UDiv || op == Bo::URem {
        let h = range(a).1 | range(b).1;
        let k = (128 - h.leading_zeros()).max(1);
        if k < w && !matches!(b, Sc::C(0, _)) {
            return zext(bin(op, extract(a, 0, k), extract(b, 0, k)), w);
        }
    }
    if let Sc::C(k, _) = b {
        match op {
            Bo::Add | Bo::Sub | Bo::Or | Bo::Xor | Bo::Shl | Bo::LShr | Bo::AShr if k == 0 => return a,
            Bo::And if k == 0 => return b,
            Bo::And if k == m => return a,
            Bo::Or if k == m => return b,
            Bo::Mul if k == 0 => return b,
            Bo::Mul | Bo::UDiv if k == 1 => return a,
            Bo::URem if k == 1 => return c(0, w),
            Bo::Shl | Bo::LShr if k >= w as u128 => return c(0, w),
            Bo::Ult if k == 0 => return cb(false),
            Bo::Ule if k == m => return cb(true),
            Bo::Eq if w == 1 => return if k == 1 { a } else { not(a) },
            _ => {}
        }
        if op == Bo::Sub {
            return bin(Bo::Add, a, c(k.wrapping_neg(), w));
        }
        if k.is_power_of_two() {
            let j = k.trailing_zeros();
            match op {
                Bo::UDiv => return zext(extract(a, j, w - j), w),
                Bo::URem => return zext(extract(a, 0, j), w),
                Bo::Mul => return concat(extract(a, 0, w - j), c(0, j)),
                _ => {}
            }
        }
        // masking the low bits away
        if op == Bo::And && w > 1 && ((m & !k) + 1).is_power_of_two() {
            let j = ((m & !k) + 1).trailing_zeros();
            return concat(extract(a, j, w - j), c(0, j));
        }
        if let Some(n) = nd(a) {
            match (op, n) {
                (Bo::Add, Node::Bin(Bo::Add, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Add, sc(x), c(k.wrapping_add(k2), w));
                    }
                }
                (Bo::Xor, Node::Bin(Bo::Xor, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Xor, sc(x), c(k ^ k2, w));
                    }
                }
                (Bo::And, Node::Bin(Bo::And, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::And, sc(x), c(k & k2, w));
                    }
                }
                (Bo::Mul, Node::Bin(Bo::Mul, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Mul, sc(x), c(k.wrapping_mul(k2), w));
                    }
                }
                (Bo::And, Node::Un(Uo::ZExt, x)) => {
                    let x = sc(x);
                    let xm = mask(x.w());
                    if k & xm == xm {
                        return a;
                    }
                    if k & xm == 0 {
                        return c(0, w);
                    }
                    return zext(bin(Bo::And, x, c(k & xm, x.w())), w);
                }
                (Bo::And, Node::Bin(Bo::Concat, ..)) if (k + 1).is_power_of_two() && k != m => {
                    let lw = (k + 1).trailing_zeros();
                    return zext(extract(a, 0, lw), w);
                }
                (Bo::Or, Node::Bin(Bo::Or, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Or, sc(x), c(k | k2, w));
                    }
                }
                // comparisons against constants
                (Bo::Eq, Node::Bin(Bo::Add, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Eq, sc(x), c(k.wrapping_sub(k2), w));
                    }
                }
                (Bo::Eq, Node::Bin(Bo::Xor, x, y)) => {
                    if let Sc::C(k2, _) = sc(y) {
                        return bin(Bo::Eq, sc(x), c(k ^ k2, w));
                    }
                    if k == 0 {
                        return bin(Bo::Eq, sc(x), sc(y));
                    }
                }
                (Bo::Eq, Node::Un(Uo::ZExt, x)) => {
                    let x = sc(x);
                    if k > mask(x.w()) {
                        return cb(false);
                    }
                    return bin(Bo::Eq, x, c(k, x.w()));
                }
                (Bo::Ult, Node::Un(Uo::ZExt, x)) | (Bo::Ule, Node::Un(Uo::ZExt, x)) => {
                    let x = sc(x);
                    if k > mask(x.w()) {
                        return cb(true);
                    }
                    return bin(op, x, c(k, x.w()));
                }
                (Bo::Eq, Node::Un(Uo::SExt, x)) => {
                    let x = sc(x);
                    let t = k & mask(x.w());
                    if (sx(t, x.w()) as u128) & m != k {
                        return cb(false);
                    }
                    return bin(Bo::Eq, x, c(t, x.w()));
                }
                (Bo::Slt, Node::Un(Uo::ZExt, x)) | (Bo::Sle, Node::Un(Uo::ZExt, x)) => {
                    let x = sc(x);
                    let ks = sx(k, w);
                    if ks < 0 {
                        return cb(false);
                    }
                    return bin(if op == Bo::Slt { Bo::Ult } else { Bo::Ule }, zext(x, w), b);
                }
                (Bo::Slt, Node::Un(Uo::SExt, _)) => {}
                (Bo::Eq, Node::Ite(g, x, y)) => {
                    let (x, y) = (sc(x), sc(y));
                    if x.conc().is_some() || y.conc().is_some() {
                        return ite(sc(g), bin(Bo::Eq, x, b), bin(Bo::Eq, y, b));
                    }
                }
                (Bo::Ult, Node::Ite(g, x, y)) | (Bo::Ule, Node::Ite(g, x, y)) | (Bo::Slt, Node::Ite(g, x, y))
                | (Bo::Sle, Node::Ite(g, x, y)) | (Bo::And, Node::Ite(g, x, y)) => {
                    let (x, y) = (sc(x), sc(y));
                    if x.conc().is_some() && y.conc().is_some() {
                        return ite(sc(g), bin(op, x, b), bin(op, y, b));
                    }
                }
                (Bo::Eq, Node::Bin(Bo::Concat, h, l)) => {
                    let (h, l) = (sc(h), sc(l));
                    let lw = l.w();
                    return and(bin(Bo::Eq, h, c(k >> lw, h.w())), bin(Bo::Eq, l, c(k & mask(lw), lw)));
                }
                (Bo::LShr, Node::Bin(Bo::Concat, h, l)) => {
                    let l = sc(l);
                    if k == l.w() as u128 {
                        return zext(sc(h), w);
                    }
                }
                _ => {}
            }
        }
        if op == Bo::LShr {
            return zext(extract(a, k as u32, w - k as u32), w);
        }
        if op == Bo::Shl {
            return concat(extract(a, 0, w - k as u32), c(0, k as u32));
        }
    }
    if let Sc::C(k, _) = a {
        match op {
            Bo::Shl | Bo::LShr | Bo::UDiv | Bo::URem if k == 0 => return a,
            Bo::Ule if k == 0 => return cb(true),
            Bo::Ult if k == m => return cb(false),
            Bo::Ult => {
                // k < x  <=>  !(x <= k)
                if let Some(Node::Un(Uo::ZExt, x)) = nd(b) {
                    let x = sc(x);
                    if k >= mask(x.w()) {
                        return cb(false);
                    }
                    return bin(Bo::Ult, c(k, x.w()), x);
                }
            }
            Bo::Ule => {
                if let Some(Node::Un(Uo::ZExt, x)) = nd(b) {
                    let x = sc(x);
                    if k > mask(x.w()) {
                        return cb(false);
                    }
                    return bin(Bo::Ule, c(k, x.w()), x);
                }
            }
            _ => {}
        }
    }
    if a == b {
        match op {
            Bo::Sub | Bo::Xor => return c(0, w),
            Bo::And | Bo::Or => return a,
            Bo::Eq | Bo::Ule | Bo::Sle => return cb(true),
            Bo::Ult | Bo::Slt | Bo::FLt => return cb(false),
            _ => {}
        }
    }
    if op == Bo::Eq {
        // equality of two concatenations split the same way, of two zero-extensions, ...
        if let (Some(Node::Bin(Bo::Concat, h1, l1)), Some(Node::Bin(Bo::Concat, h2, l2))) = (nd(a), nd(b)) {
            if sc(l1).w() == sc(l2).w() {
                return and(bin(Bo::Eq, sc(h1), sc(h2)), bin(Bo::Eq, sc(l1), sc(l2)));
            }
        }
        if let (Some(Node::Un(Uo::ZExt, x)), Some(Node::Un(Uo::ZExt, y))) = (nd(a), nd(b)) {
            if sc(x).w() == sc(y).w() {
                return bin(Bo::Eq, sc(x), sc(y));
            }
        }
        if let (Some(Node::Un(Uo::SExt, x)), Some(Node::Un(Uo::SExt, y))) = (nd(a), nd(b)) {
            if sc(x).w() == sc(y).w() {
                return bin(Bo::Eq, sc(x), sc(y));
            }
        }
    }
    if w == 1 && (op == Bo::And || op == Bo::Or) {
        // x & !x, x | !x
        let n = |x: Sc, y: Sc| matches!(nd(x), Some(Node::Bin(Bo::Xor, p, q)) if sc(p) == y && sc(q).conc() == Some(1));
        if n(a, b) || n(b, a) {
            return cb(op == Bo::Or);
        }
    }
    if op == Bo::Or && w > 1 {
        // (zext x) | (y << k) with disjoint bits -> concat
        if let Some(r) = or_concat(a, b).or_else(|| or_concat(b, a)) {
            return r;
        }
    }
    if op == Bo::Sub {
        // (x + k) - x
        if let Some(Node::Bin(Bo::Add, x, y)) = nd(a) {
            if sc(x) == b {
                return sc(y);
            }
        }
    }
    intern(Node::Bin(op, tid(a), tid(b)), rw)
}
fn or_concat(lo: Sc, hi: Sc) -> Option<Sc> {
    // lo = zext(x : n bits), hi = concat(y, 0_k) with k >= n
    let w = lo.w();
    if let (Some(Node::Un(Uo::ZExt, x)), Some(Node::Bin(Bo::Concat, y, z))) = (nd(lo), nd(hi)) {
        let (x, y, z) = (sc(x), sc(y), sc(z));
        if let Sc::C(0, k) = z {
            if (k as u32) >= x.w() {
                return Some(concat(y, zext(x, k as u32)));
            }
        }
        let _ = w;
    }
    None
}
pub fn and(a: Sc, b: Sc) -> Sc {
    bin(Bo::And, a, b)
}
pub fn or(a: Sc, b: Sc) -> Sc {
    bin(Bo::Or, a, b)
}
pub fn eq(a: Sc, b: Sc) -> Sc {
    bin(Bo::Eq, a, b)
}
pub fn concat(h: Sc, l: Sc) -> Sc {
    let (hw, lw) = (h.w(), l.w());
    if hw == 0 {
        return l;
    }
    if lw == 0 {
        return h;
    }
    let w = hw + lw;
    if let (Sc::C(x, _), Sc::C(y, _)) = (h, l) {
        if w <= 128 {
            return c((x << lw) | y, w);
        }
    }
    if let Sc::C(0, _) = h {
        return zext(l, w);
    }
    // adjacent extracts
    if let (Some(Node::Extract(lo1, x)), Some(Node::Extract(lo2, y))) = (nd(h), nd(l)) {
        if x == y && lo1 as u32 == lo2 as u32 + lw {
            return extract(sc(x), lo2 as u32, w);
        }
    }
    // halves of one choice
    if let (Some(Node::Ite(g1, p, q)), Some(Node::Ite(g2, r, s))) = (nd(h), nd(l)) {
        if g1 == g2 && w <= 128 {
            return ite(sc(g1), concat(sc(p), sc(r)), concat(sc(q), sc(s)));
        }
    }
    // nested to the right
    if let Some(Node::Bin(Bo::Concat, a, b)) = nd(h) {
        return concat(sc(a), concat(sc(b), l));
    }
    // concat(extract(x, lo+lw), concat(extract(x, lo), rest)) is normalised left-to-right:
    if let Some(Node::Bin(Bo::Concat, l1, l2)) = nd(l) {
        let (l1, l2) = (sc(l1), sc(l2));
        let j = concat(h, l1);
        if let Some(Node::Bin(Bo::Concat, a, b)) = nd(j) {
            if sc(a) == h && sc(b) == l1 {
                // no simplification
                return intern(Node::Bin(Bo::Concat, tid(h), tid(l)), w);
            }
        }
        return concat(j, l2);
    }
    intern(Node::Bin(Bo::Concat, tid(h), tid(l)), w)
}
pub fn extract(a: Sc, lo: u32, n: u32) -> Sc {
    let w = a.w();
    debug_assert!(lo + n <= w, "extract {} {} of {}", lo, n, w);
    if n == w {
        return a;
    }
    if let Sc::C(v, _) = a {
        return c(v >> lo, n);
    }
    if n == 1 && lo == w - 1 && (w == 64 || w == 32) {
        if let Some(r) = crate::fix::sign_fix(a) {
            return r;
        }
    }
    match nd(a).unwrap() {
        Node::Extract(l2, x) => return extract(sc(x), lo + l2 as u32, n),
        Node::Bin(Bo::Concat, h, l) => {
            let (h, l) = (sc(h), sc(l));
            let lw = l.w();
            if lo >= lw {
                return extract(h, lo - lw, n);
            }
            if lo + n <= lw {
                return extract(l, lo, n);
            }
            return concat(extract(h, 0, lo + n - lw), extract(l, lo, lw - lo));
        }
        Node::Un(Uo::ZExt, x) => {
            let x = sc(x);
            if lo >= x.w() {
                return c(0, n);
            }
            if lo + n <= x.w() {
                return extract(x, lo, n);
            }
            return zext(extract(x, lo, x.w() - lo), n);
        }
        Node::Un(Uo::SExt, x) => {
            let x = sc(x);
            if lo + n <= x.w() {
                return extract(x, lo, n);
            }
            if lo == 0 {
                return sext(x, n);
            }
        }
        Node::Bin(op @ (Bo::And | Bo::Or | Bo::Xor), x, y) => {
            return bin(op, extract(sc(x), lo, n), extract(sc(y), lo, n));
        }
        Node::Bin(op @ (Bo::Add | Bo::Sub | Bo::Mul), x, y) if lo == 0 => {
            return bin(op, extract(sc(x), lo, n), extract(sc(y), lo, n));
        }
        Node::Ite(g, x, y) => {
            let (x, y) = (sc(x), sc(y));
            return ite(sc(g), extract(x, lo, n), extract(y, lo, n));
        }
        _ => {}
    }
    intern(Node::Extract(lo as u16, tid(a)), n)
}
pub fn zext(a: Sc, w: u32) -> Sc {
    if w == a.w() {
        return a;
    }
    if let Sc::C(v, _) = a {
        return c(v, w);
    }
    if let Some(Node::Un(Uo::ZExt, x)) = nd(a) {
        return zext(sc(x), w);
    }
    if let Some(Node::Ite(g, x, y)) = nd(a) {
        let (x, y) = (sc(x), sc(y));
        if x.conc().is_some() && y.conc().is_some() {
            return ite(sc(g), zext(x, w), zext(y, w));
        }
    }
    intern(Node::Un(Uo::ZExt, tid(a)), w)
}
pub fn sext(a: Sc, w: u32) -> Sc {
    if w == a.w() {
        return a;
    }
    if let Sc::C(v, aw) = a {
        return c(sx(v, aw as u32) as u128, w);
    }
    if let Some(Node::Un(Uo::ZExt, x)) = nd(a) {
        return zext(sc(x), w);
    }
    if let Some(Node::Un(Uo::SExt, x)) = nd(a) {
        return sext(sc(x), w);
    }
    intern(Node::Un(Uo::SExt, tid(a)), w)
}
pub fn ite(g: Sc, a: Sc, b: Sc) -> Sc {
    debug_assert_eq!(a.w(), b.w());
    if let Sc::C(v, _) = g {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if a.w() == 1 {
        match (a, b) {
            (Sc::C(1, _), Sc::C(0, _)) => return g,
            (Sc::C(0, _), Sc::C(1, _)) => return not(g),
            (Sc::C(1, _), _) => return or(g, b),
            (Sc::C(0, _), _) => return and(not(g), b),
            (_, Sc::C(1, _)) => return or(not(g), a),
            (_, Sc::C(0, _)) => return and(g, a),
            _ => {}
        }
    }
    // !g
    if let Some(Node::Bin(Bo::Xor, x, y)) = nd(g) {
        if sc(y).conc() == Some(1) {
            return ite(sc(x), b, a);
        }
    }
    if let Some(Node::Ite(g2, x, _)) = nd(a) {
        if sc(g2) == g {
            return ite(g, sc(x), b);
        }
    }
    if let Some(Node::Ite(g2, _, y)) = nd(b) {
        if sc(g2) == g {
            return ite(g, a, sc(y));
        }
    }
    intern(Node::Ite(tid(g), tid(a), tid(b)), a.w())
}
pub fn un(op: Uo, a: Sc, rw: u32) -> Sc {
    match op {
        Uo::ZExt => return zext(a, rw),
        Uo::SExt => return sext(a, rw),
        _ => {}
    }
    if let Sc::C(v, w) = a {
        return c(conc_un(op, v, w as u32, rw), rw);
    }
    if op == Uo::FpToFp && a.w() == rw {
        return a;
    }
    if let Some(r) = crate::fix::un_fix(op, a, rw) {
        return r;
    }
    intern(Node::Un(op, tid(a)), rw)
}
pub fn is_nan(a: Sc) -> Sc {
    bin(Bo::FUno, a, a)
}

// ------------------------------------------------------------- queries over terms
pub fn vars_of(t: Tid) -> Rc<Vec<u32>> {
    if let Some(v) = AR.with(|a| a.borrow().vars_of[t as usize].clone()) {
        return v;
    }
    // iterative post-order
    let mut st = vec![(t, false)];
    while let Some((x, done)) = st.pop() {
        if AR.with(|a| a.borrow().vars_of[x as usize].is_some()) {
            continue;
        }
        let kids = kids(x);
        if !done {
            st.push((x, true));
            for k in kids {
                st.push((k, false));
            }
            continue;
        }
        let r: Rc<Vec<u32>> = match node(x).0 {
            Node::Var(v) => Rc::new(vec![v]),
            _ => {
                let sets: Vec<Rc<Vec<u32>>> =
                    kids.iter().map(|k| AR.with(|a| a.borrow().vars_of[*k as usize].clone().unwrap())).collect();
                let mut best: Option<Rc<Vec<u32>>> = None;
                for s in &sets {
                    best = Some(match best {
                        None => s.clone(),
                        Some(b) => {
                            if Rc::ptr_eq(&b, s) || s.is_empty() {
                                b
                            } else if b.is_empty() {
                                s.clone()
                            } else {
                                let mut v: Vec<u32> = b.iter().chain(s.iter()).cloned().collect();
                                v.sort_unstable();
                                v.dedup();
                                if v.len() == b.len() {
                                    b
                                } else if v.len() == s.len() {
                                    s.clone()
                                } else {
                                    Rc::new(v)
                                }
                            }
                        }
                    });
                }
                best.unwrap_or_else(|| Rc::new(vec![]))
            }
        };
        AR.with(|a| a.borrow_mut().vars_of[x as usize] = Some(r));
    }
    AR.with(|a| a.borrow().vars_of[t as usize].clone().unwrap())
}
pub fn kids(t: Tid) -> Vec<Tid> {
    match node(t).0 {
        Node::Const(_) | Node::Var(_) => vec![],
        Node::Un(_, a) | Node::Extract(_, a) => vec![a],
        Node::Bin(_, a, b) => vec![a, b],
        Node::Ite(a, b, c) => vec![a, b, c],
    }
}

/// Wide (> 128 bit) terms are not evaluated; the executor never builds them.
pub fn eval(t: Tid, m: &Model, memo: &mut HashMap<Tid, u128>) -> u128 {
    if let Some(v) = memo.get(&t) {
        return *v;
    }
    let mut st = vec![t];
    while let Some(&x) = st.last() {
        if memo.contains_key(&x) {
            st.pop();
            continue;
        }
        let (n, w) = node(x);
        let needc = std::cell::Cell::new(false);
        let g = |k: Tid, st: &mut Vec<Tid>, memo: &HashMap<Tid, u128>| -> u128 {
            match memo.get(&k) {
                Some(v) => *v,
                None => {
                    st.push(k);
                    needc.set(true);
                    0
                }
            }
        };
        let v = match n {
            Node::Const(v) => v,
            Node::Var(i) => m.get(&i).copied().unwrap_or(0) & mask(w),
            Node::Un(op, a) => {
                let av = g(a, &mut st, memo);
                if needc.get() { 0 } else { conc_un(op, av, node(a).1, w) }
            }
            Node::Extract(lo, a) => {
                let av = g(a, &mut st, memo);
                (av >> lo) & mask(w)
            }
            Node::Bin(op, a, b) => {
                let av = g(a, &mut st, memo);
                let bv = g(b, &mut st, memo);
                if needc.get() {
                    0
                } else if op == Bo::Concat {
                    (av << node(b).1) | bv
                } else {
                    conc_bin(op, av, bv, node(a).1)
                }
            }
            Node::Ite(cg, a, b) => {
                let cv = g(cg, &mut st, memo);
                if needc.get() {
                    0
                } else if cv == 1 {
                    g(a, &mut st, memo)
                } else {
                    g(b, &mut st, memo)
                }
            }
        };
        if !needc.get() {
            memo.insert(x, v);
            st.pop();
        }
    }
    memo[&t]
}
pub fn eval_sc(s: Sc, m: &Model, memo: &mut HashMap<Tid, u128>) -> u128 {
    match s {
        Sc::C(v, _) => v,
        Sc::S(t, _) => eval(t, m, memo),
    }
}

// ------------------------------------------------------------- SMT-LIB emission
fn bvc(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn fsort(w: u32) -> (&'static str, &'static str) {
    if w == 32 {
        ("8 24", "(_ FloatingPoint 8 24)")
    } else {
        ("11 53", "(_ FloatingPoint 11 53)")
    }
}
pub struct Emit {
    pub text: String,
    done_bv: std::collections::HashSet<Tid>,
    done_bool: std::collections::HashSet<Tid>,
    done_fp: std::collections::HashSet<Tid>,
    pub vars: Vec<u32>,
    pub has_fp: bool,
}
fn is_bool_node(n: &Node, w: u32) -> bool {
    if w != 1 {
        return false;
    }
    match n {
        Node::Bin(op, ..) => is_pred(*op) || matches!(op, Bo::And | Bo::Or | Bo::Xor),
        Node::Ite(..) => true,
        _ => false,
    }
}
fn is_fp_node(n: &Node) -> bool {
    match n {
        Node::Bin(op, ..) => matches!(op, Bo::FAdd | Bo::FSub | Bo::FMul | Bo::FDiv),
        Node::Un(op, _) => matches!(
            op,
            Uo::FSqrt | Uo::FCeil | Uo::FFloor | Uo::FTrunc | Uo::FRoundAway | Uo::FRoundEven | Uo::FpToFp | Uo::SToFp | Uo::UToFp
        ),
        _ => false,
    }
}
#[derive(Clone, Copy, PartialEq)]
enum K {
    Bv,
    Bool,
    Fp,
}
impl Emit {
    pub fn new() -> Emit {
        Emit { text: String::new(), done_bv: Default::default(), done_bool: Default::default(), done_fp: Default::default(), vars: vec![], has_fp: false }
    }
    fn refer(&self, t: Tid, k: K) -> String {
        let (n, w) = node(t);
        match k {
            K::Bv => match n {
                Node::Const(v) => bvc(v, w),
                Node::Var(i) => format!("v{}", i),
                _ => format!("t{}", t),
            },
            K::Bool => match n {
                Node::Const(v) => (if v == 1 { "true" } else { "false" }).to_string(),
                _ if is_bool_node(&n, w) => format!("b{}", t),
                _ => format!("(= {} #b1)", self.refer(t, K::Bv)),
            },
            K::Fp => {
                if is_fp_node(&n) || matches!(n, Node::Ite(..)) {
                    format!("f{}", t)
                } else {
                    format!("((_ to_fp {}) {})", fsort(w).0, self.refer(t, K::Bv))
                }
            }
        }
    }
    /// dependencies of emitting t as kind k
    fn deps(&self, t: Tid, k: K) -> Vec<(Tid, K)> {
        let (n, w) = node(t);
        match n {
            Node::Const(_) | Node::Var(_) => vec![],
            _ => match k {
                K::Bool if !is_bool_node(&n, w) => vec![(t, K::Bv)],
                K::Bool => match n {
                    Node::Bin(op, a, b) => {
                        let kk = match op {
                            Bo::And | Bo::Or | Bo::Xor => K::Bool,
                            Bo::FEq | Bo::FLt | Bo::FLe | Bo::FUno => K::Fp,
                            _ => K::Bv,
                        };
                        vec![(a, kk), (b, kk)]
                    }
                    Node::Ite(g, a, b) => vec![(g, K::Bool), (a, K::Bool), (b, K::Bool)],
                    _ => unreachable!(),
                },
                K::Fp => {
                    if is_fp_node(&n) {
                        match n {
                            Node::Bin(_, a, b) => vec![(a, K::Fp), (b, K::Fp)],
                            Node::Un(Uo::SToFp | Uo::UToFp, a) => vec![(a, K::Bv)],
                            Node::Un(_, a) => vec![(a, K::Fp)],
                            _ => unreachable!(),
                        }
                    } else if let Node::Ite(g, a, b) = n {
                        vec![(g, K::Bool), (a, K::Fp), (b, K::Fp)]
                    } else {
                        vec![(t, K::Bv)]
                    }
                }
                K::Bv => {
                    if is_bool_node(&n, w) {
                        return vec![(t, K::Bool)];
                    }
                    if is_fp_node(&n) {
                        return vec![(t, K::Fp)];
                    }
                    match n {
                        Node::Un(Uo::FpToS | Uo::FpToU | Uo::FpToSSat | Uo::FpToUSat, a) => vec![(a, K::Fp)],
                        Node::Un(_, a) | Node::Extract(_, a) => vec![(a, K::Bv)],
                        Node::Bin(_, a, b) => vec![(a, K::Bv), (b, K::Bv)],
                        Node::Ite(g, a, b) => vec![(g, K::Bool), (a, K::Bv), (b, K::Bv)],
                        _ => unreachable!(),
                    }
                }
            },
        }
    }
    fn is_done(&self, t: Tid, k: K) -> bool {
        match k {
            K::Bv => self.done_bv.contains(&t),
            K::Bool => self.done_bool.contains(&t),
            K::Fp => self.done_fp.contains(&t),
        }
    }
    fn emit(&mut self, t: Tid, k: K) {
        let mut st = vec![(t, k, false)];
        while let Some((t, k, ready)) = st.pop() {
            if self.is_done(t, k) {
                continue;
            }
            if !ready {
                st.push((t, k, true));
                for (d, dk) in self.deps(t, k) {
                    if !self.is_done(d, dk) {
                        st.push((d, dk, false));
                    }
                }
                continue;
            }
            self.define(t, k);
            match k {
                K::Bv => self.done_bv.insert(t),
                K::Bool => self.done_bool.insert(t),
                K::Fp => self.done_fp.insert(t),
            };
        }
    }
    fn define(&mut self, t: Tid, k: K) {
        let (n, w) = node(t);
        if let Node::Var(i) = n {
            if !self.vars.contains(&i) {
                self.vars.push(i);
                let _ = writeln!(self.text, "(declare-const v{} (_ BitVec {}))", i, w);
            }
            return;
        }
        if let Node::Const(_) = n {
            return;
        }
        match k {
            K::Bool => {
                if !is_bool_node(&n, w) {
                    return;
                }
                let s = match n {
                    Node::Bin(op, a, b) => {
                        let (f, kk) = match op {
                            Bo::And => ("and", K::Bool),
                            Bo::Or => ("or", K::Bool),
                            Bo::Xor => ("xor", K::Bool),
                            Bo::Eq => ("=", K::Bv),
                            Bo::Ult => ("bvult", K::Bv),
                            Bo::Ule => ("bvule", K::Bv),
                            Bo::Slt => ("bvslt", K::Bv),
                            Bo::Sle => ("bvsle", K::Bv),
                            Bo::FEq => ("fp.eq", K::Fp),
                            Bo::FLt => ("fp.lt", K::Fp),
                            Bo::FLe => ("fp.leq", K::Fp),
                            Bo::FUno => ("uno", K::Fp),
                            _ => unreachable!(),
                        };
                        if kk == K::Fp {
                            self.has_fp = true;
                        }
                        let (x, y) = (self.refer(a, kk), self.refer(b, kk));
                        if op == Bo::FUno {
                            if a == b {
                                format!("(fp.isNaN {})", x)
                            } else {
                                format!("(or (fp.isNaN {}) (fp.isNaN {}))", x, y)
                            }
                        } else if op == Bo::Xor && node(b).0 == Node::Const(1) {
                            format!("(not {})", x)
                        } else {
                            format!("({} {} {})", f, x, y)
                        }
                    }
                    Node::Ite(g, a, b) => format!(
                        "(ite {} {} {})",
                        self.refer(g, K::Bool),
                        self.refer(a, K::Bool),
                        self.refer(b, K::Bool)
                    ),
                    _ => unreachable!(),
                };
                let _ = writeln!(self.text, "(define-fun b{} () Bool {})", t, s);
            }
            K::Fp => {
                self.has_fp = true;
                let fs = fsort(w);
                let s = if is_fp_node(&n) {
                    match n {
                        Node::Bin(op, a, b) => {
                            let f = match op {
                                Bo::FAdd => "fp.add",
                                Bo::FSub => "fp.sub",
                                Bo::FMul => "fp.mul",
                                _ => "fp.div",
                            };
                            format!("({} RNE {} {})", f, self.refer(a, K::Fp), self.refer(b, K::Fp))
                        }
                        Node::Un(op, a) => match op {
                            Uo::FSqrt => format!("(fp.sqrt RNE {})", self.refer(a, K::Fp)),
                            Uo::FCeil => format!("(fp.roundToIntegral RTP {})", self.refer(a, K::Fp)),
                            Uo::FFloor => format!("(fp.roundToIntegral RTN {})", self.refer(a, K::Fp)),
                            Uo::FTrunc => format!("(fp.roundToIntegral RTZ {})", self.refer(a, K::Fp)),
                            Uo::FRoundAway => format!("(fp.roundToIntegral RNA {})", self.refer(a, K::Fp)),
                            Uo::FRoundEven => format!("(fp.roundToIntegral RNE {})", self.refer(a, K::Fp)),
                            Uo::FpToFp => format!("((_ to_fp {}) RNE {})", fs.0, self.refer(a, K::Fp)),
                            Uo::SToFp => format!("((_ to_fp {}) RNE {})", fs.0, self.refer(a, K::Bv)),
                            _ => format!("((_ to_fp_unsigned {}) RNE {})", fs.0, self.refer(a, K::Bv)),
                        },
                        _ => unreachable!(),
                    }
                } else if let Node::Ite(g, a, b) = n {
                    format!("(ite {} {} {})", self.refer(g, K::Bool), self.refer(a, K::Fp), self.refer(b, K::Fp))
                } else {
                    return;
                };
                let _ = writeln!(self.text, "(define-fun f{} () {} {})", t, fs.1, s);
            }
            K::Bv => {
                if is_bool_node(&n, w) {
                    let _ = writeln!(self.text, "(define-fun t{} () (_ BitVec 1) (ite b{} #b1 #b0))", t, t);
                    return;
                }
                if is_fp_node(&n) {
                    // a bit pattern whose value is the IEEE result (any pattern if the result is NaN)
                    let _ = writeln!(
                        self.text,
                        "(declare-const t{} (_ BitVec {}))\n(assert (= ((_ to_fp {}) t{}) f{}))",
                        t,
                        w,
                        fsort(w).0,
                        t,
                        t
                    );
                    return;
                }
                let r = |s: &Emit, x: Tid| s.refer(x, K::Bv);
                let s = match n {
                    Node::Extract(lo, a) => format!("((_ extract {} {}) {})", lo as u32 + w - 1, lo, r(self, a)),
                    Node::Ite(g, a, b) => format!("(ite {} {} {})", self.refer(g, K::Bool), r(self, a), r(self, b)),
                    Node::Un(op, a) => {
                        let aw = node(a).1;
                        match op {
                            Uo::ZExt => format!("((_ zero_extend {}) {})", w - aw, r(self, a)),
                            Uo::SExt => format!("((_ sign_extend {}) {})", w - aw, r(self, a)),
                            _ => {
                                self.has_fp = true;
                                let f = self.refer(a, K::Fp);
                                match op {
                                    Uo::FpToS => format!("((_ fp.to_sbv {}) RTZ {})", w, f),
                                    Uo::FpToU => format!("((_ fp.to_ubv {}) RTZ {})", w, f),
                                    Uo::FpToSSat => {
                                        let hi = pow2f(w - 1, aw, false);
                                        let lo = pow2f(w - 1, aw, true);
                                        let (mx, mn) = (bvc(mask(w - 1), w), bvc(1u128 << (w - 1), w));
                                        format!("(ite (fp.isNaN {f}) {z} (ite (fp.geq {f} {hi}) {mx} (ite (fp.lt {f} {lo}) {mn} ((_ fp.to_sbv {w}) RTZ {f}))))", f=f, z=bvc(0,w), hi=hi, lo=lo, mx=mx, mn=mn, w=w)
                                    }
                                    Uo::FpToUSat => {
                                        let hi = pow2f(w, aw, false);
                                        format!("(ite (or (fp.isNaN {f}) (fp.lt {f} (_ +zero {eb}))) {z} (ite (fp.geq {f} {hi}) {mx} ((_ fp.to_ubv {w}) RTZ {f})))", f=f, eb=fsort(aw).0, z=bvc(0,w), hi=hi, mx=bvc(mask(w),w), w=w)
                                    }
                                    _ => unreachable!(),
                                }
                            }
                        }
                    }
                    Node::Bin(op, a, b) => {
                        let f = match op {
                            Bo::Add => "bvadd",
                            Bo::Sub => "bvsub",
                            Bo::Mul => "bvmul",
                            Bo::UDiv => "bvudiv",
                            Bo::SDiv => "bvsdiv",
                            Bo::URem => "bvurem",
                            Bo::SRem => "bvsrem",
                            Bo::And => "bvand",
                            Bo::Or => "bvor",
                            Bo::Xor => "bvxor",
                            Bo::Shl => "bvshl",
                            Bo::LShr => "bvlshr",
                            Bo::AShr => "bvashr",
                            Bo::Concat => "concat",
                            _ => unreachable!(),
                        };
                        format!("({} {} {})", f, r(self, a), r(self, b))
                    }
                    _ => unreachable!(),
                };
                let _ = writeln!(self.text, "(define-fun t{} () (_ BitVec {}) {})", t, w, s);
            }
        }
    }
    pub fn assert(&mut self, t: Tid) {
        self.emit(t, K::Bool);
        let r = self.refer(t, K::Bool);
        let _ = writeln!(self.text, "(assert {})", r);
    }
}
fn pow2f(e: u32, fw: u32, neg: bool) -> String {
    let v: u128 = if fw == 32 {
        let x = 2f32.powi(e as i32);
        (if neg { -x } else { x }).to_bits() as u128
    } else {
        let x = 2f64.powi(e as i32);
        (if neg { -x } else { x }).to_bits() as u128
    };
    format!("((_ to_fp {}) {})", fsort(fw).0, bvc(v, fw))
}

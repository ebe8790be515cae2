//! Exact fixed-point view of floating-point terms: sums, differences, products, comparisons and roundings
//! of floats that are known to be small integers times a power of two are exact, so they are rewritten to
//! integer terms. Anything that could round stays an IEEE operation.
use crate::term::*;
use std::cell::RefCell;
use std::collections::HashMap;

/// The float a * 2^-k (a signed); if a is zero, z is the sign of the zero.
#[derive(Clone, Copy, Debug)]
pub struct Fix {
    pub a: Sc,
    pub k: i32,
    pub z: Sc,
}

thread_local! {
    static MEMO: RefCell<HashMap<Tid, Option<Fix>>> = RefCell::new(HashMap::new());
    static LIN: RefCell<HashMap<Tid, Lin>> = RefCell::new(HashMap::new());
    static POLY: RefCell<HashMap<Tid, Poly>> = RefCell::new(HashMap::new());
    static SAME: RefCell<HashMap<Poly, (Tid, i128)>> = RefCell::new(HashMap::new());
}
const KMAX: i32 = 120;
fn lim(fw: u32) -> u32 {
    if fw == 32 { 25 } else { 54 }
}
fn is0(a: Sc) -> Sc {
    eq(a, c(0, a.w()))
}
fn neg(a: Sc) -> Sc {
    bin(Bo::Slt, a, c(0, a.w()))
}
/// Drops redundant sign bits.
fn tight(a: Sc) -> Sc {
    match a {
        Sc::C(v, w) => {
            let s = sx(v, w as u32);
            let mag = if s < 0 { !s } else { s } as u128;
            c(s as u128, 128 - mag.leading_zeros() + 1)
        }
        Sc::S(t, w) => {
            let w = w as u32;
            match node(t).0 {
                Node::Un(Uo::SExt, x) => return tight(of(x)),
                Node::Un(Uo::ZExt, x) => {
                    let x = of(x);
                    if x.w() + 1 < w {
                        return zext(x, x.w() + 1);
                    }
                }
                _ => {}
            }
            let (l, h) = srange(a);
            let m = (if l < 0 { !l } else { l }).max(if h < 0 { !h } else { h });
            let n = 128 - m.leading_zeros() + 1;
            if n < w { extract(a, 0, n) } else { a }
        }
    }
}
fn of(t: Tid) -> Sc {
    match node(t) {
        (Node::Const(v), w) => c(v, w),
        (_, w) => Sc::S(t, w as u16),
    }
}
fn fconst(v: u128, w: u32) -> Option<Fix> {
    let (sign, e, m) = if w == 64 {
        let (e, m) = ((v >> 52 & 0x7ff) as i32, v & ((1 << 52) - 1));
        if e == 0x7ff { return None; }
        (v >> 63 & 1 == 1, if e == 0 { -1074 } else { e - 1075 }, if e == 0 { m } else { m | 1 << 52 })
    } else if w == 32 {
        let (e, m) = ((v >> 23 & 0xff) as i32, v & ((1 << 23) - 1));
        if e == 0xff { return None; }
        (v >> 31 & 1 == 1, if e == 0 { -149 } else { e - 150 }, if e == 0 { m } else { m | 1 << 23 })
    } else {
        return None;
    };
    if m == 0 {
        return Some(Fix { a: c(0, 2), k: 0, z: cb(sign) });
    }
    let t = m.trailing_zeros() as i32;
    let k = -(e + t);
    if k.abs() > KMAX {
        return None;
    }
    let s = (m >> t) as i128 * if sign { -1 } else { 1 };
    Some(Fix { a: tight(c(s as u128, 64)), k, z: cb(false) })
}
/// Is this float an exact fixed-point number?
pub fn as_fix(s: Sc) -> Option<Fix> {
    let (t, w) = match s {
        Sc::C(v, w) => return fconst(v, w as u32),
        Sc::S(t, w) => (t, w as u32),
    };
    if w != 64 && w != 32 {
        return None;
    }
    let n = node(t).0;
    match n {
        Node::Un(Uo::SToFp | Uo::UToFp | Uo::FpToFp, _) | Node::Bin(Bo::FDiv, ..) | Node::Ite(..) => {}
        _ => return None,
    }
    if let Some(r) = MEMO.with(|m| m.borrow().get(&t).cloned()) {
        return r;
    }
    let r = match n {
        Node::Un(Uo::SToFp, x) => {
            let a = tight(of(x));
            if a.w() <= lim(w) { Some(Fix { a, k: 0, z: cb(false) }) } else { None }
        }
        Node::Un(Uo::UToFp, x) => {
            let x = of(x);
            let a = tight(zext(x, x.w() + 1));
            if a.w() <= lim(w) { Some(Fix { a, k: 0, z: cb(false) }) } else { None }
        }
        Node::Un(Uo::FpToFp, x) if w == 64 => as_fix(of(x)),
        Node::Ite(g, x, y) => match (as_fix(of(x)), as_fix(of(y))) {
            (Some(p), Some(q)) => align(p, q).and_then(|(a, b, k)| {
                if a.w() > lim(w) {
                    return None;
                }
                let g = of(g);
                Some(Fix { a: ite(g, a, b), k, z: ite(g, p.z, q.z) })
            }),
            _ => None,
        },
        _ => None,
    };
    MEMO.with(|m| m.borrow_mut().insert(t, r));
    r
}
/// An integer as a sum of multiples of terms. Sums and products of fixed-point numbers never
/// overflow, so equal ones are made the same term.
#[derive(Clone)]
struct Lin {
    t: Vec<(Tid, i128)>,
    c: i128,
}
fn lin(a: Sc) -> Lin {
    let t = match a {
        Sc::C(v, w) => return Lin { t: vec![], c: sx(v, w as u32) },
        Sc::S(t, _) => t,
    };
    if let Some(l) = LIN.with(|m| m.borrow().get(&t).cloned()) {
        return l;
    }
    match node(t).0 {
        Node::Un(Uo::SExt, x) => lin(of(x)),
        Node::Bin(Bo::Concat, h, l) if of(l).conc() == Some(0) && of(l).w() < 40 => {
            let k = of(l).w();
            let mut r = lin(of(h));
            if r.c.unsigned_abs().leading_zeros() < 64 || r.t.iter().any(|x| x.1.unsigned_abs().leading_zeros() < 64) {
                return Lin { t: vec![(t, 1)], c: 0 };
            }
            scale(&mut r, 1 << k);
            r
        }
        _ => Lin { t: vec![(t, 1)], c: 0 },
    }
}
fn scale(l: &mut Lin, k: i128) {
    l.c *= k;
    for x in l.t.iter_mut() {
        x.1 *= k;
    }
}
fn sum(a: &Lin, b: &Lin) -> Lin {
    let mut r = Lin { t: vec![], c: a.c + b.c };
    let (mut i, mut j) = (0, 0);
    while i < a.t.len() || j < b.t.len() {
        if j == b.t.len() || (i < a.t.len() && a.t[i].0 < b.t[j].0) {
            r.t.push(a.t[i]);
            i += 1;
        } else if i == a.t.len() || b.t[j].0 < a.t[i].0 {
            r.t.push(b.t[j]);
            j += 1;
        } else {
            let k = a.t[i].1 + b.t[j].1;
            if k != 0 {
                r.t.push((a.t[i].0, k));
            }
            i += 1;
            j += 1;
        }
    }
    r
}
fn big(l: &Lin) -> bool {
    l.t.len() > 24 || l.c.unsigned_abs().leading_zeros() < 40 || l.t.iter().any(|x| x.1.unsigned_abs().leading_zeros() < 64)
}
fn gcd(l: &Lin) -> i128 {
    let mut g = l.c.unsigned_abs();
    for x in &l.t {
        let mut b = x.1.unsigned_abs();
        while b != 0 {
            (g, b) = (b, g % b);
        }
    }
    g as i128
}
/// The term of a sum.
fn unlin(l: &Lin) -> Option<Sc> {
    if l.t.is_empty() {
        return Some(tight(c(l.c as u128, 128)));
    }
    let mut l2 = l.clone();
    let j = gcd(l).trailing_zeros();
    if j > 0 {
        l2.c >>= j;
        for x in l2.t.iter_mut() {
            x.1 >>= j;
        }
    }
    let mut bound = l2.c.unsigned_abs();
    for x in &l2.t {
        let w = of(x.0).w();
        if w > 100 {
            return None;
        }
        let (l, h) = srange(of(x.0));
        bound = bound.checked_add(x.1.unsigned_abs().checked_mul(l.unsigned_abs().max(h.unsigned_abs()))?)?;
    }
    let n = 128 - bound.leading_zeros() + 1;
    if n + j > 110 {
        return None;
    }
    let mut r = c(l2.c as u128 & mask(n), n);
    for (t, k) in &l2.t {
        let x = sext(tight(of(*t)), n);
        let p = k.unsigned_abs();
        let m = if p == 1 {
            x
        } else if p.is_power_of_two() {
            let b = p.trailing_zeros();
            concat(extract(x, 0, n - b), c(0, b))
        } else {
            bin(Bo::Mul, x, c(p, n))
        };
        r = if *k < 0 { bin(Bo::Sub, r, m) } else { bin(Bo::Add, r, m) };
    }
    let mut r = tight(r);
    let p = poly_of(&l2);
    if let Some(p) = &p {
        known(r, p.clone());
    }
    LIN.with(|m| m.borrow_mut().insert(tid(r), l2));
    if j > 0 {
        r = concat(r, c(0, j));
        LIN.with(|m| m.borrow_mut().insert(tid(r), l.clone()));
        if let Some(p) = p.map(|p| p.scaled(1 << j)).filter(|p| p.small()) {
            known(r, p);
        }
    }
    Some(r)
}
/// An integer as a polynomial: sums and products that are equal as polynomials become the same term.
#[derive(Clone, PartialEq, Eq, Hash)]
struct Poly(Vec<(Vec<Tid>, i128)>);
impl Poly {
    fn degree(&self) -> usize {
        self.0.iter().map(|x| x.0.len()).max().unwrap_or(0)
    }
    fn small(&self) -> bool {
        self.0.len() <= 160 && self.degree() <= 6 && self.0.iter().all(|x| x.1.unsigned_abs().leading_zeros() >= 70)
    }
    fn scaled(&self, k: i128) -> Poly {
        Poly(self.0.iter().map(|x| (x.0.clone(), x.1 * k)).collect())
    }
    /// Without a common factor, and the factor.
    fn primitive(&self) -> (Poly, i128) {
        let mut g = 0u128;
        for x in &self.0 {
            let mut b = x.1.unsigned_abs();
            while b != 0 {
                (g, b) = (b, g % b);
            }
        }
        let mut g = g as i128;
        if self.0.last().map_or(false, |x| x.1 < 0) {
            g = -g;
        }
        (Poly(self.0.iter().map(|x| (x.0.clone(), x.1 / g)).collect()), g)
    }
    fn of(m: std::collections::BTreeMap<Vec<Tid>, i128>) -> Option<Poly> {
        let p = Poly(m.into_iter().filter(|x| x.1 != 0).collect());
        if p.small() { Some(p) } else { None }
    }
    fn plus(&self, o: &Poly) -> Option<Poly> {
        let mut m: std::collections::BTreeMap<Vec<Tid>, i128> = self.0.iter().cloned().collect();
        for (f, k) in &o.0 {
            *m.entry(f.clone()).or_insert(0) += k;
        }
        Poly::of(m)
    }
    fn times(&self, o: &Poly) -> Option<Poly> {
        if self.0.len() * o.0.len() > 400 {
            return None;
        }
        let mut m = std::collections::BTreeMap::new();
        for (f, k) in &self.0 {
            for (g, l) in &o.0 {
                let mut h = f.clone();
                h.extend_from_slice(g);
                h.sort();
                *m.entry(h).or_insert(0i128) += k.checked_mul(*l)?;
            }
        }
        Poly::of(m)
    }
}
fn poly(a: Sc) -> Poly {
    let t = match a {
        Sc::C(v, w) => {
            let v = sx(v, w as u32);
            return Poly(if v == 0 { vec![] } else { vec![(vec![], v)] });
        }
        Sc::S(t, _) => t,
    };
    if let Some(p) = POLY.with(|m| m.borrow().get(&t).cloned()) {
        return p;
    }
    let atom = Poly(vec![(vec![t], 1)]);
    match node(t).0 {
        Node::Un(Uo::SExt, x) => poly(of(x)),
        Node::Bin(Bo::Concat, h, l) if of(l).conc() == Some(0) && of(l).w() < 40 => {
            let r = poly(of(h)).scaled(1 << of(l).w());
            if r.small() { r } else { atom }
        }
        _ => atom,
    }
}
fn poly_of(l: &Lin) -> Option<Poly> {
    let mut p = poly(c(l.c as u128, 128));
    for (t, k) in &l.t {
        p = p.plus(&poly(of(*t)).scaled(*k))?;
    }
    if p.small() { Some(p) } else { None }
}
/// The factors of a product that does not overflow.
fn factors(t: Tid) -> Option<(Sc, Sc)> {
    if let (Node::Bin(Bo::Mul, x, y), w) = node(t) {
        let (x, y) = (tight(of(x)), tight(of(y)));
        if x.w() + y.w() <= w {
            return Some((x, y));
        }
    }
    None
}
/// Whether a product or a sum of squares is negative, and whether it is zero.
fn sign_of(a: Sc) -> Option<(Sc, Sc)> {
    a.conc().map_or(Some(()), |_| None)?;
    let l = lin(a);
    if l.c != 0 || l.t.is_empty() {
        return None;
    }
    let part = |a: Sc| sign_of(a).unwrap_or_else(|| (neg(a), is0(a)));
    if l.t.len() == 1 {
        let (x, y) = factors(l.t[0].0)?;
        let ((xn, xz), (yn, yz)) = (part(x), part(y));
        if x == y {
            return Some(if l.t[0].1 > 0 { (cb(false), xz) } else { (not(xz), xz) });
        }
        let z = or(xz, yz);
        let n = bin(Bo::Xor, xn, yn);
        return Some((and(not(z), if l.t[0].1 > 0 { n } else { not(n) }), z));
    }
    let mut z = cb(true);
    for (t, k) in &l.t {
        let (x, y) = factors(*t)?;
        if x != y || (*k > 0) != (l.t[0].1 > 0) {
            return None;
        }
        z = and(z, part(x).1);
    }
    Some((if l.t[0].1 > 0 { cb(false) } else { not(z) }, z))
}
/// The root of a square.
fn root(a: Sc) -> Option<Sc> {
    let l = lin(a);
    if l.c != 0 || l.t.len() != 1 || l.t[0].1 != 1 {
        return None;
    }
    let (x, y) = factors(l.t[0].0)?;
    if x == y { Some(x) } else { None }
}
/// Remembers the polynomial of a term.
fn known(r: Sc, p: Poly) {
    if let Sc::S(t, _) = r {
        let (q, k) = p.primitive();
        if k == 1 || k == -1 {
            SAME.with(|m| {m.borrow_mut().entry(q).or_insert((t, k));});
        }
        POLY.with(|m| { m.borrow_mut().entry(t).or_insert(p); });
    }
}
/// The term made before for a polynomial.
fn find(p: &Poly) -> Option<Sc> {
    if p.0.is_empty() {
        return Some(c(0, 2));
    }
    let (q, k) = p.primitive();
    let (t, s) = SAME.with(|m| m.borrow().get(&q).cloned())?;
    let mut l = lin(of(t));
    if l.c.unsigned_abs().leading_zeros() < 66 || l.t.iter().any(|x| x.1.unsigned_abs().leading_zeros() < 66) || k.unsigned_abs().leading_zeros() < 66 {
        return None;
    }
    scale(&mut l, k * s);
    if big(&l) {
        return None;
    }
    let r = unlin(&l)?;
    known(r, p.clone());
    Some(r)
}
fn primitive(a: Sc) -> Option<(Sc, i128)> {
    let (q, k) = poly(a).primitive();
    if k == 1 { None } else { Some((find(&q)?, k)) }
}
fn monomial(f: &[Tid]) -> Option<Sc> {
    if f.len() == 1 {
        return Some(of(f[0]));
    }
    let p = Poly(vec![(f.to_vec(), 1)]);
    if let Some((t, 1)) = SAME.with(|m| m.borrow().get(&p).cloned()) {
        return Some(of(t));
    }
    let (a, b) = (monomial(&f[..f.len() - 1])?, of(f[f.len() - 1]));
    let n = a.w() + b.w();
    if n > 110 {
        return None;
    }
    let m = bin(Bo::Mul, sext(a, n), sext(b, n));
    known(m, p);
    Some(m)
}
fn expanded(p: &Poly) -> Option<Lin> {
    let mut l = Lin { t: vec![], c: 0 };
    for (f, k) in &p.0 {
        if f.is_empty() {
            l.c = *k;
        } else {
            l.t.push((tid(monomial(f)?), *k));
        }
    }
    l.t.sort();
    if l.t.windows(2).any(|w| w[0].0 == w[1].0) {
        return None;
    }
    Some(l)
}
fn add(a: Sc, b: Sc) -> Option<Sc> {
    let (x, y) = (lin(a), lin(b));
    if big(&x) || big(&y) {
        return None;
    }
    let l = sum(&x, &y);
    let Some(p) = poly(a).plus(&poly(b)) else { return unlin(&l) };
    if let Some(r) = find(&p) {
        return Some(r);
    }
    let d = l.t.iter().map(|x| poly(of(x.0)).degree()).max().unwrap_or(0);
    let mut r = None;
    if p.degree() < d || p.0.len() <= l.t.len() {
        r = expanded(&p).filter(|l| !big(l)).and_then(|l| unlin(&l));
    }
    let r = match r {
        Some(r) => r,
        None => unlin(&l)?,
    };
    known(r, p);
    Some(r)
}
fn mul(a: Sc, b: Sc) -> Option<Sc> {
    let (mut x, mut y) = (lin(a), lin(b));
    if big(&x) || big(&y) {
        return None;
    }
    if x.t.is_empty() || y.t.is_empty() {
        if x.t.is_empty() {
            (x, y) = (y, x);
        }
        if y.c.unsigned_abs().leading_zeros() < 65 {
            return None;
        }
        if y.c == 0 {
            return Some(c(0, 2));
        }
        scale(&mut x, y.c);
        return if big(&x) { None } else { unlin(&x) };
    }
    let mut k = 1;
    for l in [&mut x, &mut y] {
        let g = gcd(l) * if l.t[0].1 < 0 { -1 } else { 1 };
        l.c /= g;
        for x in l.t.iter_mut() {
            x.1 /= g;
        }
        k *= g;
    }
    let (a, b) = (unlin(&x)?, unlin(&y)?);
    let n = a.w() + b.w();
    if n > 110 || k.unsigned_abs().leading_zeros() < 70 {
        return None;
    }
    let p = poly(a).times(&poly(b));
    if let Some(p) = &p {
        if let Some(r) = find(&p.scaled(k)) {
            return Some(r);
        }
    }
    let (a, b) = if tid(a) <= tid(b) { (a, b) } else { (b, a) };
    let m = bin(Bo::Mul, sext(a, n), sext(b, n));
    if let Some(p) = &p {
        known(m, p.clone());
    }
    let r = unlin(&Lin { t: vec![(tid(m), k)], c: 0 })?;
    if let Some(p) = p {
        known(r, p.scaled(k));
    }
    Some(r)
}
/// Both as integers of one width at a common scale.
fn align(p: Fix, q: Fix) -> Option<(Sc, Sc, i32)> {
    let z = |f: &Fix| f.a.conc() == Some(0);
    let k = if z(&p) { q.k } else if z(&q) { p.k } else { p.k.max(q.k) };
    let sc = |f: Fix| -> Option<Sc> {
        if f.a.conc() == Some(0) {
            return Some(f.a);
        }
        let d = (k - f.k) as u32;
        if f.a.w() + d > 110 {
            return None;
        }
        Some(if d == 0 { f.a } else { concat(f.a, c(0, d)) })
    };
    let (a, b) = (sc(p)?, sc(q)?);
    let w = a.w().max(b.w());
    Some((sext(a, w), sext(b, w), k))
}
/// The float term of a fixed-point number, if it is exact.
pub fn mk(f: Fix, fw: u32) -> Option<Sc> {
    let (mut a, mut k) = (tight(f.a), f.k);
    loop {
        if let Sc::S(t, _) = a {
            if let Node::Bin(Bo::Concat, h, l) = node(t).0 {
                if of(l).conc() == Some(0) {
                    k -= of(l).w() as i32;
                    a = tight(of(h));
                    continue;
                }
            }
        }
        break;
    }
    if a.w() > lim(fw) || k.abs() > if fw == 32 { 60 } else { KMAX } {
        return None;
    }
    if let Sc::C(v, w) = a {
        let v = sx(v, w as u32);
        if v == 0 {
            if let Some(z) = f.z.conc() {
                return Some(c(z << (fw - 1), fw));
            }
            let r = intern(Node::Ite(tid(f.z), tid(c(1u128 << (fw - 1), fw)), tid(c(0, fw))), fw);
            MEMO.with(|m| m.borrow_mut().insert(tid(r), Some(Fix { a: c(0, 2), k: 0, z: f.z })));
            return Some(r);
        }
        let x = v as f64 * 2f64.powi(-k);
        return Some(if fw == 64 { c(x.to_bits() as u128, 64) } else { c((x as f32).to_bits() as u128, 32) });
    }
    let i = intern(Node::Un(Uo::SToFp, tid(a)), fw);
    let t = if k == 0 {
        i
    } else {
        let p = 2f64.powi(k);
        let p = if fw == 64 { p.to_bits() as u128 } else { (p as f32).to_bits() as u128 };
        intern(Node::Bin(Bo::FDiv, tid(i), tid(c(p, fw))), fw)
    };
    MEMO.with(|m| m.borrow_mut().insert(tid(t), Some(Fix { a, k, z: cb(false) })));
    let z = and(f.z, is0(a));
    if z.conc() == Some(0) {
        return Some(t);
    }
    let r = intern(Node::Ite(tid(z), tid(c(1u128 << (fw - 1), fw)), tid(t)), fw);
    MEMO.with(|m| m.borrow_mut().insert(tid(r), Some(Fix { a, k, z: f.z })));
    Some(r)
}
fn minus(f: Fix) -> Fix {
    let w = f.a.w() + 1;
    let a = mul(f.a, c(mask(2), 2)).unwrap_or_else(|| bin(Bo::Sub, c(0, w), sext(f.a, w)));
    Fix { a, k: f.k, z: not(f.z) }
}
fn abs(f: Fix) -> Fix {
    let m = minus(f);
    let w = f.a.w().max(m.a.w());
    Fix { a: ite(neg(f.a), sext(m.a, w), sext(f.a, w)), k: f.k, z: cb(false) }
}
/// Compares a fixed-point number to any constant (the other way round if `flip`).
fn compare(op: Bo, f: Fix, v: u128, w: u32, flip: bool) -> Option<Sc> {
    let (ebits, mbits) = if w == 64 { (11, 52) } else if w == 32 { (8, 23) } else { return None };
    let (sign, e, m) = (v >> (w - 1) & 1 == 1, (v >> mbits & ((1 << ebits) - 1)) as i32, v & ((1 << mbits) - 1));
    if e == 0 && m == 0 && f.a.conc().is_none() {
        if let Some((n, z)) = sign_of(f.a) {
            return Some(match (op, flip) {
                (Bo::FEq, _) => z,
                (Bo::FLt, false) => n,
                (Bo::FLe, false) => or(n, z),
                (Bo::FLt, true) => not(or(n, z)),
                _ => not(n),
            });
        }
        // the sign of a polynomial is that of its primitive part
        if let Some((a, k)) = primitive(f.a) {
            let n = a.w();
            return Some(match (op, flip == (k < 0)) {
                (Bo::FEq, _) => is0(a),
                (Bo::FLt, true) => bin(Bo::Slt, a, c(0, n)),
                (Bo::FLe, true) => bin(Bo::Sle, a, c(0, n)),
                (Bo::FLt, false) => bin(Bo::Slt, c(0, n), a),
                _ => bin(Bo::Sle, c(0, n), a),
            });
        }
    }
    let top = (1 << ebits) - 1;
    if e == top && m != 0 {
        return Some(cb(false));
    }
    let bias = (1 << (ebits - 1)) - 1 + mbits as i32;
    let (m, e) = if e == 0 { (m, 1 - bias) } else { (m | 1 << mbits, e - bias) };
    // the constant times 2^k lies between these two integers, if they are small enough
    let n = f.a.w() + 1;
    let lim = 1i128 << (n - 1);
    let sh = e + f.k;
    let (lo, hi) = if m == 0 {
        (0, 0)
    } else if e + bias == top || sh > 60 {
        (lim, lim)
    } else if sh >= 0 {
        ((m as i128) << sh, (m as i128) << sh)
    } else if -sh > 100 {
        (0, 1)
    } else {
        let lo = (m >> -sh) as i128;
        (lo, if (m >> -sh) << -sh == m { lo } else { lo + 1 })
    };
    let (lo, hi) = if sign { (-hi, -lo) } else { (lo, hi) };
    let (whole, lo, hi) = (lo == hi, lo.clamp(-lim, lim), hi.clamp(-lim, lim));
    // what the width of the number alone decides
    let (mn, mx) = srange(f.a);
    let known = match (op, flip) {
        (Bo::FEq, _) => (false, !whole || lo < mn || lo > mx),
        (Bo::FLt, false) => (mx < hi, mn >= hi),
        (Bo::FLe, false) => (mx <= lo, mn > lo),
        (Bo::FLt, true) => (lo < mn, lo >= mx),
        _ => (hi <= mn, hi > mx),
    };
    if known.0 || known.1 {
        return Some(cb(known.0));
    }
    let n = n + 1;
    let (a, lo, hi) = (sext(f.a, n), c(lo as u128 & mask(n), n), c(hi as u128 & mask(n), n));
    Some(match (op, flip) {
        (Bo::FEq, _) => if whole { eq(a, lo) } else { cb(false) },
        (Bo::FLt, false) => bin(Bo::Slt, a, hi),
        (Bo::FLe, false) => bin(Bo::Sle, a, lo),
        (Bo::FLt, true) => bin(Bo::Slt, lo, a),
        _ => bin(Bo::Sle, hi, a),
    })
}
/// A float that depends on a fixed-point number through roundings that keep the order only:
/// the number and the operations, outermost first.
fn mono(x: Sc) -> Option<(Fix, u32, Vec<(Node, u32)>)> {
    let (mut x, mut ops) = (x, vec![]);
    loop {
        if let Some(f) = as_fix(x) {
            return Some((f, x.w(), ops));
        }
        let Sc::S(t, w) = x else { return None };
        if ops.len() > 7 {
            return None;
        }
        let n = node(t).0;
        let cst = |t: Tid| of(t).conc().map_or(false, |v| fconst(v, w as u32).map_or(false, |f| f.a.conc() != Some(0)));
        x = match n {
            Node::Un(Uo::FSqrt | Uo::FpToFp | Uo::FFloor | Uo::FCeil | Uo::FTrunc | Uo::FRoundAway, a) => of(a),
            Node::Bin(Bo::FAdd | Bo::FMul | Bo::FSub | Bo::FDiv, a, b) if cst(b) => of(a),
            Node::Bin(Bo::FAdd | Bo::FMul | Bo::FSub, a, b) if cst(a) => of(b),
            _ => return None,
        };
        ops.push((n, w as u32));
    }
}
/// Compares such a float to a constant: by the least number for which the comparison turns.
fn compare_mono(op: Bo, x: Sc, y: Sc, flip: bool) -> Option<Sc> {
    let (f, fw, ops) = mono(x)?;
    if f.a.w() > lim(fw) {
        return None;
    }
    let eval = |m: i128| -> Option<Sc> {
        let mut v = mk(Fix { a: tight(c(m as u128, 64)), k: f.k, z: cb(false) }, fw)?;
        for (n, w) in ops.iter().rev() {
            v = match *n {
                Node::Un(o, _) => un(o, v, *w),
                Node::Bin(o, a, b) => if of(b).conc().is_some() { bin(o, v, of(b)) } else { bin(o, of(a), v) },
                _ => return None,
            };
            v.conc()?;
        }
        let nan = bin(Bo::FUno, v, v).conc()?;
        if nan == 1 { None } else { Some(v) }
    };
    let (mut mn, mx) = srange(f.a);
    let sg = neg(f.a);
    // the root of a negative number compares to nothing
    let root = matches!(ops.last(), Some((Node::Un(Uo::FSqrt, _), _))) && sg.conc() != Some(0);
    if root || sg.conc() == Some(0) {
        mn = mn.max(0);
    }
    if mn > mx {
        return None;
    }
    // no NaN in between if there is none at the ends
    let (e0, e1) = (eval(mn)?, eval(mx)?);
    let up = bin(Bo::FLe, e0, e1).conc()? == 1;
    // the least m from which on p holds (p turns once, from false to true)
    let first = |p: &dyn Fn(Sc) -> Option<bool>| -> Option<i128> {
        let (mut lo, mut hi) = (mn, mx + 1);
        while lo < hi {
            let mid = lo + (hi - lo).div_euclid(2);
            if p(eval(mid)?)? { hi = mid } else { lo = mid + 1 }
        }
        Some(lo)
    };
    let lt = |v: Sc| Some(bin(Bo::FLt, v, y).conc()? == 1);
    let gt = |v: Sc| Some(bin(Bo::FLt, y, v).conc()? == 1);
    let le = |v: Sc| Some(bin(Bo::FLe, v, y).conc()? == 1);
    let ge = |v: Sc| Some(bin(Bo::FLe, y, v).conc()? == 1);
    let n = f.a.w() + 2;
    let at = |b: i128| bin(Bo::Sle, c(b as u128 & mask(n), n), sext(f.a, n));
    if bin(Bo::FUno, y, y).conc()? == 1 {
        return Some(cb(false));
    }
    // up: {x < y} ends where {x >= y} starts
    let less = |strict: bool| -> Option<Sc> {
        Some(match (up, strict) {
            (true, true) => not(at(first(&ge)?)),
            (true, false) => not(at(first(&gt)?)),
            (false, true) => at(first(&lt)?),
            (false, false) => at(first(&le)?),
        })
    };
    let r = match (op, flip) {
        (Bo::FLt, false) => less(true)?,
        (Bo::FLe, false) => less(false)?,
        (Bo::FLt, true) => not(less(false)?),
        (Bo::FLe, true) => not(less(true)?),
        _ => and(less(false)?, not(less(true)?)),
    };
    Some(if root { and(not(sg), r) } else { r })
}
/// Rewrites a binary operation on floats (or float bits).
pub fn bin_fix(op: Bo, x: Sc, y: Sc) -> Option<Sc> {
    let w = x.w();
    if x.conc().is_some() && y.conc().is_some() {
        return None;
    }
    match op {
        Bo::FUno => {
            // not NaNs
            let num = |x: Sc| {
                if let Sc::S(t, w) = x {
                    if let Node::Bin(Bo::FDiv, a, b) = node(t).0 {
                        let v = of(b).conc().and_then(|v| fconst(v, w as u32));
                        if as_fix(of(a)).is_some() && v.map_or(false, |v| v.a.conc() != Some(0)) {
                            return true;
                        }
                    }
                }
                as_fix(x).is_some()
            };
            return match (num(x), num(y)) {
                (true, true) => Some(cb(false)),
                (true, false) if x != y => Some(bin(Bo::FUno, y, y)),
                (false, true) if x != y => Some(bin(Bo::FUno, x, x)),
                _ => None,
            };
        }
        Bo::AShr | Bo::LShr => {
            if y.conc() == Some(w as u128 - 1) {
                let s = sign_fix(x)?;
                return Some(if op == Bo::AShr { sext(s, w) } else { zext(s, w) });
            }
            return None;
        }
        Bo::And => {
            if y.conc() == Some(mask(w - 1)) {
                return mk(abs(as_fix(x)?), w);
            }
            return None;
        }
        Bo::Xor => {
            if y.conc() == Some(1u128 << (w - 1)) {
                return mk(minus(as_fix(x)?), w);
            }
            return None;
        }
        _ => {}
    }
    if op == Bo::FEq && x == y {
        return Some(not(bin(Bo::FUno, x, x)));
    }
    if matches!(op, Bo::Slt | Bo::Sle | Bo::Ult | Bo::Ule) {
        // the bits of numbers that are not negative are ordered like the numbers
        let plain = |x: Sc| as_fix(x).map_or(false, |f| f.z.conc() == Some(0) && srange(f.a).0 >= 0);
        if !plain(x) || !plain(y) {
            return None;
        }
        return Some(bin(if matches!(op, Bo::Slt | Bo::Ult) { Bo::FLt } else { Bo::FLe }, x, y));
    }
    if matches!(op, Bo::FEq | Bo::FLt | Bo::FLe) {
        if let Some(v) = y.conc() {
            return match as_fix(x) {
                Some(f) => compare(op, f, v, w, false),
                None => compare_mono(op, x, y, false),
            };
        }
        if let Some(v) = x.conc() {
            return match as_fix(y) {
                Some(f) => compare(op, f, v, w, true),
                None => compare_mono(op, y, x, true),
            };
        }
    }
    if matches!(op, Bo::FEq | Bo::FLt | Bo::FLe) && w == 64 {
        // roots of distinct numbers of few bits are distinct
        let of_root = |x: Sc| match x {
            Sc::S(t, _) => match node(t).0 {
                Node::Un(Uo::FSqrt, a) => as_fix(of(a)).filter(|f| srange(f.a).0 >= 0 && f.a.w() <= 48),
                _ => None,
            },
            _ => None,
        };
        if let (Some(p), Some(q)) = (of_root(x), of_root(y)) {
            if let Some((a, b, _)) = align(p, q) {
                if a.w() <= 48 {
                    return Some(match op {
                        Bo::FLt => bin(Bo::Slt, a, b),
                        Bo::FLe => bin(Bo::Sle, a, b),
                        _ => eq(a, b),
                    });
                }
            }
        }
    }
    let (p, q) = (as_fix(x)?, as_fix(y)?);
    match op {
        Bo::FAdd | Bo::FSub => {
            let q = if op == Bo::FSub { minus(q) } else { q };
            if q.a.conc() == Some(0) {
                // x + -0 is x, x + 0 is x but for the sign of a zero
                return mk(Fix { a: p.a, k: p.k, z: and(p.z, q.z) }, w);
            }
            if p.a.conc() == Some(0) {
                return mk(Fix { a: q.a, k: q.k, z: and(p.z, q.z) }, w);
            }
            let (a, b, k) = align(p, q)?;
            let n = a.w() + 1;
            let z = and(and(p.z, q.z), is0(p.a));
            mk(Fix { a: add(a, b).unwrap_or_else(|| bin(Bo::Add, sext(a, n), sext(b, n))), k, z }, w)
        }
        Bo::FMul => {
            let n = p.a.w() + q.a.w();
            if n > 110 {
                return None;
            }
            let sign = |f: &Fix| or(neg(f.a), and(f.z, is0(f.a)));
            let z = match (p.a.conc(), q.a.conc()) {
                _ if x == y => cb(false),
                // the other factor decides whether the product is a zero
                (_, Some(v)) if v != 0 => bin(Bo::Xor, p.z, neg(q.a)),
                (Some(v), _) if v != 0 => bin(Bo::Xor, neg(p.a), q.z),
                _ => bin(Bo::Xor, sign(&p), sign(&q)),
            };
            let a = mul(p.a, q.a).unwrap_or_else(|| bin(Bo::Mul, sext(p.a, n), sext(q.a, n)));
            mk(Fix { a, k: p.k + q.k, z }, w)
        }
        Bo::FDiv => {
            let v = match q.a {
                Sc::C(v, w) => sx(v, w as u32),
                _ => return None,
            };
            if v == 0 || !v.unsigned_abs().is_power_of_two() {
                return None;
            }
            let j = v.unsigned_abs().trailing_zeros() as i32;
            let r = Fix { a: p.a, k: p.k - q.k + j, z: p.z };
            mk(if v < 0 { minus(r) } else { r }, w)
        }
        Bo::FEq | Bo::FLt | Bo::FLe | Bo::Eq => {
            let (mut a, mut b, _) = align(p, q)?;
            if op != Bo::Eq {
                // the difference may be known
                if let Some(d) = mul(b, c(mask(2), 2)).and_then(|m| add(a, m)) {
                    let (l, h) = srange(d);
                    match op {
                        Bo::FLt if h < 0 => return Some(cb(true)),
                        Bo::FLt if l >= 0 => return Some(cb(false)),
                        Bo::FLe if h <= 0 => return Some(cb(true)),
                        Bo::FLe if l > 0 => return Some(cb(false)),
                        Bo::FEq if l == 0 && h == 0 => return Some(cb(true)),
                        Bo::FEq if l > 0 || h < 0 => return Some(cb(false)),
                        _ => {}
                    }
                }
            }
            if let (Some(x), Some(y), true) = (root(a), root(b), op != Bo::Eq) {
                let f = |a| abs(Fix { a, k: 0, z: cb(false) }).a;
                (a, b) = (f(x), f(y));
                let w = a.w().max(b.w());
                (a, b) = (sext(a, w), sext(b, w));
            }
            Some(match op {
                Bo::FLt => bin(Bo::Slt, a, b),
                Bo::FLe => bin(Bo::Sle, a, b),
                Bo::FEq => eq(a, b),
                _ => and(eq(a, b), or(not(is0(a)), eq(p.z, q.z))),
            })
        }
        _ => None,
    }
}
fn floor(f: Fix) -> Sc {
    if f.k <= 0 {
        return if f.k == 0 { f.a } else { concat(f.a, c(0, (-f.k) as u32)) };
    }
    let w = f.a.w();
    let k = (f.k as u32).min(w - 1);
    extract(f.a, k, w - k)
}
fn ceil(f: Fix) -> Sc {
    let r = floor(minus(f));
    let w = r.w() + 1;
    bin(Bo::Sub, c(0, w), sext(r, w))
}
fn trunc(f: Fix) -> Sc {
    if f.k <= 0 {
        return floor(f);
    }
    let (a, b) = (ceil(f), floor(f));
    let w = a.w().max(b.w());
    ite(neg(f.a), sext(a, w), sext(b, w))
}
pub fn un_fix(op: Uo, x: Sc, rw: u32) -> Option<Sc> {
    if x.conc().is_some() {
        return None;
    }
    match op {
        Uo::FSqrt | Uo::FCeil | Uo::FFloor | Uo::FTrunc | Uo::FRoundAway | Uo::FpToFp | Uo::FpToS | Uo::FpToU | Uo::FpToSSat | Uo::FpToUSat => {}
        _ => return None,
    }
    let f = as_fix(x)?;
    let zero = and(f.z, is0(f.a));
    match op {
        Uo::FFloor => mk(Fix { a: floor(f), k: 0, z: zero }, rw),
        Uo::FSqrt => {
            // of a square
            let (Sc::S(mut t, _), 0) = (f.a, f.k & 1) else { return None };
            loop {
                match node(t).0 {
                    Node::Extract(0, a) => t = a,
                    Node::Un(Uo::SExt | Uo::ZExt, a) => t = a,
                    Node::Bin(Bo::Mul, a, b) if a == b => {
                        let a = tight(of(a));
                        return if 2 * a.w() <= node(t).1 as u32 { mk(abs(Fix { a, k: f.k / 2, z: cb(false) }), rw) } else { None };
                    }
                    _ => return None,
                }
            }
        }
        Uo::FCeil => mk(Fix { a: ceil(f), k: 0, z: or(neg(f.a), zero) }, rw),
        Uo::FTrunc => mk(Fix { a: trunc(f), k: 0, z: or(neg(f.a), zero) }, rw),
        Uo::FRoundAway => {
            if f.k <= 0 {
                return Some(x);
            }
            let h = |s: i128| {
                let o = fconst((if s < 0 { -0.5f64 } else { 0.5 }).to_bits() as u128, 64).unwrap();
                align(f, o).map(|(a, b, k)| {
                    let n = a.w() + 1;
                    Fix { a: bin(Bo::Add, sext(a, n), sext(b, n)), k, z: cb(false) }
                })
            };
            let (a, b) = (ceil(h(-1)?), floor(h(1)?));
            let w = a.w().max(b.w());
            mk(Fix { a: ite(neg(f.a), sext(a, w), sext(b, w)), k: 0, z: or(neg(f.a), zero) }, rw)
        }
        Uo::FpToFp => mk(f, rw),
        _ => {
            let t = tight(trunc(f));
            let signed = matches!(op, Uo::FpToS | Uo::FpToSSat);
            if signed {
                return if t.w() <= rw { Some(sext(t, rw)) } else { None };
            }
            if t.w() > rw + 1 {
                return None;
            }
            let n = t.w().max(rw + 1);
            let v = ite(neg(t), c(0, n), sext(t, n));
            Some(extract(v, 0, rw))
        }
    }
}
/// Sign bit of a float.
pub fn sign_fix(x: Sc) -> Option<Sc> {
    if x.conc().is_some() {
        return None;
    }
    let f = as_fix(x)?;
    Some(or(neg(f.a), and(f.z, is0(f.a))))
}

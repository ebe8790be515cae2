//! Compares the rewriting of terms to plain evaluation, on random terms and assignments.
use crate::term::*;
use std::collections::HashMap;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 11) as usize % n
    }
}
#[derive(Clone, Debug)]
enum F {
    Var(usize),
    Const(f64),
    Bin(u8, Box<F>, Box<F>),
    Un(u8, Box<F>),
    Ite(Box<P>, Box<F>, Box<F>),
}
#[derive(Clone, Debug)]
enum P {
    Cmp(u8, Box<F>, Box<F>),
    Int(u8, Box<F>, i128),
    Total(Box<F>, Box<F>),
}
const CONSTS: [f64; 16] = [0.0, -0.0, 1.0, -1.0, 0.5, 3.0, -7.0, 0.125, 10.0, 0.1, -0.3, 1e30, f64::INFINITY, 1e-20, 255.0, 1.5];
fn gen(r: &mut Rng, d: usize) -> F {
    match if d == 0 { r.below(3) } else { r.below(12) } {
        0 | 1 => F::Var(r.below(3)),
        2 => F::Const(CONSTS[r.below(16)]),
        3..=8 => F::Bin(r.below(4) as u8, Box::new(gen(r, d - 1)), Box::new(if r.below(2) == 0 { F::Const(CONSTS[r.below(16)]) } else { gen(r, d - 1) })),
        9 | 10 => F::Un(r.below(8) as u8, Box::new(gen(r, d - 1))),
        _ => F::Ite(Box::new(genp(r, d - 1)), Box::new(gen(r, d - 1)), Box::new(gen(r, d - 1))),
    }
}
/// Sums and products of the first two variables.
fn genpoly(r: &mut Rng, d: usize) -> F {
    if d == 0 || r.below(9) == 0 {
        return if r.below(4) == 0 { F::Const([1.0, 2.0, -3.0, 0.5, 0.0][r.below(5)]) } else { F::Var(r.below(2) * 2) };
    }
    let (a, b) = (genpoly(r, d - 1), genpoly(r, d - 1));
    F::Bin([0, 1, 1, 2][r.below(4)], Box::new(a), Box::new(b))
}
fn genp(r: &mut Rng, d: usize) -> P {
    if r.below(5) == 0 {
        return P::Int(r.below(3) as u8, Box::new(gen(r, d)), r.below(300) as i128 - 100);
    }
    if r.below(6) == 0 {
        return P::Total(Box::new(gen(r, d)), Box::new(gen(r, d)));
    }
    let a = gen(r, d);
    let b = if r.below(3) > 0 { F::Const(CONSTS[r.below(16)]) } else { gen(r, d) };
    if r.below(2) == 0 { P::Cmp(r.below(4) as u8, Box::new(a), Box::new(b)) } else { P::Cmp(r.below(4) as u8, Box::new(b), Box::new(a)) }
}
fn fc(v: f64) -> Sc {
    c(v.to_bits() as u128, 64)
}
fn term(f: &F, v: &[Sc]) -> Sc {
    match f {
        F::Var(i) => v[*i],
        F::Const(x) => fc(*x),
        F::Bin(o, a, b) => bin([Bo::FAdd, Bo::FSub, Bo::FMul, Bo::FDiv][*o as usize], term(a, v), term(b, v)),
        F::Un(o, a) => {
            let a = term(a, v);
            match o {
                0 => un(Uo::FSqrt, a, 64),
                1 => un(Uo::FFloor, a, 64),
                2 => un(Uo::FCeil, a, 64),
                3 => un(Uo::FTrunc, a, 64),
                4 => un(Uo::FRoundAway, a, 64),
                5 => bin(Bo::And, a, c(mask(63), 64)),
                6 => bin(Bo::Xor, a, c(1 << 63, 64)),
                _ => un(Uo::FSqrt, bin(Bo::FMul, a, a), 64),
            }
        }
        F::Ite(p, a, b) => ite(pterm(p, v), term(a, v), term(b, v)),
    }
}
fn pterm(p: &P, v: &[Sc]) -> Sc {
    match p {
        P::Cmp(o, a, b) => bin([Bo::FEq, Bo::FLt, Bo::FLe, Bo::FUno][*o as usize], term(a, v), term(b, v)),
        P::Total(a, b) => {
            // as f64::total_cmp does
            let key = |x: Sc| bin(Bo::Xor, x, bin(Bo::LShr, bin(Bo::AShr, x, c(63, 64)), c(1, 64)));
            let (a, b) = (term(a, v), term(b, v));
            // which NaN an operation gives is not defined
            and(not(bin(Bo::FUno, a, b)), bin(Bo::Slt, key(a), key(b)))
        }
        P::Int(0, a, k) => bin(Bo::Slt, un(Uo::FpToSSat, term(a, v), 32), c(*k as u128, 32)),
        P::Int(1, a, k) => bin(Bo::Ule, un(Uo::FpToUSat, term(a, v), 16), c(*k as u128, 16)),
        P::Int(_, a, k) => bin(Bo::Eq, un(Uo::FpToSSat, term(a, v), 64), c(*k as u128, 64)),
    }
}
fn run(f: &F, v: &[f64]) -> f64 {
    match f {
        F::Var(i) => v[*i],
        F::Const(x) => *x,
        F::Bin(o, a, b) => {
            let (a, b) = (run(a, v), run(b, v));
            match o { 0 => a + b, 1 => a - b, 2 => a * b, _ => a / b }
        }
        F::Un(o, a) => {
            let a = run(a, v);
            match o {
                0 => a.sqrt(),
                1 => a.floor(),
                2 => a.ceil(),
                3 => a.trunc(),
                4 => a.round(),
                5 => f64::from_bits(a.to_bits() & !(1 << 63)),
                6 => f64::from_bits(a.to_bits() ^ (1 << 63)),
                _ => (a * a).sqrt(),
            }
        }
        F::Ite(p, a, b) => if prun(p, v) { run(a, v) } else { run(b, v) },
    }
}
fn prun(p: &P, v: &[f64]) -> bool {
    match p {
        P::Cmp(o, a, b) => {
            let (a, b) = (run(a, v), run(b, v));
            match o { 0 => a == b, 1 => a < b, 2 => a <= b, _ => a.is_nan() || b.is_nan() }
        }
        P::Total(a, b) => {
            let (a, b) = (run(a, v), run(b, v));
            !a.is_nan() && !b.is_nan() && a.total_cmp(&b).is_lt()
        }
        P::Int(0, a, k) => (run(a, v) as i32) < *k as i32,
        P::Int(1, a, k) => run(a, v) as u16 <= *k as u16,
        P::Int(_, a, k) => run(a, v) as i64 == *k as i64,
    }
}
/// Integer terms: built with and without rewriting.
fn ints(r: &mut Rng, d: usize, w: u32, v: &[Sc], m: &Model) -> (Sc, u128) {
    if d == 0 || r.below(8) == 0 {
        if r.below(3) == 0 {
            let k = match r.below(4) { 0 => 0, 1 => mask(w), 2 => 1, _ => r.next() as u128 & mask(w) };
            return (c(k, w), k & mask(w));
        }
        let x = v[r.below(v.len())];
        let xv = eval_sc(x, m, &mut HashMap::new());
        let s = if x.w() >= w { extract(x, 0, w) } else if r.below(2) == 0 { zext(x, w) } else { sext(x, w) };
        let _ = xv;
        let e = if x.w() >= w { xv & mask(w) } else if s == zext(x, w) { xv } else { sx(xv, x.w()) as u128 & mask(w) };
        return (s, e);
    }
    match r.below(14) {
        0 if w > 1 => {
            let k = 1 + r.below(w as usize - 1) as u32;
            let (a, av) = ints(r, d - 1, w - k, v, m);
            let (b, bv) = ints(r, d - 1, k, v, m);
            (concat(a, b), (av << k) | bv)
        }
        1 if w < 60 => {
            let k = r.below(8) as u32 + 1;
            let lo = r.below(k as usize + 1) as u32;
            let (a, av) = ints(r, d - 1, w + k, v, m);
            (extract(a, lo, w), (av >> lo) & mask(w))
        }
        2 if w > 1 => {
            let k = 1 + r.below(w as usize - 1) as u32;
            let (a, av) = ints(r, d - 1, k, v, m);
            if r.below(2) == 0 { (zext(a, w), av) } else { (sext(a, w), sx(av, k) as u128 & mask(w)) }
        }
        3 => {
            let (g, gv) = ints(r, d - 1, 1, v, m);
            let (a, av) = ints(r, d - 1, w, v, m);
            let (b, bv) = ints(r, d - 1, w, v, m);
            (ite(g, a, b), if gv == 1 { av } else { bv })
        }
        4 | 5 if w == 1 => {
            let k = 1 + r.below(40) as u32;
            let (a, av) = ints(r, d - 1, k, v, m);
            let (b, bv) = ints(r, d - 1, k, v, m);
            let o = [Bo::Eq, Bo::Ult, Bo::Ule, Bo::Slt, Bo::Sle][r.below(5)];
            (bin(o, a, b), conc_bin(o, av, bv, k))
        }
        _ => {
            let (a, av) = ints(r, d - 1, w, v, m);
            let (b, bv) = ints(r, d - 1, w, v, m);
            let o = [Bo::Add, Bo::Sub, Bo::Mul, Bo::And, Bo::Or, Bo::Xor, Bo::Shl, Bo::LShr, Bo::AShr, Bo::UDiv, Bo::URem][r.below(11)];
            if matches!(o, Bo::UDiv | Bo::URem) && bv == 0 {
                return (a, av);
            }
            let (b, bv) = if matches!(o, Bo::Shl | Bo::LShr | Bo::AShr) { (c(bv % w as u128, w), bv % w as u128) } else { (b, bv) };
            (bin(o, a, b), conc_bin(o, av, bv, w))
        }
    }
}
pub fn selftest(n: usize, seed: u64) -> bool {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) | 1);
    let vars: Vec<Sc> = [8u32, 16, 32, 64, 1].iter().map(|w| new_var("t", *w)).collect();
    let ids: Vec<u32> = vars.iter().map(|v| match v { Sc::S(t, _) => match node(*t).0 { Node::Var(i) => i, _ => 0 }, _ => 0 }).collect();
    let mut rewritten = 0;
    for round in 0..n {
        // floats
        let f = if round % 4 == 0 {
            let (a, b) = (genpoly(&mut r, 5), if r.below(2) == 0 { F::Const(0.0) } else { genpoly(&mut r, 3) });
            if r.below(2) == 0 { P::Cmp(r.below(4) as u8, Box::new(a), Box::new(b)) } else { P::Cmp(r.below(4) as u8, Box::new(b), Box::new(a)) }
        } else {
            genp(&mut r, 4)
        };
        let fv = [un(Uo::SToFp, vars[0], 64), bin(Bo::FDiv, un(Uo::SToFp, vars[1], 64), fc(8.0)), un(Uo::UToFp, vars[0], 64)];
        let t = pterm(&f, &fv);
        if let Sc::S(t, _) = t {
            if !format!("{:?}", node(t).0).contains("Bin(F") {
                rewritten += 1;
            }
        }
        for _ in 0..12 {
            let a = if r.below(3) == 0 { [0, 1, 127, 128, 255][r.below(5)] } else { r.next() as u8 };
            let b = if r.below(3) == 0 { [0, 8, 0x8000, 0x7fff, 0xffff][r.below(5)] } else { r.next() as u16 };
            let mut m = Model::new();
            m.insert(ids[0], a as u128);
            m.insert(ids[1], b as u128);
            let got = eval_sc(t, &m, &mut HashMap::new()) == 1;
            let want = prun(&f, &[a as i8 as f64, b as i16 as f64 / 8.0, a as f64]);
            if got != want {
                println!("float round {}: {:?} a={} b={} got {} want {}", round, f, a as i8, b as i16, got, want);
                return false;
            }
        }
        // integers
        let mut m = Model::new();
        for (i, v) in ids.iter().zip(&vars) {
            let x = match r.below(4) { 0 => 0, 1 => mask(v.w()), _ => r.next() as u128 & mask(v.w()) };
            m.insert(*i, x);
        }
        let w = [1u32, 3, 8, 16, 32, 33, 64][r.below(7)];
        let (t, want) = ints(&mut r, 5, w, &vars, &m);
        let got = eval_sc(t, &m, &mut HashMap::new());
        if got != want {
            println!("integer round {}: got {:x} want {:x} of width {} with {:?}", round, got, want, w, m);
            return false;
        }
    }
    println!("{} terms agree ({} float comparisons became integer ones)", 2 * n, rewritten);
    true
}

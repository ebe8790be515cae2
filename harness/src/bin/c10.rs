//! C10: bit interleaving and alignment arithmetic.
use pasture_core::math::*;
use sxh::*;

macro_rules! aligned { ($t:ty, $x:expr, $a:expr) => {{
    let (x, a): ($t, $t) = ($x, $a);
    // there is a multiple of the alignment at or above x
    let m = <$t>::MAX / a * a;
    assume(x <= m);
    let r = x.align_to(a);
    check(r >= x, "an aligned number is not below the number");
    check(r - x < a, "there is no smaller multiple");
    check(r % a == 0, "an aligned number is a multiple of the alignment");
    observe(r as u64);
}} }
/// Multiples by construction: x = k * a + d with 0 < d <= a aligns to (k + 1) * a
macro_rules! constructed { ($t:ty, $k:ty, $amax:expr, $kmask:expr) => {{
    let a: $t = sym::<u16>("alignment") as $t;
    assume(a > 0 && a <= $amax);
    let k = (sym::<$k>("multiple") & $kmask) as $t;
    let d: $t = sym::<u16>("rest") as $t;
    assume(d < a);
    let x = k * a + d;
    let r = x.align_to(a);
    check(r == if d == 0 { x } else { (k + 1) * a }, "alignment of k * a + d");
}} }

macro_rules! powers { ($t:ty) => {{
    bound("every value with every power of two as alignment");
    let a: $t = 1 << choice(<$t>::BITS as usize, "log2 of the alignment");
    let x: $t = sym("value");
    let over = (a - 1) & x != 0 && x > <$t>::MAX / a * a;
    if over {
        cover("no multiple fits the type");
        must_panic("an alignment that does not fit was returned", || x.align_to(a));
    } else {
        aligned!($t, x, a);
    }
}} }

harness! {
fn q_expand_bits() {
    bound("all 2^64 arguments");
    let v: u64 = sym("value");
    let r = expand_bits_by_3(v);
    let mut e = 0u64;
    for i in 0..21 {
        e |= ((v >> i) & 1) << (3 * i);
    }
    check(r == e, "bit i is at position 3 i and nothing else is set");
    observe(r);
}
fn q_interleave() {
    let (x, y, z): (u64, u64, u64) = (sym("x"), sym("y"), sym("z"));
    let m = expand_bits_by_3(x) | (expand_bits_by_3(y) << 1) | (expand_bits_by_3(z) << 2);
    check(expand_bits_by_3(x) & (expand_bits_by_3(y) << 1) == 0, "interleaved bits do not meet");
    check(m == expand_bits_by_3(x) + (expand_bits_by_3(y) << 1) + (expand_bits_by_3(z) << 2), "interleaved bits do not meet");
    let mut back = 0u64;
    for i in 0..21 {
        back |= ((m >> (3 * i + 1)) & 1) << i;
    }
    check(back == y & 0x1F_FFFF, "a Morton code gives back its coordinates");
}
/// Expansion keeps the order of 21-bit numbers.
fn q_expand_order() {
    let (a, b): (u64, u64) = (sym("a"), sym("b"));
    assume(a < 1 << 21 && b < 1 << 21);
    check((a < b) == (expand_bits_by_3(a) < expand_bits_by_3(b)), "order of expanded numbers");
}
fn q_reverse_bits() {
    bound("all 2^64 arguments");
    let v: u64 = sym("value");
    let r = reverse_bits(v);
    let i = sym::<u8>("bit") as u64;
    assume(i < 64);
    check((r >> i) & 1 == (v >> (63 - i)) & 1, "bit i goes to bit 63 - i");
    observe(r);
}
fn q_reverse_all() {
    let v: u64 = sym("value");
    check(reverse_bits(v) == v.reverse_bits(), "reversed bits");
}
fn q_reverse_twice() {
    let v: u64 = sym("value");
    check(reverse_bits(reverse_bits(v)) == v, "reversing twice");
}
fn q_align_zero() {
    let x: u64 = sym("value");
    check(x.align_to(0) == x && (x as u8).align_to(0) == x as u8 && (x as u32).align_to(0) == x as u32, "no alignment");
    check((x as u16).align_to(0) == x as u16 && (x as usize).align_to(0) == x as usize && (x as u128).align_to(0) == x as u128, "no alignment");
}
fn q_align_u8() {
    bound("every value and alignment");
    let x: u8 = sym("value");
    let a: u8 = sym("alignment");
    assume(a > 0);
    let m = u8::MAX / a * a;
    if x > m {
        cover("no multiple fits the type");
        must_panic("an alignment that does not fit was returned", || x.align_to(a));
    } else {
        aligned!(u8, x, a);
    }
}
fn q_align_u16() {
    let a: u16 = sym("alignment");
    assume(a > 0 && a < 64);
    aligned!(u16, sym("value"), a);
}
fn q_align_u16_pow() { powers!(u16) }
fn q_align_u32_pow() { powers!(u32) }
fn q_align_u64_pow() { powers!(u64) }
fn q_align_usize_pow() { powers!(usize) }
fn q_align_u128_pow() { powers!(u128) }
fn t_align_u64_mul() { constructed!(u64, u8, 64, 255) }
fn q_align_u32_mul() { constructed!(u32, u8, 31, 15) }
fn q_align_u64_mul() { constructed!(u64, u8, 31, 15) }
fn q_align_usize_mul() { constructed!(usize, u8, 31, 15) }
fn q_align_u128_mul() { constructed!(u128, u8, 31, 15) }
fn q_align_u64_consts() {
    bound("values below 2^16 alignments with the alignments 3, 5, 6, 7, 12, 24 and 27");
    let a = [3u64, 5, 6, 7, 12, 24, 27][choice(7, "alignment")];
    let k = sym::<u16>("multiple") as u64;
    let d = sym::<u8>("rest") as u64;
    assume(d < a);
    let r = (k * a + d).align_to(a);
    check(r == if d == 0 { k * a } else { (k + 1) * a }, "alignment of k * a + d");
}
}

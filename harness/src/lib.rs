//! Harness interface: the symbols below are interpreted by /verif/symex and, in the
//! native replay build, provided by shim.c.
pub mod model;

extern "C" {
    fn sx_sym(p: *mut u8, elem: usize, count: usize, name: *const u8, len: usize);
    fn sx_choice(n: u64, name: *const u8, len: usize) -> u64;
    fn sx_concretize(v: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, msg: *const u8, len: usize);
    fn sx_cover(msg: *const u8, len: usize);
    fn sx_bound(msg: *const u8, len: usize);
    fn sx_observe(v: u64);
    fn sx_expect_panic(e: bool);
    fn sx_is_symbolic() -> bool;
    fn sx_frozen(p: *const u8, len: usize);
}

/// Types every bit pattern of which is a value.
pub unsafe trait Pod: Copy {}
macro_rules! pod { ($($t:ty)*) => { $(unsafe impl Pod for $t {})* } }
pod!(u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 usize isize u128);

/// A symbolic value.
#[inline(never)]
pub fn sym<T: Pod>(name: &str) -> T {
    let mut v = std::mem::MaybeUninit::<T>::uninit();
    unsafe {
        sx_sym(v.as_mut_ptr() as *mut u8, std::mem::size_of::<T>(), 1, name.as_ptr(), name.len());
        v.assume_init()
    }
}
/// An array of symbolic values.
#[inline(never)]
pub fn sym_arr<T: Pod, const N: usize>(name: &str) -> [T; N] {
    let mut v = std::mem::MaybeUninit::<[T; N]>::uninit();
    unsafe {
        sx_sym(v.as_mut_ptr() as *mut u8, std::mem::size_of::<T>(), N, name.as_ptr(), name.len());
        v.assume_init()
    }
}
#[inline(never)]
pub fn sym_bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sx_sym(v.as_mut_ptr(), 1, n, name.as_ptr(), name.len()) };
    v
}
pub fn sym_bool(name: &str) -> bool {
    choice(2, name) == 1
}
/// A symbolic value in `0..n`, one execution path per value.
#[inline(never)]
pub fn choice(n: usize, name: &str) -> usize {
    unsafe { sx_choice(n as u64, name.as_ptr(), name.len()) as usize }
}
/// Split the execution on the value of `v`.
#[inline(never)]
pub fn concretize(v: usize) -> usize {
    unsafe { sx_concretize(v as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    unsafe { sx_check(c, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn cover(msg: &str) {
    unsafe { sx_cover(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn bound(msg: &str) {
    unsafe { sx_bound(msg.as_ptr(), msg.len()) }
}
/// A value that the symbolic and the native execution of a path must agree on.
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        observe(u64::from_le_bytes(w));
    }
}
/// Whether a panic from here on is what the property asks for (the path then ends well)
/// or a violation.
#[inline(always)]
pub fn expect_panic(e: bool) {
    unsafe { sx_expect_panic(e) }
}
pub fn is_symbolic() -> bool {
    unsafe { sx_is_symbolic() }
}
/// An expected panic must leave these bytes as they are now.
pub fn frozen(b: &[u8]) {
    unsafe { sx_frozen(b.as_ptr(), b.len()) }
}
/// Ends the path as a violation unless it panics inside `f`.
#[inline(always)]
pub fn must_panic<R>(msg: &str, f: impl FnOnce() -> R) {
    expect_panic(true);
    let _r = std::mem::ManuallyDrop::new(f());
    expect_panic(false);
    check(false, msg);
}

pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // no early exit: one term instead of one branch per byte
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}

pub fn run(table: &[(&str, extern "C" fn())]) {
    let want = std::env::args().nth(1).unwrap_or_default();
    for (n, f) in table {
        if *n == want {
            f();
            return;
        }
    }
    for (n, _) in table {
        println!("{}", n);
    }
    if !want.is_empty() {
        std::process::exit(2);
    }
}

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[no_mangle] #[inline(never)] pub extern "C" fn $n() $b )*
        fn main() { $crate::run(&[$((stringify!($n), $n as extern "C" fn())),*]) }
    };
}

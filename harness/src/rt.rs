//! Harness runtime: the intrinsics `symex` interprets, and small helpers.
//! Under replay the same symbols come from replay.c / replay.mjs.
use alloc::vec::Vec;

#[cfg_attr(target_arch = "wasm32", link(wasm_import_module = "env"))]
extern "C" {
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u64);
    fn sym_cover(id: u32);
    fn sym_note(tag: u32, v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_param(i: u64) -> u64;
    fn sym_digits(v: *const u128, p: *const u8, n: usize);
}

/// `n` fresh symbolic bytes.
#[inline(never)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = alloc::vec![0u8; n];
    if n > 0 {
        unsafe { sym_bytes(v.as_mut_ptr(), n) };
    }
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    unsafe { sym_bytes(a.as_mut_ptr(), N) };
    a
}
pub fn byte() -> u8 {
    arr::<1>()[0]
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The number whose decimal digits these are. From here on `core` prints it
/// with these digits (the executor checks nothing; replay prints for real).
#[inline(never)]
pub fn number(d: &[u8]) -> u128 {
    let mut v = 0u128;
    let mut i = 0;
    while i < d.len() {
        v = v.wrapping_mul(10).wrapping_add(d[i].wrapping_sub(b'0') as u128);
        i += 1;
    }
    unsafe { sym_digits(&v, d.as_ptr(), d.len()) };
    v
}
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
pub fn note(tag: u32, v: u64) {
    unsafe { sym_note(tag, v) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn param(i: u64) -> u64 {
    unsafe { sym_param(i) }
}
/// A value below `n`, one execution path per value.
#[inline(never)]
pub fn choice(n: u64) -> u64 {
    let b = byte();
    assume((b as u64) < n);
    conc(b as u64)
}
pub fn flag() -> bool {
    choice(2) == 1
}
/// Symbolic bytes of every length up to `max`.
#[inline(never)]
pub fn blob(max: usize) -> Vec<u8> {
    let n = choice(max as u64 + 1) as usize;
    bytes(n)
}
/// The part of `s` that parameter `i` asks for, or every one of `0..n` when
/// the parameter is `u64::MAX` or absent.
pub fn pick(i: u64, n: u64) -> u64 {
    let p = param(i);
    if p < n {
        p
    } else {
        choice(n)
    }
}
#[inline(always)]
pub fn chk(c: bool, id: u64) {
    unsafe { sym_assert(c, id) }
}
/// The assertion of a property. The id is the line, so that reports can name it.
#[macro_export]
macro_rules! check {
    ($c:expr $(, $m:literal)?) => {
        $crate::rt::chk($c, (FILE_ID as u64) << 16 | line!() as u64)
    };
}
/// Any ASCII text of `n` characters.
#[inline(never)]
pub fn text(n: usize) -> alloc::string::String {
    let v = bytes(n);
    let mut ok = true;
    for c in &v {
        ok &= *c < 0x80;
    }
    assume(ok);
    unsafe { alloc::string::String::from_utf8_unchecked(v) }
}
/// Any ASCII text of at least `from` and at most `to` characters, one
/// execution path per length.
pub fn name(from: usize, to: usize) -> alloc::string::String {
    text(from + choice((to - from) as u64 + 1) as usize)
}

//! The harness side of the executor's interface. Under `lsx` these are intrinsics; in the native
//! build (../native) they read a recorded byte stream.
extern "C" {
    fn sym_u8() -> u8;
    fn sym_u16() -> u16;
    fn sym_u32() -> u32;
    fn sym_u64() -> u64;
    fn sym_bytes(p: *mut u8, n: usize);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, m: *const u8, n: usize);
    fn sym_cover(id: u32);
    fn sym_observe(x: u64);
    fn sym_enum(x: u64) -> u64;
    fn sym_pin(x: u64) -> u64;
    fn sym_differ();
    fn sym_prefer(c: bool);
    fn sym_concrete(x: u64, recorded: u8) -> bool;
    fn sym_known(x: u64, y: u64, recorded: u8) -> bool;
}

pub fn u8() -> u8 {
    unsafe { sym_u8() }
}
pub fn u16() -> u16 {
    unsafe { sym_u16() }
}
pub fn u32() -> u32 {
    unsafe { sym_u32() }
}
pub fn u64() -> u64 {
    unsafe { sym_u64() }
}
pub fn fill(b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    fill(&mut v);
    v
}
pub fn arr<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    fill(&mut v);
    v
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, m: &'static str) {
    unsafe { sym_check(c, m.as_ptr(), m.len()) }
}
/// Marks that this point was reached with a feasible path; the driver insists on it.
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// Recorded on the path and compared with what the native build computes.
pub fn obs(x: u64) {
    unsafe { sym_observe(x) }
}
/// Splits the path over every value of `x`.
pub fn each(x: u64) -> u64 {
    unsafe { sym_enum(x) }
}
/// A value in 0..n, one path each.
pub fn choose(n: u8) -> usize {
    let x = u8();
    assume(x < n);
    each(x as u64) as usize
}

/// Restricts the path to one possible value of `x`.
pub fn pin(x: u64) -> u64 {
    unsafe { sym_pin(x) }
}
/// Restricts the path to `c` if that is possible.
pub fn prefer(c: bool) {
    unsafe { sym_prefer(c) }
}
/// Whether `x` follows from inputs restricted to one value. The answer is part of the recorded input.
pub fn concrete(x: u64) -> bool {
    let b = u8();
    let k = unsafe { sym_concrete(x, b) };
    assume(b == k as u8);
    k
}
/// After `known` said no: makes the integers it could not show equal differ, if possible.
pub fn differ() {
    unsafe { sym_differ() }
}
/// Whether two bit patterns are the same for every input by congruence: the same floating-point
/// operations on equal integers. The answer is part of the recorded input.
pub fn known(x: u64, y: u64) -> bool {
    let b = u8();
    let k = unsafe { sym_known(x, y, b) };
    assume(b == k as u8);
    k
}

#[macro_export]
macro_rules! harnesses {
    ($(fn $name:ident($arg:ident) $body:block)*) => {
        $(#[no_mangle]
        pub extern "C" fn $name($arg: u64) { let _ = $arg; $body })*
        pub const TABLE: &[(&str, extern "C" fn(u64))] = &[$((stringify!($name), $name as extern "C" fn(u64))),*];
    };
}

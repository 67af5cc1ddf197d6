//! Interface to the symbolic executor. The native replay runner provides the same functions.
extern "C-unwind" {
    fn sx_bytes(p: *mut u8, n: usize, l: *const u8, ln: usize);
    fn sx_choice(n: u32, l: *const u8, ln: usize) -> u32;
    fn sx_conc(x: u32) -> u32;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, s: *const u8, n: usize);
    fn sx_fail(s: *const u8, n: usize);
    fn sx_reach(k: u32);
    fn sx_param(k: u32) -> u64;
    fn sx_order(n: u32);
    fn sx_epoch(n: u32);
    fn sx_out(p: *const u8, n: usize);
    fn sx_log(p: *const u8, n: usize);
    fn sx_native() -> bool;
    fn sx_select(c: bool, a: u64, b: u64) -> u64;
}
/// n symbolic bytes
pub fn bytes(n: usize, label: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { sx_bytes(v.as_mut_ptr(), n, label.as_ptr(), label.len()) };
    v
}
/// symbolic value in 0..n
pub fn choice(n: u32, label: &str) -> u32 { unsafe { sx_choice(n, label.as_ptr(), label.len()) } }
/// value in 0..n, one path per value
pub fn pick(n: u32, label: &str) -> u32 { unsafe { sx_conc(choice(n, label)) } }
pub fn flag(label: &str) -> bool { choice(2, label) == 1 }
pub fn conc(x: u32) -> u32 { unsafe { sx_conc(x) } }
pub fn assume(c: bool) { unsafe { sx_assume(c) } }
pub fn check(c: bool, sig: &str) { unsafe { sx_check(c, sig.as_ptr(), sig.len()) } }
pub fn fail(sig: &str) -> ! {
    unsafe { sx_fail(sig.as_ptr(), sig.len()) };
    loop {}
}
/// vacuity witness: situation k was reached
pub fn reach(k: u32) { unsafe { sx_reach(k) } }
pub fn param(k: u32) -> u64 { unsafe { sx_param(k) } }
/// from here on the first n distinct capitalised hash keys are placed in every possible order
pub fn order(n: u32) { unsafe { sx_order(n) } }
/// new hash seeds: orders are chosen again
pub fn epoch(n: u32) { unsafe { sx_epoch(n) } }
/// observable result, compared with the native run of the same inputs
pub fn out(b: &[u8]) { unsafe { sx_out(b.as_ptr(), b.len()) } }
pub fn log(s: &str) { unsafe { sx_log(s.as_ptr(), s.len()) } }
/// a native run that wants log lines
pub fn native() -> bool { unsafe { sx_native() } }
/// if c then a else b, without a branch
pub fn select(c: bool, a: u64, b: u64) -> u64 { unsafe { sx_select(c, a, b) } }

/// equality as one formula (no branch per byte)
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

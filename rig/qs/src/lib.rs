//! Harness interface: symbolic inputs, assumptions, assertions. Under the
//! symbolic engine these are intrinsics; natively (feature "native") the inputs
//! come from the solver's model and a failed assertion ends the process.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn qs_bit(id: u64) -> bool;
        fn qs_assume(b: bool);
        fn qs_assert(b: bool, p: *const u8, n: u64);
        fn qs_reach();
        fn qs_known(b: bool) -> u8;
        fn qs_decide(b: bool) -> bool;
        fn qs_debug(p: *const u8, n: u64, v: u64);
        fn qs_cfg(k: u64, v: u64);
        fn qs_paths(p: *const u8, n: u64);
    }
    pub fn bit(id: u64) -> bool {
        unsafe { qs_bit(id) }
    }
    pub fn assume(b: bool) {
        unsafe { qs_assume(b) }
    }
    pub fn check(b: bool, m: &'static str) {
        unsafe { qs_assert(b, m.as_ptr(), m.len() as u64) }
    }
    pub fn reach() {
        unsafe { qs_reach() }
    }
    pub fn known(b: bool) -> u8 {
        unsafe { qs_known(b) }
    }
    pub fn decide(b: bool) -> bool {
        unsafe { qs_decide(b) }
    }
    pub fn debug(m: &'static str, v: u64) {
        unsafe { qs_debug(m.as_ptr(), m.len() as u64, v) }
    }
    pub fn cfg(k: u64, v: u64) {
        unsafe { qs_cfg(k, v) }
    }
    pub fn paths(m: &'static str) {
        unsafe { qs_paths(m.as_ptr(), m.len() as u64) }
    }
    pub const NATIVE: bool = false;
}
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub static MODEL: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    /// process exit codes of the native runner
    pub const OK: i32 = 0;
    pub const FAILED: i32 = 10;
    pub const UNASSUMED: i32 = 12;
    pub fn set_model(true_bits: Vec<u64>) {
        *MODEL.lock().unwrap() = true_bits;
    }
    pub fn bit(id: u64) -> bool {
        MODEL.lock().unwrap().contains(&id)
    }
    pub fn assume(b: bool) {
        if !b {
            eprintln!("qs: assumption violated");
            std::process::exit(UNASSUMED);
        }
    }
    pub fn check(b: bool, m: &'static str) {
        if !b {
            eprintln!("qs: assertion failed: {m}");
            std::process::exit(FAILED);
        }
    }
    pub fn reach() {
        eprintln!("qs: reached");
    }
    pub fn known(b: bool) -> u8 {
        b as u8
    }
    pub fn decide(b: bool) -> bool {
        b
    }
    pub fn debug(m: &'static str, v: u64) {
        eprintln!("qs: {m} = {v}");
    }
    pub fn cfg(_: u64, _: u64) {}
    pub fn paths(_: &'static str) {}
    pub const NATIVE: bool = true;
}
pub use imp::*;

/// hash collections under the symbolic engine. mode 0: exact sets (an element
/// which is present for some inputs only is inserted with a symbolic liveness);
/// mode 1: a set may list semantically equal elements twice (structurally equal
/// ones are still merged), every listed element being present. No effect natively.
static mut MODE: u8 = 0;
/// iteration order of hash collections: 0 insertion order, 1 its reverse
static mut ORDER: u8 = 0;
pub fn set_mode(m: u8) {
    unsafe { MODE = m }
}
pub fn set_order(m: u8) {
    unsafe { ORDER = m }
}
pub fn mode() -> u8 {
    unsafe { MODE }
}
pub fn order() -> u8 {
    unsafe { ORDER }
}
/// never ask the solver whether a branch can be taken (loops whose length does
/// not depend on the inputs); the engine still cuts structurally false paths
pub fn no_feasibility() {
    cfg(0, 1 << 30);
    cfg(1, 1 << 30);
}
/// from the top of a harness: a panic is an acceptable end of a run
pub fn panic_ok() {
    cfg(2, 1);
}
static mut NEXT: u64 = 0;
/// a fresh symbolic bit; only called at the top of a harness, before any branch
pub fn fresh() -> bool {
    unsafe {
        let n = NEXT;
        NEXT = n + 1;
        bit(n)
    }
}
/// a fresh +1/-1
pub fn pm() -> i8 {
    1 - 2 * (fresh() as i8)
}
pub fn pm_vec(n: usize) -> Vec<i8> {
    (0..n).map(|_| pm()).collect()
}
/// a fresh unsigned number of `bits` bits
pub fn num(bits: u32) -> u64 {
    let mut r = 0u64;
    for i in 0..bits {
        r |= (fresh() as u64) << i;
    }
    r
}
/// a fresh number below `n`
pub fn below(n: u64) -> u64 {
    let mut b = 0;
    while (1u64 << b) < n {
        b += 1;
    }
    let v = num(b);
    if (1u64 << b) != n {
        assume(v < n);
    }
    v
}

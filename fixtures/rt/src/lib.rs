//! Vocabulary of the obligation drivers. None of this is ever executed: the analyser gives each
//! function its abstract meaning.

macro_rules! any {
    ($($f:ident $t:ty),*) => { $(
        /// Any value of the type.
        #[inline(never)]
        pub fn $f() -> $t { loop {} }
    )* };
}
any!(any_u8 u8, any_u16 u16, any_u32 u32, any_u64 u64, any_u128 u128, any_usize usize, any_bool bool);

/// One of `0..n`, each in a partition of its own.
#[inline(never)]
pub fn each(_n: usize) -> usize {
    loop {}
}

/// Start of a fresh allocation holding `len` arbitrary octets.
#[inline(never)]
pub fn blob(_len: usize) -> *mut u8 {
    loop {}
}

/// `len` arbitrary octets.
pub fn octets(len: usize) -> Vec<u8> {
    unsafe { Vec::from_raw_parts(blob(len), len, len) }
}

/// Restrict the analysis to states satisfying the condition.
#[inline(never)]
pub fn assume(_c: bool) {
    loop {}
}

/// An obligation.
#[inline(never)]
pub fn require(_c: bool, _rule: &'static str) {
    loop {}
}

/// A point which must be reachable, or the driver proves nothing.
#[inline(never)]
pub fn cover(_label: &'static str) {
    loop {}
}

/// From here on, allocating more than `n` octets at once is a violation.
#[inline(never)]
pub fn alloc_limit(_n: usize) {
    loop {}
}

/// From here on, more than `n` calls inside each other are a violation.
#[inline(never)]
pub fn depth_limit(_n: usize) {
    loop {}
}

/// Lift `alloc_limit`.
#[inline(never)]
pub fn alloc_unlimited() {
    loop {}
}

/// From here on, a panic ends the run without being a violation.
#[inline(never)]
pub fn panics_allowed() {
    loop {}
}

/// Number of live heap objects.
#[inline(never)]
pub fn heap_objects() -> usize {
    loop {}
}

/// Whether each of the octets is initialised.
#[inline(never)]
pub fn is_init(_p: *const u8, _n: usize) -> bool {
    loop {}
}

#[inline(never)]
pub fn show(_label: &'static str, _v: usize) {
    loop {}
}

/// A failure of the outside world: `code` of the operating system, or a kind without code for 0.
pub fn outside(code: u32) -> std::io::Error {
    if code == 0 {
        std::io::Error::from(std::io::ErrorKind::InvalidData)
    } else {
        std::io::Error::from_raw_os_error(code as i32)
    }
}

/// Whether `e` is `outside(code)`.
pub fn is_outside(e: &std::io::Error, code: u32) -> bool {
    if code == 0 {
        e.raw_os_error().is_none() && e.kind() == std::io::ErrorKind::InvalidData
    } else {
        e.raw_os_error() == Some(code as i32)
    }
}

/// Failures of different kinds: bad data, I/O error, would block, broken pipe, connection reset, timeout.
pub const CODES: [u32; 6] = [0, 5, 11, 32, 104, 110];

pub fn any_code() -> u32 {
    CODES[each(6)]
}

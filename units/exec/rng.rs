/// Deterministic choices.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}
/// Runs a case; a panic or an `Err` is a failing input.
pub fn case(what: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let why = match r {
        Ok(Ok(())) => return,
        Ok(Err(e)) => e,
        Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    println!("FAIL {}: {why}", what());
    std::process::exit(0);
}
/// A case that must be refused (by a panic).
pub fn refused(what: &dyn Fn() -> String, f: impl FnOnce()) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok() {
        println!("FAIL {}: accepted", what());
        std::process::exit(0);
    }
}
pub fn eq<T: PartialEq + core::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, want {want:?}")) }
}

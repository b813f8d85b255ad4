extern "C" {
    fn qs_hash(p: *const u8, n: u64, h: u64) -> u64;
    fn qs_known(b: bool) -> u8;
}
pub fn known(b: bool) -> u8 {
    unsafe { qs_known(b) }
}
/// structural hash: equal symbolic expressions give equal hashes
pub struct QHasher(pub u64);
impl ::std::hash::Hasher for QHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = unsafe { qs_hash(b.as_ptr(), b.len() as u64, self.0) };
    }
}
pub fn shash<T: ::std::hash::Hash + ?Sized>(t: &T) -> u64 {
    let mut h = QHasher(0x1234567);
    t.hash(&mut h);
    ::std::hash::Hasher::finish(&h)
}
pub use ::qs::{mode, order};

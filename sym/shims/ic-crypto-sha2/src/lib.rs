//! Stand-in for dfinity/ic's ic-crypto-sha2 (same API subset, backed by the `sha2` crate).
use sha2::Digest;
#[derive(Default, Clone)]
pub struct Sha256 {
    inner: sha2::Sha256,
}
impl Sha256 {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn hash(data: &[u8]) -> [u8; 32] {
        let mut h = Self::new();
        h.write(data);
        h.finish()
    }
    pub fn write(&mut self, data: &[u8]) {
        self.inner.update(data)
    }
    pub fn finish(self) -> [u8; 32] {
        self.inner.finalize().into()
    }
}

//! Offline stand-in: wizer is an optional optimizer for the project; this one always declines, so the
//! documented fall-back (keep the linked wasm and its `_start` export) is what runs.
#[derive(Default)]
pub struct Wizer;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("wizer is not available offline")
    }
}
impl Wizer {
    pub fn new() -> Self {
        Wizer
    }
    pub fn init_func(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn run(&self, _: &[u8]) -> Result<Vec<u8>, Error> {
        Err(Error)
    }
}

//! Stand-in for `wizer` (not available offline): the pre-initialisation it performs is optional for
//! the compiler, which keeps the wasm as it is when wizer reports an error.
#[derive(Debug)]
pub struct Error(&'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Default)]
pub struct Wizer;
macro_rules! opts { ($($n:ident: $t:ty),*) => { $(pub fn $n(&mut self, _: $t) -> &mut Self { self })* } }
impl Wizer {
    pub fn new() -> Self {
        Wizer
    }
    pub fn init_func(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    opts!(allow_wasi: bool, keep_init_func: bool, wasm_bulk_memory: bool, wasm_multi_memory: bool, wasm_simd: bool, inherit_stdio: bool, inherit_env: bool);
    pub fn run(&self, _wasm: &[u8]) -> Result<Vec<u8>, Error> {
        Err(Error("wizer is not available offline"))
    }
}

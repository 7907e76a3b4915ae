//! Stand-in: the modelled broker needs no executor.
#[derive(Debug, Default, Clone)]
pub struct Tokio;
impl Tokio {
    pub fn current() -> Self {
        Tokio
    }
    pub fn with_handle<H>(self, _: H) -> Self {
        self
    }
}

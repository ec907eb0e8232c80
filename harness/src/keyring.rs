//! The circuit keys, built once per process, before any parallel execution starts (the
//! crate's own parallelism would otherwise re-enter the initialization).
use orchard::circuit::{ProvingKey, VerifyingKey};
use std::sync::OnceLock;
static PK: OnceLock<ProvingKey> = OnceLock::new();
static VK: OnceLock<VerifyingKey> = OnceLock::new();
pub fn init() {
    std::thread::scope(|s| {
        s.spawn(|| PK.get_or_init(ProvingKey::build));
        VK.get_or_init(VerifyingKey::build);
    })
}
pub fn pk() -> &'static ProvingKey { PK.get().expect("keys") }
pub fn vk() -> &'static VerifyingKey { VK.get().expect("keys") }
